//! C17: metadata, declarations and provenance survive serialisation
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

fn doc() -> Document { match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") } }
fn same_map(a: &HashMap<String, String>, b: &HashMap<String, String>) {
    check!(a.len() == b.len(), "header: no metadata field is lost or invented");
    for (k, v) in a.iter() { match b.get(k) { Some(w) => check!(v == w, "header: the value of a metadata field is kept"), None => fail!("header: the identifier of a metadata field is kept") } }
}
fn same_opt(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a == b, _ => false } }
fn same_meta(a: &Metadata, b: &Metadata) {
    check!(same_opt(&a.metadatatype, &b.metadatatype), "header: the type of metadata is kept");
    check!(same_opt(&a.src, &b.src), "header: the source of metadata is kept");
    same_map(&a.data, &b.data);
}
fn procs<'a>(d: &'a Document, k: &[ProcKey]) -> Vec<&'a Processor> { k.iter().map(|k| match d.get_processor(*k) { Some(p) => p, None => fail!("header: processors of the chain exist") }).collect() }
fn same_proc(a: &Document, p: &Processor, b: &Document, q: &Processor) {
    check!(p.id == q.id && p.name == q.name && p.processortype == q.processortype, "header: identifier, name and type of a processor are kept");
    check!(p.version == q.version && p.folia_version == q.folia_version && p.document_version == q.document_version, "header: the versions of a processor are kept");
    check!(p.command == q.command && p.host == q.host && p.user == q.user, "header: command, host and user of a processor are kept");
    check!(p.begindatetime == q.begindatetime && p.enddatetime == q.enddatetime, "header: begin and end time of a processor are kept");
    check!(p.src == q.src && p.format == q.format && p.resourcelink == q.resourcelink, "header: source, format and resource link of a processor are kept");
    same_map(&p.metadata.data, &q.metadata.data);
    let (x, y) = (procs(a, &p.processors), procs(b, &q.processors));
    check!(x.len() == y.len(), "header: subprocessors are kept");
    for (s, t) in x.iter().zip(y.iter()) { check!(t.parent == q.key && t.parent.is_some(), "header: subprocessors know their parent"); same_proc(a, s, b, t) }
}
fn same_header(a: &Document, b: &Document) {
    check!(a.id() == b.id(), "header: the document's identifier is kept");
    same_meta(&a.metadata, &b.metadata);
    check!(a.submetadata.len() == b.submetadata.len(), "header: no submetadata is lost or invented");
    for (k, v) in a.submetadata.iter() { match b.submetadata.get(k) { Some(w) => same_meta(v, w), None => fail!("header: the identifier of submetadata is kept") } }
    let (x, y): (Vec<&Declaration>, Vec<&Declaration>) = (a.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect(), b.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect());
    check!(x.len() == y.len(), "header: no declaration is lost or invented");
    for (s, t) in x.iter().zip(y.iter()) {
        check!(s.annotationtype == t.annotationtype && same_opt(&s.set, &t.set), "header: annotation type and set of a declaration are kept");
        check!(same_opt(&s.alias, &t.alias) && same_opt(&s.format, &t.format), "header: alias and format of a declaration are kept");
        let (m, n) = (procs(a, &s.processors), procs(b, &t.processors));
        check!(m.len() == n.len(), "header: the processors of a declaration are kept");
        for (p, q) in m.iter().zip(n.iter()) { check!(p.id == q.id, "header: the processors of a declaration are kept, in order") }
    }
    let (x, y) = (procs(a, &a.provenancestore.chain), procs(b, &b.provenancestore.chain));
    check!(x.len() == y.len(), "header: the provenance chain is kept");
    for (s, t) in x.iter().zip(y.iter()) { check!(t.parent.is_none(), "header: the provenance chain is kept"); same_proc(a, s, b, t) }
}
fn trip(d: &Document) -> Document { trip_by(d, false) }
fn trip_by(d: &Document, from_file: bool) -> Document {
    let x = xml_of(d);
    let s = unsafe { std::str::from_utf8_unchecked(&x) };
    let e = match parse_either(s, from_file) { Ok(e) => e, Err(_) => fail!("a serialised document parses again") };
    same_header(d, &e);
    check!(nelements(&e) == nelements(d), "header: the body is kept");
    log(x.len() as u64);
    e
}
fn date(n: u32) -> chrono::NaiveDateTime { match chrono::NaiveDate::from_ymd_opt(2000 + n as i32, 1 + n % 12, 1 + n % 28).and_then(|x| x.and_hms_opt(n % 24, n % 60, 59 - n % 60)) { Some(d) => d, None => fail!("date") } }

harness!(PROC_H, c17_processor, "C17", quick [(0, 36)], thorough [(36, 48)], reach ["c17.proc"],
    "a processor with one of its twelve text fields (case mod 12) of 0, 1 or 2 (thorough: 3) symbolic characters (printable ASCII, tab, newline), any type, all other fields filled in differently or left out, with or without times", |case| {
    let mut d = doc();
    let f = case as usize % 12;
    let v = sstr(case as usize / 12, TEXT);
    let full = flag();
    let g = |i: usize, s: &str| if i == f { v.clone() } else if full { s.to_string() } else { String::new() };
    // an identifier is never empty
    if f == 1 && v.is_empty() { return }
    let ty = [ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource][if f == 0 { choose(4) } else { f % 4 }];
    let mut p = Processor::new(g(0, "name")).with_type(ty).with_id(if f == 1 { v.clone() } else { "the.id".into() }).with_version(g(2, "1.2")).with_folia_version(g(3, "2.5")).with_document_version(g(4, "7")).with_command(g(5, "run \"x\" <y >z &"))
        .with_host(g(6, "h")).with_user(g(7, "u")).with_src(g(8, "s")).with_format(g(9, "text/html")).with_resourcelink(g(10, "r"));
    if flag() { p = p.with_begindatetime(date(f as u32 + 1)) }
    if flag() { p = p.with_enddatetime(date(f as u32 + 20)) }
    if f == 11 { p.metadata.data.insert("k".into(), v.clone()); }
    check!(d.add_processor(p).is_ok(), "a processor can be added");
    trip(&d);
    reach!("c17.proc");
});

harness!(TREE_H, c17_chain, "C17", quick [(1, 4)], thorough [(4, 6)], reach ["c17.chain"],
    "every forest of `case` (up to 3, thorough: 5) processors in the provenance chain, with symbolic identifiers of one letter and a number, some with metadata", |case| {
    let mut d = doc();
    let mut keys = vec![];
    for i in 0..case as usize {
        let mut p = Processor::new(format!("n{}", i)).with_id(format!("{}{}", sstr(1, LETTER), i));
        if i == 1 && flag() { p.metadata.data.insert(sstr(1, LETTER), sstr(1, VISIBLE)); }
        let at = choose(keys.len() + 1);
        let r = if at == 0 { d.add_processor(p) } else { d.add_subprocessor(keys[at - 1], p) };
        match r { Ok(k) => keys.push(k), Err(_) => fail!("a processor can be added") }
    }
    trip(&d);
    reach!("c17.chain");
});

harness!(DECL_H, c17_declarations, "C17", quick [(4, 12)], thorough [(12, 16)], reach ["c17.decl"],
    "1 or 2 (thorough: 3) declarations of one of two annotation types, each with or without set, alias and format (one symbolic character each: one of them printable ASCII, tab or newline, the others one of two letters), listing any of two processors in any order", |case| {
    let mut d = doc();
    let p: Vec<ProcKey> = (0..2).map(|i| match d.add_processor(Processor::new(format!("n{}", i)).with_id(format!("p{}", i))) { Ok(k) => k, Err(_) => fail!("a processor can be added") }).collect();
    // one value is symbolic over all characters, the others over two letters
    let n = (case / 4) as usize;
    for i in 0..n {
        let m = |c: bool, f: u64| if c || (f == case % 4 && i == 0) { Some(sstr(1, if f == case % 4 && i == 0 { TEXT } else { Dom::of(b"xy") })) } else { None };
        let ty = if i == 0 || flag() { AnnotationType::POS } else { AnnotationType::ENTITY };
        let set = m(flag(), 0);
        let rest = flag();
        let mut x = Declaration::new(ty, set, m(rest, 1), m(rest, 2));
        x.processors = match choose(if i == 0 { 5 } else { 3 }) { 0 => vec![], 1 => vec![p[0]], 2 => vec![p[1], p[0]], 3 => vec![p[0], p[1]], _ => vec![p[1]] };
        // the same annotation type and set twice is no declaration of its own
        if d.get_declaration_by_id(&x.index_id_of()).is_some() { assume(false) }
        check!(d.add_declaration(x).is_ok(), "a declaration can be added");
    }
    trip(&d);
    reach!("c17.decl");
});
trait IndexId { fn index_id_of(&self) -> String; }
impl IndexId for Declaration { fn index_id_of(&self) -> String { Declaration::index_id(self.annotationtype, &self.set.as_ref().map(|s| s.as_str())) } }

harness!(ALL_H, c17_annotation_types, "C17", quick [(0, 2)], thorough [], reach ["c17.all"],
    "a declaration of every annotation type (symbolic), with or without a set of one symbolic character, and one of the text annotation type after it", |case| {
    let mut d = doc();
    let t = all_annotypes();
    let ty = t[conc(index(t.len()))];
    let set = if case == 0 { None } else { Some(sstr(1, TEXT)) };
    check!(d.declare(ty, &set, &None, &None).is_ok(), "a declaration can be made");
    check!(d.declare(AnnotationType::TEXT, &Some("t".into()), &None, &None).is_ok(), "a declaration can be made");
    trip(&d);
    reach!("c17.all");
});

fn meta(m: &mut Metadata, n: usize, len: usize, at: usize) {
    // one value (`at`) is symbolic over all characters, the others are concrete or left out
    let v = |i: usize, len: usize| if i == at { sstr(len, TEXT) } else { "v".to_string() };
    if at == 0 || flag() { m.metadatatype = Some(v(0, 1)) }
    if at == 1 || flag() { m.src = Some(v(1, 1)) }
    for i in 0..n { m.data.insert(format!("{}{}", v(2 + i, 1), i), v(4 + i, if i == 0 { len } else { 1 })); }
}
harness!(META_H, c17_metadata, "C17", quick [(0, 12)], thorough [(12, 24)], reach ["c17.meta"],
    "metadata of the document (even cases) or of the first submetadata (odd cases) with one of type, source, identifier or value of one of two fields symbolic (one, a value two, thorough: three characters, printable ASCII, tab, newline), the others filled in or left out; zero to two submetadata next to it", |case| {
    let mut d = doc();
    let (at, len) = (case as usize / 2 % 6, if case < 12 { 2 } else { 3 });
    let mut m = Metadata::default();
    meta(&mut m, if at > 1 { 2 } else { choose(3) }, len, at);
    if case & 1 == 0 {
        d.metadata = m;
        for i in 0..choose(3) {
            let mut m = Metadata::default();
            if i == 1 { m.data.insert("k".into(), "v".into()); }
            d.submetadata.insert(format!("{}{}", sstr(1, LETTER), i), m);
        }
    } else {
        if flag() { d.metadata.data.insert("k".into(), "w".into()); }
        d.submetadata.insert(if flag() { sstr(1, TEXT.without(Dom::of(b"z"))) } else { "s".into() }, m);
        if flag() { let mut m = Metadata::default(); m.src = Some("there".into()); m.data.insert("k".into(), "".into()); d.submetadata.insert("z".into(), m); }
    }
    trip(&d);
    reach!("c17.meta");
});

harness!(ID_H, c17_id, "C17", quick [(1, 4)], thorough [(4, 6)], reach ["c17.id"],
    "a document identifier of `case` symbolic characters (printable ASCII, tab, newline), as made or as parsed (escaped by the serialiser)", |case| {
    let v = sstr(case as usize, TEXT);
    let d = match Document::new(&v, DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let e = trip(&d);
    check!(e.id() == v, "header: the document's identifier is kept");
    reach!("c17.id");
});

/// characters that need no escaping in text or attribute values
const PLAIN: Dom = VISIBLE.without(Dom::of(b"\"<&'"));
harness!(PARSED_H, c17_parsed, "C17", quick [(0, 48)], thorough [(48, 96)], reach ["c17.parsed"],
    "a parsed header with a symbolic value of 1 or 2 (thorough: 3 or 4) characters in one of eight places (case): declarations with annotators, provenance before or after them, metadata and submetadata, fields whose text is interrupted by a comment, CDATA or an escaped character; read from a string or a file (by turns): what is read is what it says, and survives", |case| {
    let from_file = (case ^ case / 6) & 1 == 1;
    let (at, case, long) = (case as usize / 6 % 8, case % 6, case >= 48);
    let v: Vec<String> = (0..8).map(|i| if i == at { sstr(1 + i % 2 + if long { 2 } else { 0 }, PLAIN) } else { format!("v>{}", i) }).collect();
    let decls = format!("<annotations><pos-annotation set=\"s{}\" alias=\"a{}\" format=\"f{}\"><annotator processor=\"p2\"/><annotator processor=\"p1\"></annotator></pos-annotation><entity-annotation/><lemma-annotation set=\"l{}\"><annotator processor=\"nobody\"/></lemma-annotation></annotations>", v[0], v[1], v[2], v[3]);
    let prov = format!("<provenance><processor xml:id=\"p1\" name=\"n{}\" type=\"auto\"><processor xml:id=\"p2\" name=\"m{}\" type=\"manual\" begindatetime=\"2020-01-02T03:04:05\"/><processor xml:id=\"p3\" name=\"x\" type=\"datasource\"></processor></processor><processor xml:id=\"p4\" name=\"y\" type=\"generator\" enddatetime=\"2021-01-02T03:04:05\"/></provenance>", v[4], v[5]);
    let inner = match case % 3 { 0 => format!("{}", v[6]), 1 => format!("{}<!-- no -->q", v[6]), _ => format!("{}<![CDATA[&<]]>&amp;", v[6]) };
    let want = match case % 3 { 0 => v[6].clone(), 1 => format!("{}q", v[6]), _ => format!("{}&<&", v[6]) };
    let metas = format!("<meta id=\"k{}\">{}</meta><meta id=\"empty\"/>", v[7], inner);
    let sub = format!("<submetadata xml:id=\"sub\" type=\"native\" src=\"file\"><meta id=\"k\">{}</meta></submetadata><submetadata xml:id=\"sub2\"/>", inner);
    let header = if case < 3 { format!("{}{}{}{}", decls, prov, metas, sub) } else { format!("{}{}{}{}", sub, metas, prov, decls) };
    let x = format!("<?xml version=\"1.0\"?><FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"the.doc\" version=\"2.5.1\"><metadata type=\"native\" src=\"there\">{}</metadata><text xml:id=\"t\"/></FoLiA>", header);
    let d = match parse_either(&x, from_file) { Ok(d) => d, Err(_) => fail!("a valid header is accepted") };
    check!(d.id() == "the.doc", "header: the document's identifier is read");
    check!(same_opt(&d.metadata.metadatatype, &Some("native".into())) && same_opt(&d.metadata.src, &Some("there".into())), "header: type and source of metadata are read");
    check!(d.metadata.data.len() == 2 && d.metadata.data.get(&format!("k{}", v[7])).map(|s| *s == want) == Some(true) && d.metadata.data.get("empty").map(|s| s.is_empty()) == Some(true), "header: metadata fields are read with all their text");
    check!(d.submetadata.len() == 2 && d.submetadata.get("sub2").map(|m| m.data.is_empty()) == Some(true), "header: submetadata is read");
    match d.submetadata.get("sub") { Some(m) => check!(same_opt(&m.metadatatype, &Some("native".into())) && same_opt(&m.src, &Some("file".into())) && m.data.len() == 1 && m.data.get("k").map(|s| *s == want) == Some(true), "header: submetadata is read"), None => fail!("header: submetadata is read") }
    let ds: Vec<&Declaration> = d.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect();
    check!(ds.len() == 3 && ds[0].annotationtype == AnnotationType::POS && ds[1].annotationtype == AnnotationType::ENTITY && ds[2].annotationtype == AnnotationType::LEMMA, "header: declarations are read");
    check!(same_opt(&ds[0].set, &Some(format!("s{}", v[0]))) && same_opt(&ds[0].alias, &Some(format!("a{}", v[1]))) && same_opt(&ds[0].format, &Some(format!("f{}", v[2]))) && ds[1].set.is_none() && same_opt(&ds[2].set, &Some(format!("l{}", v[3]))), "header: declarations are read");
    let ids: Vec<&str> = procs(&d, &ds[0].processors).iter().map(|p| p.id.as_str()).collect();
    check!(ids == ["p2", "p1"] && ds[1].processors.is_empty() && ds[2].processors.is_empty(), "header: the processors of a declaration are read, in order");
    let chain = procs(&d, &d.provenancestore.chain);
    check!(chain.len() == 2 && chain[0].id == "p1" && chain[1].id == "p4" && chain[0].name == format!("n{}", v[4]) && chain[0].processortype == ProcessorType::Auto && chain[1].processortype == ProcessorType::Generator && chain[1].enddatetime.is_some() && chain[0].enddatetime.is_none(), "header: the provenance chain is read");
    let subs = procs(&d, &chain[0].processors);
    check!(subs.len() == 2 && subs[0].id == "p2" && subs[1].id == "p3" && subs[0].name == format!("m{}", v[5]) && subs[0].processortype == ProcessorType::Manual && subs[1].processortype == ProcessorType::DataSource && subs[0].begindatetime.is_some() && chain[1].processors.is_empty(), "header: subprocessors are read");
    trip(&d);
    reach!("c17.parsed");
});

harness!(EMPTY_H, c17_empty_values, "C17", quick [(0, 3)], thorough [(3, 6)], reach ["c17.empty"],
    "one (thorough: two) declarations each of whose set, alias and format is absent, empty or one symbolic character, before or after one with none of them (case); metadata whose type, source, identifiers and values are absent, empty or given (case 2)", |case| {
    let mut d = doc();
    let dom = if case % 3 == 2 { LETTER } else { TEXT };
    let v = || match choose(3) { 0 => None, 1 => Some(String::new()), _ => Some(sstr(1, dom)) };
    let mut add = |d: &mut Document, t: AnnotationType, s: Option<String>, a: Option<String>, f: Option<String>| check!(d.add_declaration(Declaration::new(t, s, a, f)).is_ok(), "a declaration can be added");
    if case % 3 == 0 { add(&mut d, AnnotationType::LEMMA, None, None, None) }
    if case % 3 < 2 { for i in 0..1 + (case / 3) as usize { add(&mut d, [AnnotationType::POS, AnnotationType::ENTITY][i], v(), v(), v()) } }
    if case % 3 == 1 { add(&mut d, AnnotationType::LEMMA, None, None, None) }
    if case % 3 == 2 {
        d.metadata.metadatatype = v();
        d.metadata.src = v();
        if flag() { d.metadata.data.insert("k".into(), String::new()); }
        if flag() { d.metadata.data.insert("l".into(), sstr(1, dom)); }
        let mut m = Metadata::default();
        m.metadatatype = v();
        m.src = v();
        if case > 3 { m.data.insert("k".into(), if flag() { String::new() } else { sstr(1, dom) }); }
        d.submetadata.insert("s".into(), m);
    }
    trip(&d);
    reach!("c17.empty");
});
/// a forest of processors as XML, nested as the depths say
fn proc_xml(depths: &[usize], how: usize) -> String {
    let mut x = String::new();
    let mut open = vec![];
    for (i, dep) in depths.iter().enumerate() {
        while open.len() > *dep { open.pop(); if how & 8 == 8 { x.push_str("<meta id=\"k\">v</meta>") } x.push_str("</processor>") }
        let leaf = i + 1 == depths.len() || depths[i + 1] <= *dep;
        x.push_str(&format!("<processor xml:id=\"p{}\" name=\"n{}\"{}", i, i, if how & 1 == 1 { " type=\"manual\"" } else { "" }));
        if leaf && how & 2 == 0 { x.push_str("/>") } else { x.push('>'); if how & 4 == 4 { x.push_str("<meta id=\"k\">v</meta>") } open.push(i) }
    }
    while let Some(_) = open.pop() { if how & 8 == 8 { x.push_str("<meta id=\"k\">v</meta>") } x.push_str("</processor>") }
    x
}
harness!(NEST_H, c17_nested_processors, "C17", quick [(1, 7)], thorough [(7, 9)], reach ["c17.nest"],
    "every forest of `case` (up to 6, thorough: 8) processors, as parsed (as empty or full tags, with or without metadata of their own, before or after the subprocessors) and as made; nested to any depth: parents and order are those of the input, and survive", |case| {
    let mut depths = vec![0usize];
    for i in 1..case as usize { let d = choose(depths[i - 1] + 2); depths.push(d) }
    let how = [0, 3, 6, 10, 8][choose(5)];
    let x = format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><metadata><annotations/><provenance>{}</provenance></metadata><text/></FoLiA>", proc_xml(&depths, how));
    let d = match parse_plain(&x) { Ok(d) => d, Err(_) => fail!("a valid header is accepted") };
    fn rec(d: &Document, k: &[ProcKey], depth: usize, out: &mut Vec<(String, usize, usize)>) { for p in procs(d, k) { out.push((p.id.clone(), depth, p.metadata.data.len())); rec(d, &p.processors, depth + 1, out) } }
    let mut out = vec![];
    rec(&d, &d.provenancestore.chain, 0, &mut out);
    check!(out.len() == depths.len(), "header: every processor is read once");
    for (i, (o, dep)) in out.iter().zip(depths.iter()).enumerate() { let leaf = i + 1 == depths.len() || depths[i + 1] <= *dep; check!(o.0 == format!("p{}", i) && o.1 == *dep, "header: processors are read in order, each below the one it is in"); check!(o.2 == (how & 12 != 0 && !(leaf && how & 2 == 0)) as usize, "header: the metadata of a processor is its own") }
    trip(&d);
    reach!("c17.nest");
});
harness!(VAL_H, c17_values, "C17", quick [(0, 60)], thorough [(60, 100)], reach ["c17.values"],
    "a header with one value, at one of twenty places (case mod 20: a field of a processor, of its metadata, of a declaration, of metadata or submetadata, the document's identifier), of up to two (thorough: three) symbolic characters of one to four bytes (cases below 20), or of one of twelve lengths up to 257 (thorough: of seven up to 66000) characters, all of one kind ('a', '&' or a three byte character) but for one symbolic character at the beginning, in the middle or at the end, or (cases 40-59) one of two (of six, by the place) as they occur in documents with a symbolic character more, in place of one, or one fewer at any position, one of them written to a file and read from there", |case| {
    let at = case as usize % 20;
    let (deep, real) = (case >= 60, case >= 40 && case < 60);
    let case = if case >= 60 { case - 20 } else { case };
    let which = choose(if real { 2 } else { 1 });
    let v = if real { near_any(REAL[(at + which * 3) % REAL.len()], TEXT) } else if case % 40 < 20 { schars(if deep { 3 } else { 2 }) } else { let n = if deep { LONG_LENGTHS[choose(LONG_LENGTHS.len())] } else { LENGTHS[choose(LENGTHS.len())] }; slong(n, ["a", "&", "\u{3042}"][choose(3)]) };
    assume(v != "");
    let g = |i: usize| if i == at { v.clone() } else { "k".to_string() };
    let mut d = match Document::new(&g(19), DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let mut p = Processor::new(g(0)).with_id(g(1)).with_version(g(2)).with_folia_version(g(3)).with_document_version(g(4)).with_command(g(5)).with_host(g(6)).with_user(g(7)).with_src(g(8)).with_format(g(9)).with_resourcelink(g(10));
    p.metadata.data.insert("m".into(), g(11));
    let k = match d.add_processor(p) { Ok(k) => k, Err(_) => fail!("a processor can be added") };
    let mut x = Declaration::new(AnnotationType::POS, Some(g(12)), Some(g(13)), Some(g(14)));
    x.processors.push(k);
    check!(d.add_declaration(x).is_ok(), "a declaration can be added");
    d.metadata.src = Some(g(15));
    d.metadata.data.insert("m".into(), g(16));
    let mut s = Metadata { metadatatype: Some("native".into()), ..Metadata::default() };
    s.data.insert("f".into(), g(17));
    d.submetadata.insert(g(18), s);
    trip_by(&d, real && which == 1);
    reach!("c17.values");
});
harness!(NEAR_H, c17_near, "C17", quick [(0, 10)], thorough [(10, 15)], reach ["c17.near"],
    "two metadata fields, submetadata, processors (one below the other, or not) with a declaration by either or both, declared sets or aliases (case mod 5) whose names are alike: the first a string of 1, 4, 9, 20, 40, 130 or 260 (thorough: of any length up to 24) characters, the other with a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or the first one twice; or (cases 5-9) the first one of two (of six, by the case) as they occur in documents, the other with a character more, other or fewer at any position, one of them by way of a file", |case| {
    let mut d = doc();
    let real = case / 5 == 1;
    let which = choose(if real { 2 } else { 1 });
    let a = if real { REAL[(case as usize + which * 3) % REAL.len()].to_string() } else { sample(if case < 5 { [1, 4, 9, 20, 40, 130, 260][choose(7)] } else { 1 + choose(24) }) };
    let b = if real { near_any(&a, VISIBLE) } else { near(&a, VISIBLE) };
    assume(a != b && b != "");
    let l = if (real && which == 1) || (!real && flag()) { [&a, &b] } else { [&b, &a] };
    match case % 5 {
        0 => for (i, x) in l.iter().enumerate() { d.metadata.data.insert(x.to_string(), l[1 - i].clone()); },
        1 => for (i, x) in l.iter().enumerate() { let mut s = Metadata::default(); s.src = Some(l[1 - i].clone()); s.data.insert(l[i].clone(), "v".into()); d.submetadata.insert(x.to_string(), s); },
        2 => {
            let mut k: Vec<ProcKey> = vec![];
            let below = flag();
            for (i, x) in l.iter().enumerate() { let p = Processor::new("n".into()).with_id(x.to_string()); match if i == 1 && below { d.add_subprocessor(k[0], p) } else { d.add_processor(p) } { Ok(x) => k.push(x), Err(_) => fail!("a processor can be added") } }
            let mut x = Declaration::new(AnnotationType::POS, Some("s".into()), None, None);
            x.processors = match choose(4) { 0 => vec![k[0]], 1 => vec![k[1]], 2 => vec![k[1], k[0]], _ => k };
            check!(d.add_declaration(x).is_ok(), "a declaration can be added");
        }
        f => for x in l.iter() { let t = if f == 4 { [AnnotationType::POS, AnnotationType::LEMMA][(*x == l[0]) as usize] } else { AnnotationType::POS }; let v = Some(x.to_string()); check!(d.add_declaration(if f == 3 { Declaration::new(t, v, None, None) } else { Declaration::new(t, Some("s".into()), v, None) }).is_ok(), "a declaration can be added") },
    }
    trip_by(&d, real && which == 1);
    reach!("c17.near");
});
harness!(TIMES_H, c17_times, "C17", quick [(0, 18)], thorough [(18, 36)], reach ["c17.times"],
    "a processor with a begin time, an end time or both (case mod 3), one of year, month, day, hour, minute and second (case / 3) of the one taking all its values (of the year nine, from 1 to 9999), the rest one of two (thorough: four) times, before or after that of the other", |case| {
    let deep = case >= 18;
    let (which, f) = (case % 3, case / 3 % 6);
    let base = [(1999, 12, 30, 13, 59, 58), (2021, 1, 2, 3, 4, 5), (2038, 2, 28, 23, 0, 7), (4, 10, 10, 12, 30, 0)][choose(if deep { 4 } else { 2 })];
    let (mut y, mut mo, mut da, mut h, mut mi, mut s) = base;
    match f { 0 => y = [1, 99, 999, 1900, 1970, 2000, 2038, 2100, 9999][choose(9)], 1 => mo = 1 + choose(12) as u32, 2 => da = 1 + choose(31) as u32, 3 => h = choose(24) as u32, 4 => mi = choose(60) as u32, _ => s = choose(60) as u32 }
    let t = match chrono::NaiveDate::from_ymd_opt(y, mo, da).and_then(|x| x.and_hms_opt(h, mi, s)) { Some(t) => t, None => return };
    let mut d = doc();
    let mut p = Processor::new("n".into()).with_id("p".into());
    if which != 1 { p = p.with_begindatetime(t) }
    if which == 1 { p = p.with_enddatetime(t) }
    if which == 2 { p = p.with_enddatetime(date(3)) }
    check!(d.add_processor(p).is_ok(), "a processor can be added");
    let e = trip(&d);
    let x = procs(&e, &e.provenancestore.chain);
    check!((if which == 1 { x[0].enddatetime } else { x[0].begindatetime }) == Some(t), "header: begin and end time of a processor are kept");
    reach!("c17.times");
});
harness!(MOVES_H, c17_moved_processors, "C17", quick [(0, 4)], thorough [(4, 10)], reach ["c17.moves"],
    "every forest of four (thorough: five) processors (its second and third given by the case), made, and then one or two of them moved below any other: parents and order survive", |case| {
    let mut d = doc();
    let mut keys: Vec<ProcKey> = vec![];
    let n = if case < 4 { 4 } else { 5 };
    for i in 0..n {
        let p = Processor::new(format!("n{}", i)).with_id(["x", "a", "m", "b", "k"][i].to_string());
        let at = match i { 0 => 0, 1 => case as usize & 1, 2 => (case as usize / 2) % 3, _ => choose(keys.len() + 1) };
        let r = if at == 0 { d.add_processor(p) } else { d.add_subprocessor(keys[at - 1], p) };
        match r { Ok(k) => keys.push(k), Err(_) => fail!("a processor can be added") }
    }
    for _ in 0..2 {
        let (p, c) = (choose(n), choose(n + 1));
        if c == n { break }
        if d.attach_processor(keys[p], keys[c]).is_err() { return }
    }
    trip(&d);
    reach!("c17.moves");
});
harness!(MANY_H, c17_many, "C17", quick [(0, 28)], thorough [], reach ["c17.many"],
    "5, 24, 100 or 300 (case / 7) of one item of the header (case mod 7: metadata fields, submetadata, fields of submetadata, processors beside each other, processors in each other, fields of a processor's metadata, declarations), one of them (the first, the second, one in the middle, the last) with a value of one symbolic character or none", |case| {
    let n = [5usize, 24, 100, 300][case as usize / 7];
    let at = [0, 1, n / 2, n - 1][choose(4)];
    let mut d = doc();
    let v = |i: usize| if i == at { if flag() { sstr(1, VISIBLE) } else { String::new() } } else { format!("v{}", i) };
    let p = |i: usize| { let x = v(i); Processor::new(format!("n{}", i)).with_id(format!("{}p", i)).with_version(x) };
    match case % 7 {
        0 => for i in 0..n { let x = v(i); d.metadata.data.insert(format!("f{}", i), x); },
        1 => for i in 0..n { let mut s = Metadata::default(); s.data.insert("f".into(), v(i)); if i % 3 == 0 { s.metadatatype = Some("native".into()) } d.submetadata.insert(format!("m{}", i), s); },
        2 => { let mut s = Metadata::default(); for i in 0..n { let x = v(i); s.data.insert(format!("f{}", i), x); } d.submetadata.insert("m".into(), s); }
        3 => for i in 0..n { check!(d.add_processor(p(i)).is_ok(), "a processor can be added") },
        4 => { let mut k = None; for i in 0..n { let r = match k { None => d.add_processor(p(i)), Some(k) => d.add_subprocessor(k, p(i)) }; match r { Ok(x) => k = Some(x), Err(_) => fail!("a processor can be added") } } }
        5 => { let mut q = Processor::new("n".into()).with_id("p".into()); for i in 0..n { let x = v(i); q.metadata.data.insert(format!("f{}", i), x); } check!(d.add_processor(q).is_ok(), "a processor can be added") }
        _ => for i in 0..n { let x = v(i); let t = [AnnotationType::POS, AnnotationType::LEMMA, AnnotationType::ENTITY][i % 3]; check!(d.add_declaration(Declaration::new(t, Some(format!("s{}", i)), Some(x), None)).is_ok(), "a declaration can be added") },
    }
    trip(&d);
    reach!("c17.many");
});
pub const ALL: &[H] = &[TIMES_H, MANY_H, NEAR_H, VAL_H, EMPTY_H, NEST_H, PROC_H, TREE_H, DECL_H, ALL_H, META_H, ID_H, PARSED_H, MOVES_H];
