//! C11: provenance is recorded and attributed as given
use crate::model::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

/// the chain as (identifier, nesting depth) in document order
fn chain(d: &Document) -> Vec<(String, usize)> {
    fn rec(d: &Document, k: ProcKey, depth: usize, out: &mut Vec<(String, usize)>) {
        if out.len() > 20 { fail!("the provenance chain is a tree") }
        let p = match d.get_processor(k) { Some(p) => p, None => fail!("every processor in the chain exists") };
        check!(p.key == Some(k), "a processor knows its key");
        out.push((p.id.clone(), depth));
        for c in p.processors.iter() { check!(d.get_processor(*c).map(|q| q.parent == Some(k)) == Some(true), "a subprocessor names its parent"); rec(d, *c, depth + 1, out) }
    }
    let mut out = vec![];
    for k in d.provenancestore.chain.iter() { check!(d.get_processor(*k).map(|q| q.parent.is_none()) == Some(true), "a processor at the top has no parent"); rec(d, *k, 0, &mut out) }
    out
}
#[derive(Default)]
struct Tree { id: Vec<String>, parent: Vec<Option<usize>>, kids: Vec<Vec<usize>>, top: Vec<usize> }
impl Tree {
    fn find(&self, i: &str) -> Option<usize> { for (n, x) in self.id.iter().enumerate() { if x == i { return Some(n) } } None }
    fn add(&mut self, p: Option<usize>, i: &str) -> usize {
        if let Some(n) = self.find(i) { return n }
        let n = self.id.len();
        self.id.push(i.to_string()); self.parent.push(p); self.kids.push(vec![]);
        match p { Some(p) => self.kids[p].push(n), None => self.top.push(n) }
        n
    }
    fn below(&self, k: usize, a: usize) -> bool { let mut q = Some(k); while let Some(x) = q { if x == a { return true } q = self.parent[x] } false }
    fn attach(&mut self, p: usize, c: usize) { match self.parent[c] { Some(o) => self.kids[o].retain(|x| *x != c), None => self.top.retain(|x| *x != c) } self.parent[c] = Some(p); self.kids[p].push(c) }
    fn flat(&self) -> Vec<(String, usize)> { fn rec(t: &Tree, k: usize, d: usize, o: &mut Vec<(String, usize)>) { o.push((t.id[k].clone(), d)); for c in t.kids[k].iter() { rec(t, *c, d + 1, o) } } let mut o = vec![]; for k in self.top.iter() { rec(self, *k, 0, &mut o) } o }
}
fn agree(d: &Document, t: &Tree) {
    let (x, y) = (chain(d), t.flat());
    check!(x.len() == y.len(), "every processor occurs in the chain exactly once");
    for (a, b) in x.iter().zip(y.iter()) { check!(a.0 == b.0 && a.1 == b.1, "processors keep their order and their nesting") }
}
fn proc(i: &str) -> Processor { Processor::new("n".to_string()).with_id(i.to_string()) }
harness!(CHAIN_H, c11_chain, "C11", quick [(2, 5)], thorough [(5, 6)], reach ["c11.chain"],
    "2 to 4 (thorough: 5) steps, each adding a processor with a symbolic identifier (possibly one in use) on top or below any earlier one, or moving any processor below any other", |case| {
    let mut d = bare();
    let mut t = Tree::default();
    for step in 0..case {
        let n = t.id.len();
        let what = if step == 0 { 0 } else { choose(3) };
        if what == 2 {
            let (p, c) = (choose(n), choose(n));
            let (pk, ck) = (p as ProcKey, c as ProcKey);
            let r = d.attach_processor(pk, ck);
            if t.below(p, c) { check!(r.is_err(), "a processor never becomes a part of itself") } else { check!(r.is_ok(), "any other processor can be moved"); t.attach(p, c) }
        } else {
            let i = sstr(1, LETTER);
            let r = if what == 0 { let k = d.add_processor(proc(&i)); let m = t.add(None, &i); (k, m) } else { let p = choose(n); let k = d.add_subprocessor(p as ProcKey, proc(&i)); let m = t.add(Some(p), &i); (k, m) };
            match r { (Ok(k), m) => check!(k as usize == m, "a processor that is already there keeps its key, a new one gets its own"), _ => fail!("a processor can be added") }
        }
        agree(&d, &t);
    }
    let n = t.id.len() as ProcKey;
    check!(d.attach_processor(n, 0).is_err() && d.attach_processor(0, n).is_err() && d.add_subprocessor(n, proc("zz")).is_err(), "a processor that does not exist is refused");
    agree(&d, &t);
    reach!("c11.chain");
});

harness!(NESTED_H, c11_nested, "C11", quick [(0, 8)], thorough [], reach ["c11.nested"],
    "a processor built with new subprocessors (two, or one with one of its own) and (case 4 and up) an existing one, its parent, or one below another, with symbolic identifiers that may coincide, added on top or below another", |case| {
    let mut d = bare();
    let mut t = Tree::default();
    let a = sstr(1, LETTER);
    let k0 = match d.add_processor(proc(&a)) { Ok(k) => k, Err(_) => fail!("a processor can be added") };
    t.add(None, &a);
    let (x, y, z) = (sstr(1, LETTER), sstr(1, LETTER), sstr(1, LETTER));
    // the outermost identifier is new, otherwise nothing happens
    let p = if case & 1 == 0 { proc(&x).with_new_subprocessor(proc(&y)).with_new_subprocessor(proc(&z)) } else { proc(&x).with_new_subprocessor(proc(&y).with_new_subprocessor(proc(&z))) };
    let mut old = None;
    let p = if case & 4 == 4 {
        let b = match d.add_subprocessor(k0, proc("b1")) { Ok(k) => k, Err(_) => fail!("a processor can be added") };
        t.add(Some(0), "b1");
        let (c, n) = (flag(), flag());
        old = Some(if c { 1 } else { 0 });
        let k = if n { b + 7 } else if c { b } else { k0 };
        if n { old = None }
        let before = chain(&d).len();
        let p = p.with_existing_subprocessor(k);
        // what does not exist, or would be a part of itself, is refused
        if n {
            if t.find(&x).is_none() {
                check!(if case & 2 == 0 { d.add_processor(p) } else { d.add_subprocessor(k0, p) }.is_err(), "a subprocessor that does not exist is refused");
                check!(chain(&d).len() == before, "a refused processor is not in the chain");
                agree(&d, &t);
            }
            reach!("c11.nested");
            return;
        }
        if !c && case & 2 == 2 { assume(t.find(&x).is_some()) }
        p
    } else { p };
    let had = t.find(&x).is_some();
    let r = if case & 2 == 0 { d.add_processor(p) } else { d.add_subprocessor(k0, p) };
    let n = t.add(if case & 2 == 0 { None } else { Some(0) }, &x);
    if !had { if let Some(o) = old { t.attach(n, o) } let m = if t.find(&y).is_some() { None } else { Some(t.add(Some(n), &y)) }; if case & 1 == 0 { t.add(Some(n), &z); } else if let Some(m) = m { t.add(Some(m), &z); } }
    match r { Ok(k) => check!(k as usize == n, "a processor that is already there keeps its key, a new one gets its own"), Err(_) => fail!("a processor can be added") }
    agree(&d, &t);
    reach!("c11.nested");
});

harness!(ATTR_H, c11_attribution, "C11", quick [(0, 16)], thorough [], reach ["c11.attr"],
    "two processors, none or either active; a declaration made before or after activation or never; then two or three annotations with or without set and with none, a known or an unknown processor", |case| {
    let c = case as usize;
    let mut d = bare();
    let mut m = Model::default();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w = must(d.annotate(s, elem(ElementType::Word)));
    for p in ["p", "q"] { match d.add_processor(proc(p)) { Ok(_) => m.procs.push(p.to_string()), Err(_) => fail!("a processor can be added") } }
    let early = c & 1 == 1;
    let dset = maybe(1, LETTER);
    if early { m.declare(AnnotationType::POS, sref(&dset)); check!(d.declare(AnnotationType::POS, &dset, &None, &None).is_ok(), "a declaration can be made") }
    let act = (c >> 1) & 3;
    if act > 0 && act < 3 { d.activate_processor(act as ProcKey - 1); m.active = Some(["p", "q"][act - 1].to_string()) }
    if act == 3 { m.declare(AnnotationType::LEMMA, None); check!(d.declare(AnnotationType::LEMMA, &None, &None, &None).is_ok(), "a declaration can be made"); d.activate_processor(0); m.active = Some("p".into()); }
    for i in 0..(if c >= 8 { 3 } else { 2 }) {
        let set = maybe(1, LETTER);
        let p = match choose(4) { 0 => None, 1 => Some("p".to_string()), 2 => Some("q".to_string()), _ => Some("r".to_string()) };
        let t = if act == 3 && i == 1 { ElementType::LemmaAnnotation } else { ElementType::PosAnnotation };
        let at = if act == 3 && i == 1 { AnnotationType::LEMMA } else { AnnotationType::POS };
        let k = must(d.annotate(w, with(elem(t), &set, &Some("c".to_string()), &p)));
        let x = m.element(at, sref(&set), Some("c"), sref(&p));
        m.push(x, k);
        m.agree(&d);
        m.agree_declarations(&d);
        let x = el(&d, k);
        check!(opt_eq(x.annotator(), if x.processor().is_some() { Some("n") } else { None }), "the annotator of an element is the name of its processor");
    }
    reach!("c11.attr");
});

harness!(ACT_H, c11_active, "C11", quick [(0, 9)], thorough [(9, 18)], reach ["c11.active"],
    "four (thorough: five) steps, the first by the case, each of: making one of three processors active, declaring a set or none for part of speech annotations, putting a processor below another one, annotating with a set or none and naming a processor or not", |case| {
    let mut d = bare();
    let mut m = Model::default();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w = must(d.annotate(s, elem(ElementType::Word)));
    for p in ["p", "q", "r"].iter() { match d.add_processor(proc(p)) { Ok(_) => m.procs.push(p.to_string()), Err(_) => fail!("a processor can be added") } }
    for i in 0..4 + case / 9 {
        match if i == 0 { case as usize % 9 } else { choose(9) } {
            p if p < 3 => { d.activate_processor(p as ProcKey); m.active = Some(["p", "q", "r"][p].to_string()) }
            p if p < 5 => { let set = if p == 3 { None } else { Some("x".to_string()) }; m.declare(AnnotationType::POS, sref(&set)); check!(d.declare(AnnotationType::POS, &set, &None, &None).is_ok(), "a declaration can be made") }
            5 => { let _ = d.attach_processor(0, 1); }
            p => {
                let set = if p == 8 { Some("x".to_string()) } else { None };
                let by = if p == 7 { Some("q".to_string()) } else { None };
                let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &set, &Some("c".to_string()), &by)));
                let x = m.element(AnnotationType::POS, sref(&set), Some("c"), sref(&by));
                m.push(x, k);
            }
        }
        m.agree(&d);
        m.agree_declarations(&d);
    }
    reach!("c11.active");
});
harness!(IDS_H, c11_identifiers, "C11", quick [(0, 3)], thorough [], reach ["c11.ids"],
    "two or three processors with symbolic identifiers, the first active or not, and annotations naming a symbolic identifier", |case| {
    let mut d = bare();
    let mut m = Model::default();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w = must(d.annotate(s, elem(ElementType::Word)));
    for _ in 0..2 { let p = sstr(2, LETTER); match d.add_processor(proc(&p)) { Ok(_) => if !m.procs.iter().any(|x| *x == p) { m.procs.push(p) }, Err(_) => fail!("a processor can be added") } }
    if case == 1 { d.activate_processor(0); m.active = Some(m.procs[0].clone()) }
    for _ in 0..2 {
        let p = sstr(2, LETTER);
        let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &Some("s".into()), &Some("c".into()), &Some(p.clone()))));
        let x = m.element(AnnotationType::POS, Some("s"), Some("c"), Some(&p));
        m.push(x, k);
        m.agree(&d);
        m.agree_declarations(&d);
    }
    if case == 2 { let n = match d.add_processor(proc("zz")) { Ok(k) => k, Err(_) => fail!("a processor can be added") }; check!(d.get_processor(n).map(|p| p.id == "zz") == Some(true), "a processor's key denotes it"); m.agree(&d) }
    reach!("c11.ids");
});

harness!(FIELD_H, c11_fields, "C11", quick [(0, 1)], thorough [], reach ["c11.fields"],
    "a processor whose every text field is a distinct symbolic string and whose type is any; read back from the document; the annotator type of an element follows it", |case| {
    let _ = case;
    let mut d = bare();
    let f: Vec<String> = (0..10).map(|_| sstr(2, TEXT)).collect();
    let ty = [ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource][choose(4)];
    let p = Processor::new(f[0].clone()).with_id("i".into()).with_type(ty).with_version(f[1].clone()).with_folia_version(f[2].clone()).with_document_version(f[3].clone()).with_command(f[4].clone()).with_host(f[5].clone()).with_user(f[6].clone()).with_src(f[7].clone()).with_format(f[8].clone()).with_resourcelink(f[9].clone());
    let k = match if flag() { d.add_processor(p) } else { let q = d.add_processor(proc("a")); match q { Ok(q) => d.add_subprocessor(q, p), Err(_) => fail!("a processor can be added") } } { Ok(k) => k, Err(_) => fail!("a processor can be added") };
    check!(d.add_processor(proc("b")).is_ok(), "a processor can be added");
    let p = match d.get_processor(k) { Some(p) => p, None => fail!("a processor's key denotes it") };
    check!(p.id == "i" && p.processortype == ty, "processors keep their data");
    check!(p.name == f[0] && p.version == f[1] && p.folia_version == f[2] && p.document_version == f[3] && p.command == f[4], "processors keep their data");
    check!(p.host == f[5] && p.user == f[6] && p.src == f[7] && p.format == f[8] && p.resourcelink == f[9], "processors keep their data");
    let e = must(d.add_element(with(elem(ElementType::PosAnnotation), &Some("s".into()), &Some("c".into()), &Some("i".into()))));
    let x = el(&d, e);
    check!(opt_eq(x.annotator(), Some(&f[0])) && x.annotatortype() == Some(ty), "annotator and annotator type of an element are its processor's");
    reach!("c11.fields");
});
harness!(OLD_H, c11_annotators, "C11", quick [(0, 4)], thorough [], reach ["c11.old"],
    "two annotations each with or without a processor (of two of different types, or one the document does not have), set and old-style annotator and annotator type (symbolic name, any type), the attributes in either order; with or without an active processor; built or parsed (case): the annotator and its type are the processor's, and only without one those given", |case| {
    let types = [ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource];
    let names = ["auto", "manual", "generator", "datasource"];
    let mut m = Model::default();
    let pt = [[0, 3][choose(2)], 1];
    let parsed = case & 1 == 1;
    let active = case & 2 == 2 && !parsed;
    let mut d = bare();
    let (mut b, mut given) = (String::from("<s><w>"), vec![]);
    for (i, p) in ["p", "q"].iter().enumerate() {
        if !parsed { match d.add_processor(Processor::new(format!("name{}", p)).with_id(p.to_string()).with_type(types[pt[i]])) { Ok(k) => if active && i == 0 { d.activate_processor(k) }, Err(_) => fail!("a processor can be added") } }
        m.procs.push(p.to_string());
    }
    if active { m.active = Some("p".into()) }
    let w = if parsed { 0 } else { let s = must(d.annotate(0, elem(ElementType::Sentence))); must(d.annotate(s, elem(ElementType::Word))) };
    for i in 0..2 {
        let p = match choose(if i == 0 { 4 } else { 3 }) { 0 => None, 1 => Some("p".to_string()), 2 => Some("q".to_string()), _ => Some("r".to_string()) };
        let set = if flag() { Some("x".to_string()) } else { None };
        let a = if i == 1 || flag() { Some(sstr(1, VISIBLE.without(Dom::of(b"\"<&")))) } else { None };
        let t = if i == 0 { let t = choose(5); if t > 0 { Some(t - 1) } else { None } } else { Some(2) };
        let first = if i == 0 { flag() } else { false };
        let mut e = elem(ElementType::PosAnnotation);
        b.push_str("<pos class=\"c\"");
        for k in 0..2 {
            if (k == 0) == first {
                if let Some(a) = &a { e = e.with_attrib(Attribute::Annotator(a.clone())); b.push_str(&format!(" annotator=\"{}\"", a)) }
                if let Some(t) = t { e = e.with_attrib(Attribute::AnnotatorType(types[t])); b.push_str(&format!(" annotatortype=\"{}\"", names[t])) }
            } else {
                e = with(e, &set, &Some("c".to_string()), &p);
                if let Some(s) = &set { b.push_str(&format!(" set=\"{}\"", s)) }
                if let Some(p) = &p { b.push_str(&format!(" processor=\"{}\"", p)) }
            }
        }
        b.push_str("/>");
        let x = m.element(AnnotationType::POS, sref(&set), Some("c"), sref(&p));
        let k = if parsed { 0 } else { must(d.annotate(w, e)) };
        m.push(x, k);
        given.push((a, t));
    }
    if parsed {
        b.push_str("</w></s>");
        let prov = format!("<provenance><processor xml:id=\"p\" name=\"namep\" type=\"{}\"/><processor xml:id=\"q\" name=\"nameq\" type=\"manual\"/></provenance>", names[pt[0]]);
        d = match parse_plain(&folia_xml("", &b).replacen("</annotations>", &format!("</annotations>{}", prov), 1)) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
        let w = child_keys(&d, child_keys(&d, 0)[0])[0];
        for (e, k) in m.els.iter_mut().zip(child_keys(&d, w)) { e.key = k }
    }
    m.agree(&d);
    for (e, (a, t)) in m.els.iter().zip(given.iter()) {
        let x = el(&d, e.key);
        match &e.proc {
            Some(p) => {
                check!(opt_eq(x.annotator(), Some(if p == "p" { "namep" } else { "nameq" })), "the annotator of an element is the name of its processor");
                check!(x.annotatortype() == Some(types[if p == "p" { pt[0] } else { 1 }]), "the annotator type of an element is the type of its processor");
            }
            None => { check!(opt_eq(x.annotator(), sref(a)), "without a processor the annotator is the one given"); check!(x.annotatortype() == t.map(|t| types[t]), "without a processor the annotator type is the one given") }
        }
    }
    reach!("c11.old");
});
harness!(THREE_H, c11_three, "C11", quick [(0, 3)], thorough [(3, 8)], reach ["c11.three"],
    "three processors, one of which is made active at any of three (thorough: four) steps, or none; every step adds an annotation of one or of two types (case mod 2), in one set or without (case bit 1: of two), that names any of the three, none, or one there is not", |case| {
    let mut d = bare();
    let mut m = Model::default();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w = must(d.annotate(s, elem(ElementType::Word)));
    let n = 3 + case as usize / 4;
    for p in ["p", "q", "r"].iter() { match d.add_processor(proc(p)) { Ok(_) => m.procs.push(p.to_string()), Err(_) => fail!("a processor can be added") } }
    let (when, which) = (choose(n + 1), choose(3));
    assume(when < n || which == 0);
    for i in 0..n {
        if i == when { d.activate_processor(which as ProcKey); m.active = Some(["p", "q", "r"][which].to_string()) }
        let p = match choose(5) { 0 => None, k => Some(["p", "q", "r", "z"][k - 1].to_string()) };
        let set = if case & 2 == 0 { None } else { match choose(2) { 0 => None, _ => Some(["x", "y"][i & 1].to_string()) } };
        let t = if case & 1 == 1 && i > 0 && flag() { (ElementType::LemmaAnnotation, AnnotationType::LEMMA) } else { (ElementType::PosAnnotation, AnnotationType::POS) };
        let k = must(d.annotate(w, with(elem(t.0), &set, &Some("c".to_string()), &p)));
        let x = m.element(t.1, sref(&set), Some("c"), sref(&p));
        m.push(x, k);
        m.agree(&d);
        m.agree_declarations(&d);
    }
    reach!("c11.three");
});
harness!(MANY_H, c11_many, "C11", quick [(0, 8)], thorough [], reach ["c11.many"],
    "5, 20, 70 or 300 processors on top of the chain or (odd cases) each below the one before or the one before that; then 5 annotations by any of the first, the second, one in the middle, the last but one or the last, or by none, with one of these active or none, all in one set; a processor is then moved below another; parsed again, everything is as before", |case| {
    let mut d = bare();
    let mut m = Model::default();
    let mut t = Tree::default();
    let n = [5usize, 20, 70, 300][case as usize / 2];
    for i in 0..n {
        let id = format!("{}p", i);
        let parent = if case & 1 == 0 || i == 0 { None } else { Some(if i % 3 == 2 { i - 2 } else { i - 1 }) };
        let k = match parent { None => d.add_processor(proc(&id)), Some(p) => d.add_subprocessor(p as ProcKey, proc(&id)) };
        check!(k.is_ok(), "a processor can be added");
        t.add(parent, &id);
        m.procs.push(id);
    }
    let places = [0, 1, n / 2, n - 2, n - 1];
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w = must(d.annotate(s, elem(ElementType::Word)));
    if flag() { let a = places[choose(5)]; d.activate_processor(a as ProcKey); m.active = Some(m.procs[a].clone()) }
    let (x, y) = (choose(6), choose(5));
    for i in 0..5 {
        let p = match (x + i * y) % 6 { 5 => None, k => Some(m.procs[places[k]].clone()) };
        let (set, class) = (Some("s".to_string()), Some("c".to_string()));
        let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &set, &class, &p)));
        let e = m.element(AnnotationType::POS, sref(&set), sref(&class), sref(&p));
        m.push(e, k);
    }
    m.agree(&d);
    m.agree_declarations(&d);
    let (p, c) = (places[y], places[x % 5]);
    if !t.below(p, c) { check!(d.attach_processor(p as ProcKey, c as ProcKey).is_ok(), "a processor can be moved below another"); t.attach(p, c) }
    let flat = |d: &Document| -> Vec<(String, usize)> {
        fn rec(d: &Document, k: ProcKey, depth: usize, out: &mut Vec<(String, usize)>) { let p = match d.get_processor(k) { Some(p) => p, None => fail!("every processor in the chain exists") }; out.push((p.id.clone(), depth)); for c in p.processors.iter() { check!(d.get_processor(*c).map(|q| q.parent == Some(k)) == Some(true), "a subprocessor names its parent"); rec(d, *c, depth + 1, out) } }
        let mut out = vec![];
        for k in d.provenancestore.chain.iter() { rec(d, *k, 0, &mut out) }
        out
    };
    let want = t.flat();
    let again = match parse_plain(unsafe { std::str::from_utf8_unchecked(&xml_of(&d)) }) { Ok(d) => d, Err(_) => fail!("a serialised document parses again") };
    for d in [&d, &again].iter() {
        let got = flat(d);
        check!(got.len() == want.len(), "every processor occurs in the chain exactly once");
        for (a, b) in got.iter().zip(want.iter()) { check!(a.0 == b.0 && a.1 == b.1, "processors keep their order and their nesting") }
    }
    m.agree(&d);
    reach!("c11.many");
});
pub const ALL: &[H] = &[ACT_H, MANY_H, THREE_H, OLD_H, CHAIN_H, NESTED_H, ATTR_H, IDS_H, FIELD_H];
