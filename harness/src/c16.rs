//! C16: incomplete or foreign documents are refused, accepted ones are complete
use crate::c15::{BODY, HEAD};
use crate::sup::*;
use crate::{check, fail, golden, harness, reach, H};

const NS: &str = "http://ilk.uvt.nl/folia";
/// with a prefix, comments and white space around the root
const PREFIXED: &str = "<!--a--><f:FoLiA xmlns:f=\"http://ilk.uvt.nl/folia\" xmlns=\"other\" xml:id='d'><f:metadata> <f:annotations><f:pos-annotation set='s'/></f:annotations></f:metadata><f:speech><f:utt><f:w class='>'/><w><f:pos class=\"q\"/></w></f:utt></f:speech></f:FoLiA>";
const TEMPLATES: [&str; 3] = [HEAD, BODY, PREFIXED];
const N0: u64 = (HEAD.len() as u64 + 15) / 16;
const N1: u64 = (BODY.len() as u64 + 15) / 16;
const N2: u64 = (PREFIXED.len() as u64 + 15) / 16;
fn refused(r: Result<Document, FoliaError>) { match r { Ok(_) => fail!("a document that is not complete, not well-formed or not FoLiA is refused"), Err(_) => check!(true, "a document that is not complete, not well-formed or not FoLiA is refused") } }
fn accepted(x: &str) -> Document { match parse_plain(x) { Ok(d) => d, Err(_) => fail!("a complete document is accepted") } }

harness!(PREFIX_H, c16_prefix, "C16", quick [(0, N0 + N1 + N2)], thorough [], reach ["c16.prefix"],
    "every proper prefix of three documents (16 lengths per case; one whose header, one whose body uses every construct, one with prefixed names and foreign elements), alone or followed by any other byte than its next, from a file or (prefixes alone) from a string", |case| {
    let (k, chunk) = if case < N0 { (0, case) } else if case < N0 + N1 { (1, case - N0) } else { (2, case - N0 - N1) };
    let b = TEMPLATES[k].as_bytes();
    let at = chunk as usize * 16 + choose(16);
    // without the last character only, see c16_last
    assume(at + 1 < b.len());
    match choose(3) {
        0 => refused(Document::from_str(unsafe { std::str::from_utf8_unchecked(&b[..at]) }, DocumentProperties::default())),
        1 => refused(Document::from_file(&file(&b[..at]), DocumentProperties::default())),
        _ => {
            let mut v = b[..at].to_vec();
            let c = sbyte(ANY);
            assume(c != b[at]);
            v.push(c);
            refused(Document::from_file(&file(&v), DocumentProperties::default()));
        }
    }
    reach!("c16.prefix");
});

harness!(LAST_H, c16_last, "C16", quick [(0, 3)], thorough [], reach ["c16.last"],
    "three documents without their last character, the > of the end tag of the root", |case| {
    let x = TEMPLATES[case as usize];
    match parse_plain(&x[..x.len() - 1]) { Ok(_) => fail!("a document whose root's end tag is not closed is refused"), Err(_) => check!(true, "a document whose root's end tag is not closed is refused") }
    reach!("c16.last");
});

/// the pieces between which a name stands in end tags
const TAGS: &[&str] = &["FoLiA", "metadata", "annotations", "pos-annotation", "provenance", "processor", "meta", "submetadata", "text", "s", "w", "t", "entities", "entity"];
fn nested(end: impl Fn(usize) -> String) -> String {
    let e = |n: &str| match TAGS.iter().position(|t| *t == n) { Some(i) => end(i), None => fail!("tag") };
    format!("<FoLiA xmlns=\"{}\" xml:id=\"d\"><metadata><annotations><pos-annotation set=\"s\">{}{}<provenance><processor xml:id=\"p\" name=\"n\">{}{}<meta id=\"k\">v{}<submetadata xml:id=\"s\">{}{}<text><s><w xml:id=\"w\"><t>a{}{}<entities><entity class=\"e\">{}{}{}{}{}", NS,
        e("pos-annotation"), e("annotations"), e("processor"), e("provenance"), e("meta"), e("submetadata"), e("metadata"), e("t"), e("w"), e("entity"), e("entities"), e("s"), e("text"), e("FoLiA"))
}
harness!(END_H, c16_end_tags, "C16", quick [(0, 14)], thorough [], reach ["c16.end"],
    "a document in which one end tag (case, of 14 kinds) has any name of up to two letters fewer or more than its start tag, all letters symbolic (a hyphen where the start tag has one), or is left out, or given twice; read from a string or a file: accepted only if it is the one of its start tag, once", |case| {
    let i = case as usize;
    let (x, same) = match choose(3) {
        0 => {
            let n = TAGS[i].len() + choose(5);
            assume(n >= 2);
            let name = sstr(n - 2, if TAGS[i].contains('-') { LETTER.or(Dom::of(b"-")) } else { LETTER });
            let same = name == TAGS[i];
            (nested(|j| if i == j { format!("</{}>", name) } else { format!("</{}>", TAGS[j]) }), same)
        }
        k => (nested(|j| { let e = format!("</{}>", TAGS[j]); if i == j { if k == 1 { String::new() } else { format!("{}{}", e, e) } } else { e } }), false),
    };
    match parse_either(&x, flag()) { Ok(d) => { check!(same, "a document whose tags do not nest is refused"); check!(nelements(&d) == 6, "an accepted document has every element") } Err(_) => check!(!same, "a complete document is accepted") }
    reach!("c16.end");
});

harness!(SWAP_H, c16_swap, "C16", quick [(0, 5)], thorough [(5, 6)], reach ["c16.swap"],
    "every sequence of up to 5 (thorough: 6) start tags and end tags of division, sentence and word in a body, read from a string or a file: accepted exactly if it nests, with all the elements", |case| {
    let names = ["div", "s", "w"];
    let mut body = String::new();
    let mut open: Vec<usize> = vec![];
    let (mut ok, mut n) = (true, 0);
    for _ in 0..case + 1 {
        let c = choose(6);
        if c < 3 { body.push_str(&format!("<{}>", names[c])); open.push(c); n += 1 } else { body.push_str(&format!("</{}>", names[c - 3])); if open.pop() != Some(c - 3) { ok = false } }
    }
    if !open.is_empty() { ok = false }
    // accepted or not by the specification
    let mut nest: Vec<usize> = vec![];
    for p in body.split('<').skip(1) { if let Some(i) = names.iter().position(|t| p.starts_with(&format!("{}>", t))) { if let Some(q) = nest.last() { if i <= *q && i != 0 { assume(false) } if i == 0 && *q != 0 { assume(false) } } nest.push(i) } else { nest.pop(); } }
    match parse_either(&folia_xml("", &body), flag()) { Ok(d) => { check!(ok, "a document whose tags do not nest is refused"); check!(nelements(&d) == n + 1, "an accepted document has every element") } Err(_) => check!(!ok, "a complete document is accepted") }
    reach!("c16.swap");
});

harness!(ROOT_H, c16_root, "C16", quick [(0, 7)], thorough [(7, 9)], reach ["c16.root"],
    "a root element with a name of `case` (0-6, thorough: 8) symbolic letters, with or without a prefix: accepted exactly if it is FoLiA", |case| {
    let name = sstr(case as usize, LETTER);
    let f = if flag() { "f:" } else { "" };
    let same = name == "FoLiA";
    match parse_plain(&format!("<{f}{name} xmlns{}=\"{NS}\" xml:id=\"d\"><{f}metadata/><{f}text><{f}w/></{f}text></{f}{name}>", if f.is_empty() { "" } else { ":f" })) {
        Ok(d) => { check!(same, "a document whose root is not FoLiA is refused"); check!(nelements(&d) == 2 && d.id() == "d", "an accepted document has every element") }
        Err(_) => check!(!same, "a FoLiA document is accepted"),
    }
    reach!("c16.root");
});

harness!(NS_H, c16_namespace, "C16", quick [(0, 48)], thorough [], reach ["c16.ns"],
    "the namespace of the root (even cases), or of an element in the body (odd cases), with one character at any of its positions replaced by any, or one or two inserted (also before or after it), or one left out, or everything from there on, as the default namespace or by a prefix, of all elements or of the root alone: the root is accepted, and the element read as a FoLiA element, exactly if it is that of FoLiA", |case| {
    let at = case as usize / 2;
    assume(at <= NS.len());
    let plain = VISIBLE.without(Dom::of(b"\"<&'"));
    let ns = match choose(5) { 0 if at < NS.len() => format!("{}{}{}", &NS[..at], sstr(1, plain), &NS[at + 1..]), 1 if at < NS.len() => format!("{}{}", &NS[..at], &NS[at + 1..]), 2 => format!("{}{}{}", &NS[..at], sstr(1, plain), &NS[at..]), 3 => format!("{}{}{}", &NS[..at], sstr(2, plain), &NS[at..]), 4 if at > 0 => NS[..at].to_string(), _ => { assume(false); String::new() } };
    let same = ns == NS;
    if case & 1 == 0 {
        if flag() {
            // the root alone
            match parse_plain(&format!("<o:FoLiA xmlns=\"{NS}\" xmlns:o=\"{}\" xml:id=\"d\"><metadata/><text><w/></text></o:FoLiA>", ns)) {
                Ok(d) => { check!(same, "a document in another namespace is refused"); check!(nelements(&d) == 2, "an accepted document has every element") }
                Err(_) => check!(!same, "a FoLiA document is accepted"),
            }
            reach!("c16.ns");
            return
        }
        let f = if flag() { "f:" } else { "" };
        match parse_plain(&format!("<{f}FoLiA xmlns{}=\"{}\" xml:id=\"d\"><{f}metadata/><{f}text><{f}w/></{f}text></{f}FoLiA>", if f.is_empty() { "" } else { ":f" }, ns)) {
            Ok(d) => { check!(same, "a document in another namespace is refused"); check!(nelements(&d) == 2, "an accepted document has every element") }
            Err(_) => check!(!same, "a FoLiA document is accepted"),
        }
    // the library takes no default namespace on an element that is FoLiA's anyway
    } else if same || flag() {
        let d = accepted(&format!("<FoLiA xmlns=\"{}\" xml:id=\"d\"><metadata/><text><w/><p:w xmlns:p=\"{}\"/><w/></text></FoLiA>", NS, ns));
        check!(nelements(&d) == 3 + same as usize, "an accepted document has every FoLiA element, and no other");
    } else {
        let d = accepted(&format!("<FoLiA xmlns=\"{}\" xml:id=\"d\"><metadata/><text><w/><w xmlns=\"{}\"><x/></w><w/></text></FoLiA>", NS, ns));
        check!(nelements(&d) == 3, "an accepted document has every FoLiA element, and no other");
    }
    reach!("c16.ns");
});

harness!(FEATS_H, c16_feature_attributes, "C16", quick [(0, 8)], thorough [], reach ["c16.feats"],
    "an element of any type (an eighth per case) with any of the features its specification lists given as attributes (symbolic values), in either order, among other attributes, and with a feature element or a description inside: every one is there", |case| {
    let all = all_types();
    let n = (all.len() + 7) / 8;
    let i = case as usize * n + choose(n);
    assume(i < all.len());
    let t = all[i];
    assume(t != ElementType::WordReference);
    let mut subsets: Vec<&str> = golden::props(t).types.iter().filter(|c| golden::in_group(ElementGroup::Feature, **c)).filter_map(|c| golden::props(*c).subset).filter(|s| !NOT_FEATURES.contains(s)).collect();
    if flag() { subsets.reverse() }
    let mut want: Vec<(&str, String)> = vec![];
    let mut a = String::new();
    for s in subsets { if flag() { let v = sstr(1, VISIBLE.without(Dom::of(b"\"<&"))); a.push_str(&format!(" {}=\"{}\"", s, v)); if want.is_empty() { a.push_str(" n=\"1\"") } want.push((s, v)) } }
    let tag = t.as_str();
    let inside = flag();
    // without a set or a class there is no declaration that holds the classes of features: refused, see C13
    let annotated = t.annotationtype().is_some();
    let x = folia_xml("", &format!("<{}{}{}>{}</{}>", tag, if annotated { " class=\"c\"" } else { "" }, a, if inside { "<desc/>" } else { "" }, tag));
    match parse_plain(&x) {
        Ok(d) => {
            let k = child_keys(&d, 0)[0];
            let c = child_keys(&d, k);
            check!(el(&d, k).elementtype() == t && c.len() == want.len() + inside as usize, "an accepted document has every feature");
            for (k, (s, v)) in c.iter().zip(want.iter()) { let e = el(&d, *k); check!(e.elementtype() == ElementType::Feature && opt_eq(e.subset(), Some(s)) && opt_eq(e.class(), Some(v)), "an accepted document has every feature, with its subset and class") }
        }
        Err(_) => check!(!annotated && !want.is_empty(), "a complete document is accepted"),
    }
    reach!("c16.feats");
});
/// names of features that are names of attributes as well
const NOT_FEATURES: &[&str] = &[];

harness!(UNKNOWN_H, c16_unknown_tag, "C16", quick [(1, 20)], thorough [(20, 32)], reach ["c16.unknown"],
    "a body with an element named by `case` (1-19, thorough: 31) symbolic lower case letters or hyphens between two words: accepted only if FoLiA has an element of that name, which then is there", |case| {
    let name = sstr(case as usize, Dom::range(b'a', b'z').or(Dom::of(b"-")));
    let mut ty = None;
    for (t, tag, _) in golden::ELEMENTS.iter() { if name == *tag { ty = Some(*t) } }
    let x = folia_xml("", &format!("<w/><{} /><w/>", name));
    match parse_plain(&x) {
        Ok(d) => match ty { Some(t) => { let k = child_keys(&d, 0); check!(k.iter().any(|k| el(&d, *k).elementtype() == t || child_keys(&d, *k).iter().any(|k| el(&d, *k).elementtype() == t)), "an accepted document has every element"); check!(k.iter().filter(|k| el(&d, **k).elementtype() == ElementType::Word).count() >= 2, "an accepted document has every element") } None => fail!("an unknown element is refused") },
        Err(_) => check!(!(ty == Some(ElementType::Word) || ty == Some(ElementType::Sentence) || ty == Some(ElementType::Division) || ty == Some(ElementType::Note)), "a complete document is accepted"),
    }
    reach!("c16.unknown");
});

// ---- everything that is there is read

struct T(ElementType, Vec<T>);
fn same(d: &Document, k: ElementKey, t: &T) {
    check!(el(d, k).elementtype() == t.0, "an accepted document has every element, in order");
    let c = child_keys(d, k);
    check!(c.len() == t.1.len(), "an accepted document has every element, in order");
    for (k, t) in c.iter().zip(t.1.iter()) { same(d, *k, t) }
}
/// prefix of the FoLiA namespace on an element, in one of four ways
fn tag(name: &str, way: usize) -> (String, String) {
    match way {
        0 => (format!("<{} class=\"c\">", name), format!("</{}>", name)),
        1 => (format!("<f:{} xmlns:f=\"{}\" class=\"c\">", name, NS), format!("</f:{}>", name)),
        2 => (format!("<{} class = 'c' \t>", name), format!("</{} >", name)),
        _ => (format!("<g:{} class='c'\n>", name), format!("</g:{}\n>", name)),
    }
}
harness!(FOREIGN_H, c16_foreign, "C16", quick [(0, 36)], thorough [(36, 108)], reach ["c16.foreign"],
    "a sentence with a word with a part of speech annotation, and another word, each written with the default namespace, a prefix of its own, additional white space, or a prefix declared at the root, with up to two foreign elements (empty, with FoLiA elements or its own elements or text inside; prefixed, in another default namespace or in none) before, in, around or between them: the FoLiA elements are there, in order", |case| {
    let way = |i: u64| if case < 36 { ((case + i) % 4) as usize } else { choose(4) };
    let place = [case as usize % 9, if case % 36 / 9 == 3 { 9 } else { choose(9) }];
    let kind = case as usize / 9 % 4;
    let f = |at: usize, inner: &str| -> String {
        let mut s = inner.to_string();
        for (j, p) in place.iter().enumerate() { if *p == at {
            // around what is inside the foreign element, the default namespace has to be as before
            s = match (kind + j) % 4 {
                0 => format!("<x:y xmlns:x=\"z\" x:w=\"1\">{}</x:y>", s),
                1 => format!("<o><x:w xmlns:x=\"{}z\"/></o>", NS).replace("<o>", "<x:o xmlns:x=\"q\">").replace("</o>", "</x:o>") + &s,
                2 => format!("<w xmlns=\"http://ilk.uvt.nl\"><pos class=\"u\"/></w>{}", s),
                _ => format!("<w xmlns=\"\"/>{}<x:w xmlns:x=\"z\"/>", s),
            }
        } }
        s
    };
    let (p, w, v, s) = (tag("pos", way(0)), tag("w", way(1)), tag("w", way(2)), tag("s", way(3)));
    let pos = f(0, &format!("{}{}{}", p.0, f(1, ""), p.1));
    let word = f(2, &format!("{}{}{}{}", w.0, f(3, ""), pos, w.1));
    let word2 = f(4, &format!("{}{}{}", v.0, f(5, ""), v.1));
    let sent = f(6, &format!("{}{}{}{}", s.0, word, word2, s.1));
    let x = folia_xml("", &f(7, &format!("{}{}", sent, f(8, "")))).replace("xmlns:xlink", "xmlns:g=\"http://ilk.uvt.nl/folia\" xmlns:xlink");
    let d = accepted(&x);
    use ElementType::{Gap, PosAnnotation, Sentence, Speech, Text, Word};
    same(&d, 0, &T(Text, vec![T(Sentence, vec![T(Word, vec![T(PosAnnotation, vec![])]), T(Word, vec![])])]));
    check!(nelements(&d) == 5, "an accepted document has every FoLiA element, and no other");
    reach!("c16.foreign");
});

const KINDS: &[(&str, ElementType)] = &[("div", ElementType::Division), ("s", ElementType::Sentence), ("w", ElementType::Word), ("t", ElementType::TextContent), ("pos", ElementType::PosAnnotation), ("feat", ElementType::Feature), ("desc", ElementType::Description), ("note", ElementType::Note), ("gap", ElementType::Gap), ("entities", ElementType::EntitiesLayer), ("alt", ElementType::Alternative), ("correction", ElementType::Correction), ("new", ElementType::New)];
const NK: u64 = KINDS.len() as u64;
harness!(ALL_H, c16_complete, "C16", quick [(NK, 4 * NK)], thorough [(4 * NK, 5 * NK)], reach ["c16.complete"],
    "every body of case / 13 (up to 3, thorough: 4) elements of 13 kinds, nested or in sequence, each an empty tag or a start and end tag: if it is accepted, every element is there, with the parent it has in the input and in order; if the specification accepts each in its parent, and no feature is the body's, it is", |case| {
    let n = case / NK;
    let mut body = String::new();
    let mut open: Vec<T> = vec![T(ElementType::Text, vec![])];
    let mut names: Vec<&str> = vec![];
    let mut valid = true;
    for i in 0..n {
        let (t, ty) = KINDS[if i == 0 { (case % NK) as usize } else { choose(KINDS.len()) }];
        if let Some(p) = open.last() { if !golden::accepts(p.0, ty) || (t == "feat" && p.0 == ElementType::Text) { valid = false } }
        let a = if t == "feat" { " subset=\"u\" class=\"c\"" } else { "" };
        // closed at once: as an empty tag or not
        let close = if i + 1 < n { choose(names.len() + 2) } else { names.len() + 1 };
        if close > 0 && i & 1 == 0 { body.push_str(&format!("<{}{}/>", t, a)); if let Some(p) = open.last_mut() { p.1.push(T(ty, vec![])) } } else { body.push_str(&format!("<{}{}>", t, a)); names.push(t); open.push(T(ty, vec![])); if close > 0 { shut(&mut body, &mut names, &mut open) } }
        for _ in 1..close { shut(&mut body, &mut names, &mut open) }
    }
    fn shut(body: &mut String, names: &mut Vec<&str>, open: &mut Vec<T>) { if let (Some(t), Some(c)) = (names.pop(), open.pop()) { body.push_str(&format!("</{}>", t)); if let Some(p) = open.last_mut() { p.1.push(c) } } }
    match parse_plain(&folia_xml("", &body)) { Ok(d) => same(&d, 0, &open[0]), Err(_) => check!(!valid, "a complete document is accepted") }
    reach!("c16.complete");
});

/// what may stand after the end of the body, or before its beginning: refused
const AFTER: &[&str] = &["<text/>", "<speech/>", "<w/>", "<metadata/>", "<text><w/></text>", "<FoLiA/>", "<x xmlns=\"\"/>", "<meta id=\"k\"/>", "<annotations/>", "<f:w xmlns:f=\"http://ilk.uvt.nl/folia\"/>"];
harness!(AFTER_H, c16_around, "C16", quick [(0, 10)], thorough [], reach ["c16.around"],
    "one of ten elements (case) before the metadata, between metadata and body, after the body or after the root, with or without white space, a comment or a processing instruction, or in a header that has FoLiA elements of the body: accepted only if no FoLiA element gets lost", |case| {
    let e = AFTER[case as usize];
    let p = choose(5);
    let ws = ["", " \n", "<!--<w/>-->", "<?x w?>"][choose(4)];
    let at = |i: usize| if i == p { format!("{}{}{}", ws, e, ws) } else { ws.to_string() };
    let x = format!("<?xml version=\"1.0\"?>{ws}<FoLiA xmlns=\"{NS}\" xml:id=\"d\">{}<metadata>{}<meta id=\"k\">v</meta></metadata>{}<text><w/></text>{}</FoLiA>{}", at(0), at(1), at(2), at(3), at(4));
    // the header may have these, and a metadata element may come before the metadata
    let fine = (p == 1 && (e.starts_with("<meta ") || e.starts_with("<annotations") || e.starts_with("<metadata"))) || (p == 0 && (e.starts_with("<meta ") || e.starts_with("<annotations")));
    match parse_plain(&x) {
        Ok(d) => { check!(fine || (p == 2 && (e == "<text/>" || e == "<speech/>") && false), "elements that belong to no part of the document are refused"); check!(nelements(&d) == 2, "an accepted document has every element") }
        Err(_) => check!(true, "elements that belong to no part of the document are refused"),
    }
    // nothing but white space, comments and processing instructions is fine anywhere
    let x = format!("<?xml version=\"1.0\"?>{ws}<FoLiA xmlns=\"{NS}\" xml:id=\"d\">{ws}<metadata>{ws}<meta id=\"k\">v</meta>{ws}</metadata>{ws}<text>{ws}<w/>{ws}</text>{ws}</FoLiA>{ws}");
    check!(nelements(&accepted(&x)) == 2, "an accepted document has every element");
    reach!("c16.around");
});

harness!(EMPTY_H, c16_empty, "C16", quick [(0, 1)], thorough [], reach ["c16.empty"],
    "a document of which any of seven elements without content is written as an empty tag or as start and end tag: read alike", |_case| {
    let e = |t: &str, a: &str| if flag() { format!("<{}{}/>", t, a) } else { format!("<{}{}></{}>", t, a, t) };
    let x = format!("<FoLiA xmlns=\"{NS}\" xml:id=\"d\"><metadata><annotations>{}<lemma-annotation set=\"l\">{}</lemma-annotation></annotations><provenance>{}</provenance>{}{}</metadata><text>{}<s>{}{}</s>{}</text></FoLiA>",
        e("pos-annotation", " set=\"s\""), e("annotator", " processor=\"p\""), e("processor", " xml:id=\"p\" name=\"n\""), e("meta", " id=\"k\""), e("submetadata", " xml:id=\"m\""), e("s", ""), e("w", " xml:id=\"a\""), "<w/>", "<gap/>");
    let d = accepted(&x);
    use ElementType::{Gap, PosAnnotation, Sentence, Speech, Text, Word};
    same(&d, 0, &T(Text, vec![T(Sentence, vec![]), T(Sentence, vec![T(Word, vec![]), T(Word, vec![])]), T(Gap, vec![])]));
    check!(d.metadata.data.len() == 1 && d.submetadata.len() == 1 && d.submetadata.get("m").map(|m| m.data.is_empty()) == Some(true), "an empty tag is read like a start and an end tag");
    let ds: Vec<&Declaration> = d.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect();
    check!(ds.len() >= 2 && ds[0].processors.is_empty() && ds[1].processors.len() == 1 && d.provenancestore.chain.len() == 1, "an empty tag is read like a start and an end tag");
    for (body, t) in [("text", Text), ("speech", Speech)] {
        let d = accepted(&format!("<FoLiA xmlns=\"{NS}\" xml:id=\"d\">{}{}</FoLiA>", e("metadata", ""), e(body, "")));
        same(&d, 0, &T(t, vec![]));
        check!(nelements(&d) == 1, "an empty tag is read like a start and an end tag");
    }
    reach!("c16.empty");
});

pub const ALL: &[H] = &[PREFIX_H, LAST_H, END_H, SWAP_H, ROOT_H, NS_H, FEATS_H, UNKNOWN_H, FOREIGN_H, ALL_H, AFTER_H, EMPTY_H];
