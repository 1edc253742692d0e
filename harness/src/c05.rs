//! C05: text is what the text content, structure and delimiters of the specification make it
use crate::golden::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};
use ElementType as E;

/// reference tree
#[derive(Clone)]
pub struct N { pub ty: ElementType, pub space: Option<bool>, pub id: Option<String>, pub idref: Option<String>, pub set: Option<String>, pub class: Option<String>, pub data: Vec<D> }
#[derive(Clone)]
pub enum D { N(N), S(String), C(String) }
pub fn n(ty: ElementType, data: Vec<N>) -> N { N { ty, space: None, id: None, idref: None, set: None, class: None, data: data.into_iter().map(D::N).collect() } }
pub fn t(s: String) -> N { N { data: vec![D::S(s)], ..n(E::TextContent, vec![]) } }
impl N {
    fn named(mut self, id: &str) -> N { self.id = Some(id.to_string()); self }
    fn sp(mut self, s: Option<bool>) -> N { self.space = s; self }
    fn with(mut self, c: N) -> N { self.data.push(D::N(c)); self }
    fn of(mut self, set: Option<&str>, class: Option<&str>) -> N { self.set = set.map(|s| s.to_string()); self.class = class.map(|s| s.to_string()); self }
}
pub fn build(x: &N) -> ElementData {
    let mut e = elem(x.ty);
    if let Some(i) = &x.id { e = e.with_attrib(Attribute::Id(i.clone())) }
    if let Some(i) = &x.idref { e = e.with_attrib(Attribute::Idref(i.clone())) }
    if let Some(s) = &x.set { e = e.with_attrib(Attribute::Set(s.clone())) }
    if let Some(s) = &x.class { e = e.with_attrib(Attribute::Class(s.clone())) }
    if let Some(s) = x.space { e = e.with_attrib(Attribute::Space(s)) }
    for d in x.data.iter() { e = match d { D::N(c) => e.add_element(build(c)), D::S(s) => e.with(DataType::Text(s.clone())), D::C(s) => e.with(DataType::Comment(s.clone())) } }
    e
}
/// what is asked for
#[derive(Clone, Copy)]
pub struct Q<'a> { pub set: &'a str, pub class: &'a str, pub retain: bool, pub words: &'a [N] }
fn kids(x: &N) -> Vec<&N> { x.data.iter().filter_map(|d| if let D::N(c) = d { Some(c) } else { None }).collect() }
/// the text of an element, none if it has none
pub fn text(x: &N, q: &Q) -> Option<String> {
    let p = props(x.ty);
    let mut out = String::new();
    if p.textcontainer {
        for d in x.data.iter() { match d {
            D::S(s) => out.push_str(s),
            D::N(c) if props(c.ty).printable => { if !out.is_empty() { out.push_str(props(c.ty).delimiter.unwrap_or("")) } if let Some(s) = text(c, q) { out.push_str(&s) } }
            _ => {}
        } }
        return Some(out);
    }
    if !p.printable || p.hidden { return None }
    let mut pending = String::new();
    for c in kids(x) {
        let target = if c.ty == E::WordReference { match q.words.iter().find(|w| w.id.is_some() && w.id == c.idref) { Some(w) => w, None => continue } } else { c };
        if !(c.ty == E::WordReference || in_group(ElementGroup::Structure, c.ty) || in_group(ElementGroup::Span, c.ty) || c.ty == E::Correction || c.ty == E::New || c.ty == E::Current) { continue }
        if let Some(s) = text(target, q) { out.push_str(&pending); out.push_str(&s); pending = delimiter(target, q) }
    }
    if out.is_empty() {
        for c in kids(x) { if c.ty == E::TextContent && c.set.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_SET) == q.set && c.class.as_ref().map(|s| s.as_str()).unwrap_or("current") == q.class { if let Some(s) = text(c, q) { out = s } } }
    }
    if out.is_empty() { None } else { Some(out) }
}
fn delimiter(x: &N, q: &Q) -> String {
    let p = props(x.ty);
    match p.delimiter {
        Some(d) => if p.space && !q.retain && x.space == Some(false) { String::new() } else { d.to_string() },
        None => { for c in kids(x).into_iter().rev() { if x.ty != E::Correction || c.ty == E::New || c.ty == E::Current { return delimiter(c, q) } } String::new() }
    }
}
fn agree(got: Result<String, FoliaError>, want: Option<String>) {
    match (got, want) {
        (Ok(a), Some(b)) => check!(a == b, "the text of an element is its parts' text in document order, joined by the specification's delimiters"),
        (Err(_), None) => {}
        (Ok(_), None) => fail!("an element without text of the requested set and class yields an error"),
        (Err(_), Some(_)) => fail!("an element with text yields it"),
    }
}
/// every public way to ask for an element's text
fn ask(d: &Document, k: ElementKey, x: &N, q: &Q) {
    let e = el(d, k);
    let p = TextParameters::new().set(q.set).textclass(q.class).retaintokenisation(q.retain);
    agree(e.text(&p), text(x, q));
    agree(d.text(k, &p), text(x, q));
}
/// element keys in document order, aligned with the model
fn ask_all(d: &Document, k: ElementKey, x: &N, q: &Q) {
    ask(d, k, x, q);
    let (ks, ns) = (child_keys(d, k), kids(x));
    check!(ks.len() == ns.len(), "all children are there");
    for (k, c) in ks.iter().zip(ns.iter()) { ask_all(d, *k, c, q) }
}
const DFLT: Q<'static> = Q { set: DEFAULT_TEXT_SET, class: "current", retain: false, words: &[] };
fn under_body(x: &N) -> (Document, ElementKey, N) {
    let mut d = new_doc();
    let k = must(d.add_element_to(0, build(x)));
    (d, k, N { data: vec![D::N(x.clone())], ..n(E::Text, vec![]) })
}
fn space() -> Option<bool> { match choose(3) { 0 => None, 1 => Some(true), _ => Some(false) } }

harness!(WORDS_H, c05_words, "C05", quick [(0, 8)], thorough [(8, 12)], reach ["c05.words"],
    "a sentence of two or three (thorough: four) words, each with no text or text of 1 or 2 symbolic characters, with the space attribute absent, yes or no; the sentence with or without text of its own (one symbolic character); tokenisation retained or not; alone, or in a paragraph with a second sentence: text of every element", |case| {
    let nw = if case >= 8 { 4 } else { 2 + (case as usize & 1) };
    let mut s = n(E::Sentence, vec![]);
    if case & 4 != 0 { s = s.with(t(sstr(1, TEXT))) }
    for i in 0..nw { let mut w = n(E::Word, vec![]).sp(space()); if flag() { w = w.with(t(sstr(1 + (i & 1), TEXT))) } s = s.with(w) }
    let x = if case & 2 != 0 { n(E::Paragraph, vec![s, n(E::Sentence, vec![t(sstr(1, TEXT))]), n(E::Sentence, vec![])]) } else { s };
    let (d, _, b) = under_body(&x);
    for retain in [false, true].iter() { ask_all(&d, 0, &b, &Q { retain: *retain, ..DFLT }) }
    reach!("c05.words");
});
harness!(TYPES_H, c05_delimiters, "C05", quick [(0, 2)], thorough [], reach ["c05.delim"],
    "two elements of any one element type, the first with the space attribute absent, yes or no, each with text of one symbolic character, and then one of type word, under a paragraph (case 1: a list item); text of every element, with tokenisation retained or not", |case| {
    let all = all_types();
    let ty = all[choose(all.len())];
    assume(ty != E::WordReference);
    let x = n(if case == 0 { E::Paragraph } else { E::ListItem }, vec![n(ty, vec![t(sstr(1, TEXT))]).sp(space()), n(ty, vec![t(sstr(1, TEXT))]), n(E::Word, vec![t(sstr(1, TEXT))])]);
    let (d, _, b) = under_body(&x);
    for retain in [false, true].iter() { ask_all(&d, 0, &b, &Q { retain: *retain, ..DFLT }) }
    reach!("c05.delim");
});
harness!(MARKUP_H, c05_markup, "C05", quick [(0, 4)], thorough [], reach ["c05.markup"],
    "text content made of three (case 3: two) items, each a piece of text of 1 symbolic character, a comment, or an element of any type with (case 0) or without (case 1) text, or (case 2) holding another markup element with text; the text of every element. Elements of any type only as the second item", |case| {
    let all = all_types();
    let mut x = n(E::TextContent, vec![]);
    let simple = |x: &mut N| match choose(3) { 0 => x.data.push(D::S(sstr(1, TEXT))), 1 => x.data.push(D::C(sstr(1, LETTER))), _ => x.data.push(D::N(N { data: vec![D::S(sstr(1, TEXT))], ..n(E::TextMarkupStyle, vec![]) })) };
    simple(&mut x);
    let ty = all[choose(all.len())];
    assume(ty != E::WordReference);
    let inner = match case { 1 => vec![], 2 => vec![D::S(sstr(1, TEXT)), D::N(N { data: vec![D::S(sstr(1, TEXT))], ..n(E::TextMarkupString, vec![]) }), D::S(sstr(1, TEXT))], _ => vec![D::S(sstr(2, TEXT))] };
    x.data.push(D::N(N { data: inner, ..n(ty, vec![]) }));
    if case != 3 { simple(&mut x) }
    let (d, _, b) = under_body(&n(E::Paragraph, vec![x]));
    ask_all(&d, 0, &b, &DFLT);
    reach!("c05.markup");
});
/// one part of a sentence
fn part(kind: usize) -> Vec<N> {
    let tx = || t(sstr(1, TEXT));
    let w = |s: Option<bool>| n(E::Word, vec![tx()]).sp(s);
    let orig = || n(E::Original, vec![n(E::Word, vec![tx()]), n(E::Word, vec![tx()])]);
    match kind {
        0 => vec![],
        1 => vec![w(None)],
        2 => vec![w(Some(false))],
        3 => vec![n(E::Correction, vec![n(E::New, vec![w(None)]), orig()])],
        4 => vec![n(E::Correction, vec![orig(), n(E::New, vec![w(None), w(Some(false))])])],
        5 => vec![n(E::Correction, vec![n(E::Current, vec![w(None)]), n(E::Suggestion, vec![w(Some(false))])])],
        6 => vec![n(E::Correction, vec![n(E::New, vec![]), orig()])],
        7 => vec![n(E::Word, vec![n(E::Correction, vec![n(E::New, vec![tx()]), n(E::Original, vec![tx()])])])],
        8 => vec![n(E::Word, vec![tx(), n(E::Correction, vec![n(E::New, vec![tx()]), n(E::Original, vec![tx()])])])],
        9 => vec![n(E::Hiddenword, vec![tx()])],
        10 => vec![n(E::Word, vec![n(E::MorphologyLayer, vec![n(E::Morpheme, vec![tx()])])])],
        11 => vec![n(E::Word, vec![tx(), n(E::Alternative, vec![n(E::Correction, vec![n(E::New, vec![tx()])]), n(E::PosAnnotation, vec![])]), n(E::PosAnnotation, vec![n(E::Description, vec![])])])],
        12 => vec![n(E::Quote, vec![w(Some(false)), w(None)])],
        13 => vec![n(E::Gap, vec![n(E::Content, vec![])]), n(E::Linebreak, vec![]), n(E::Whitespace, vec![])],
        14 => vec![n(E::Part, vec![w(None), w(Some(false))])],
        15 => vec![n(E::Word, vec![tx().of(None, Some("other"))])],
        16 => vec![n(E::Word, vec![tx(), tx().of(None, Some("other"))])],
        17 => vec![n(E::AlternativeLayers, vec![n(E::EntitiesLayer, vec![n(E::Entity, vec![tx()])])]), n(E::Note, vec![tx()])],
        _ => vec![n(E::String, vec![tx()]), n(E::Alternative, vec![w(None)])],
    }
}
const PARTS: usize = 19;
harness!(PARTS_H, c05_parts, "C05", quick [(0, 19)], thorough [(19, 38)], reach ["c05.parts"],
    "a sentence of two (thorough: three) parts out of 19 kinds (words, corrections of words and of text with new, current, original and suggested parts, hidden words, subtokens, alternatives, inline annotation, quotes, gaps, linebreaks, text of another class, strings, notes), with or without text of its own, all text symbolic, in a paragraph; text of every element in both classes", |case| {
    let mut s = n(E::Sentence, vec![]);
    if flag() { s = s.with(t(sstr(1, TEXT))) }
    for p in part(case as usize % PARTS) { s = s.with(p) }
    for _ in 0..(1 + case as usize / PARTS) { for p in part(choose(PARTS)) { s = s.with(p) } }
    let (d, _, b) = under_body(&n(E::Paragraph, vec![s, n(E::Sentence, vec![n(E::Word, vec![t(sstr(1, TEXT))])])]));
    ask_all(&d, 0, &b, &DFLT);
    ask_all(&d, 0, &b, &Q { class: "other", ..DFLT });
    ask_all(&d, 0, &b, &Q { retain: true, ..DFLT });
    reach!("c05.parts");
});
harness!(CORR_H, c05_corrections, "C05", quick [(0, 4)], thorough [(4, 16)], reach ["c05.corr"],
    "a sentence of a correction and a word after it; the correction has up to three (thorough: four) parts, each new, current, original or suggestion (the third new or original; thorough: any), holding a word with the space attribute absent, yes or no, or text, or nothing, or (case / 2) a description first; text of the sentence and of the correction, with tokenisation retained or not", |case| {
    let mut c = n(E::Correction, vec![]);
    if case & 2 == 2 { c = c.with(n(E::Description, vec![])) }
    let k = if case >= 8 { 4 } else { 3 };
    let mut words = 0;
    for i in 0..k {
        let p = [E::New, E::Original, E::Suggestion, E::Current][choose(if i == 2 && case < 4 { 2 } else { 4 })];
        let mut x = n(p, vec![]);
        match choose(if i == 0 && case & 2 == 0 { 4 } else if words < 2 { 3 } else { 2 }) { 0 => {}, 1 => x = x.with(n(E::Word, vec![t(sstr(1, TEXT))]).sp(Some(false))), 2 => { words += 1; x = x.with(n(E::Word, vec![t(sstr(1, TEXT))])) } _ => x = x.with(n(E::Word, vec![]).sp(Some(false))) }
        c = c.with(x);
        if k - i <= 2 && flag() { break }
    }
    let mut s = n(E::Sentence, vec![]);
    if case & 1 == 1 { s = s.with(n(E::Word, vec![t(sstr(1, TEXT))]).sp(Some(false))) }
    let s = s.with(c).with(n(E::Word, vec![t(sstr(1, TEXT))]));
    let (d, _, b) = under_body(&n(E::Paragraph, vec![s]));
    let (sk, ck) = (child_keys(&d, child_keys(&d, 0)[0])[0], case as usize & 1);
    let p = kids(&b)[0];
    for retain in [false, true].iter() { let q = Q { retain: *retain, ..DFLT }; ask(&d, sk, kids(p)[0], &q); ask(&d, child_keys(&d, sk)[ck], kids(kids(p)[0])[ck], &q) }
    reach!("c05.corr");
});
harness!(TEXTS_H, c05_texts, "C05", quick [(0, 8)], thorough [(8, 16)], reach ["c05.texts"],
    "a sentence with two or three (thorough: four) parts, each a text content (empty, of one symbolic character, or of nothing but a comment, in the requested or another class), a word with or without text, or other annotation, in any order, built or (odd cases) parsed: text of every element in both classes", |case| {
    let mut s = n(E::Sentence, vec![]);
    let k = 2 + (case / 2 % 2) as usize + (case >= 8) as usize;
    let plain = VISIBLE.without(Dom::of(b"<&>"));
    let mut x = String::from("<s>");
    for i in 0..k {
        let what = choose(if case & 4 == 4 && i > 0 { 4 } else { 7 });
        let (p, y) = match what {
            0 => (n(E::TextContent, vec![]), "<t/>".to_string()),
            1 => { let v = sstr(1, plain); (t(v.clone()), format!("<t>{}</t>", v)) }
            2 => { let v = sstr(1, plain); (n(E::Word, vec![t(v.clone())]), format!("<w><t>{}</t></w>", v)) }
            3 => { let v = sstr(1, plain); (t(v.clone()).of(None, Some("other")), format!("<t class=\"other\">{}</t>", v)) }
            4 => (N { data: vec![D::C("c".into())], ..n(E::TextContent, vec![]) }, "<t><!--c--></t>".to_string()),
            5 => (n(E::Word, vec![n(E::TextContent, vec![])]), "<w><t></t></w>".to_string()),
            _ => (n(E::Word, vec![n(E::PosAnnotation, vec![])]), "<w><pos class=\"c\"/></w>".to_string()),
        };
        s = s.with(p);
        x.push_str(&y);
    }
    x.push_str("</s>");
    let (d, b) = if case & 1 == 0 { let (d, _, b) = under_body(&s); (d, b) } else {
        let d = match parse(&folia_xml(&format!("<text-annotation set=\"{}\"/>", DEFAULT_TEXT_SET), &x)) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
        (d, n(E::Text, vec![s]))
    };
    ask_all(&d, 0, &b, &DFLT);
    ask_all(&d, 0, &b, &Q { class: "other", ..DFLT });
    reach!("c05.texts");
});
harness!(CLASS_H, c05_classes, "C05", quick [(0, 3)], thorough [], reach ["c05.class"],
    "a word with two texts whose sets are the default text set (named or not) or one of one symbolic letter and whose classes are symbolic letters or none, in a sentence with a text of its own likewise; asked for with any set and class of a symbolic letter, or the defaults", |case| {
    let mut d = new_doc();
    let mut mk = |named: bool| {
        let class = if named { Some(sstr(1, LETTER)) } else { None };
        let set = match (class.is_some(), choose(3)) { (true, 0) => Some(sstr(1, LETTER)), (true, 1) => Some(DEFAULT_TEXT_SET.to_string()), _ => None };
        let mut x = t(sstr(1, TEXT)); x.set = set; x.class = class; x
    };
    let (a, b, c) = (mk(case != 1), mk(true), mk(case == 2));
    // one text per set and class
    let key = |x: &N| (x.set.clone().unwrap_or(DEFAULT_TEXT_SET.to_string()), x.class.clone().unwrap_or("current".into()));
    assume(key(&a) != key(&b));
    let s = n(E::Sentence, vec![n(E::Word, vec![a.clone(), b.clone()]), c.clone()]);
    let k = must(d.annotate(0, build(&s)));
    let set = if flag() { sstr(1, LETTER) } else { DEFAULT_TEXT_SET.to_string() };
    let class = if flag() { sstr(1, LETTER) } else { "current".to_string() };
    let mut declared = set == DEFAULT_TEXT_SET;
    for x in [&a, &b, &c].iter() { if let Some(y) = &x.set { if *y == set { declared = true; break } } }
    let q = Q { set: &set, class: &class, ..DFLT };
    let w = child_keys(&d, k)[0];
    for (k, x) in [(k, &s), (w, kids(&s)[0])].iter() {
        let p = TextParameters::new().set(&set).textclass(&class);
        agree(d.text(*k, &p), if declared { text(x, &q) } else { None });
        // by key: only classes the declaration holds
        if let Some(dk) = d.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(&set))) {
            let dec = match d.get_declaration(dk) { Some(x) => x, None => fail!("a declaration that is found exists") };
            if let Some(ck) = dec.class_key(&class) { agree(d.text_by_key(*k, dk, ck, false, false), text(x, &q)) }
        }
    }
    // without parameters the defaults apply
    agree(d.text(k, &TextParameters { set: None, textclass: None, strict: false, retaintokenisation: false }), text(&s, &DFLT));
    agree(d.text(k, &TextParameters::default()), text(&s, &DFLT));
    if let Some(x) = text(&s, &DFLT) { check!(el(&d, k).to_string() == x, "an element displays as its text") }
    reach!("c05.class");
});
harness!(NEAR_H, c05_near, "C05", quick [(0, 8)], thorough [(8, 12)], reach ["c05.near"],
    "a word with two texts whose classes (even cases) or sets are alike: one is the default or a string of 1, 4, 9, 20, 40 or 130 (thorough: of any length up to 24) characters, the other has a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or is it twice (with a symbolic character between or not); built or (case / 2 odd) read back; asked for by either, or by a third one like it; or (cases 4-7) one of six as they occur in documents, and a character more, other or fewer at any position", |case| {
    let mut d = new_doc();
    let sets = case & 1 == 1;
    let real = case / 4 == 1;
    let a = if real { REAL[choose(REAL.len())].to_string() } else if case < 4 { match choose(7) { 0 => if sets { DEFAULT_TEXT_SET.to_string() } else { "current".to_string() }, i => sample([1, 4, 9, 20, 40, 130][i - 1]) } } else { sample(1 + choose(24)) };
    let b = if real { near_any(&a, if case & 2 == 2 { NAME } else { VISIBLE }) } else { near(&a, if case & 2 == 2 { NAME } else { VISIBLE }) };
    assume(a != b && b != "");
    let mut i = 0;
    let mut mk = |v: &String| { i += 1; let mut x = t(["x", "y"][i - 1].to_string()); if sets { x.set = Some(v.clone()); x.class = Some("c".into()) } else { x.class = Some(v.clone()) } x };
    let l = if flag() { vec![mk(&a), mk(&b)] } else { vec![mk(&b), mk(&a)] };
    let s = n(E::Sentence, vec![n(E::Word, l)]);
    let mut k = must(d.annotate(0, build(&s)));
    if case & 2 == 2 { d = reparse(&xml_of(&d)); k = child_keys(&d, 0)[0] }
    let v = match choose(3) { 0 => a.clone(), 1 => b.clone(), _ if real => a[..a.len() / 2].to_string(), _ => near(&a, VISIBLE) };
    // a set that is not declared has no text
    let known = !sets || v == a || v == b;
    let q = if sets { Q { set: &v, class: "c", ..DFLT } } else { Q { class: &v, ..DFLT } };
    for (k, x) in [(k, &s), (child_keys(&d, k)[0], &kids(&s)[0])] {
        let p = if sets { TextParameters::new().set(&v).textclass("c") } else { TextParameters::new().textclass(&v) };
        agree(d.text(k, &p), if known { text(x, &q) } else { None });
    }
    reach!("c05.near");
});
const SPANS: [ElementType; 6] = [E::Entity, E::Chunk, E::SyntacticUnit, E::Predicate, E::Headspan, E::CoreferenceLink];
harness!(SPAN_H, c05_spans, "C05", quick [(0, 6)], thorough [(6, 12)], reach ["c05.span"],
    "a span (entity, chunk, syntactic unit; a predicate, head or coreference link within another span) over one to three of three words in any order, repeated or not; words with or without text (symbolic), with or without space; the text of the span, and the unchanged text of the sentence", |case| {
    let mut words: Vec<N> = vec![];
    for i in 0..3 {
        let mut w = n(E::Word, vec![]).named(["w1", "w2", "w3"][i]);
        if i < 2 { w = w.sp(match choose(2) { 0 => None, _ => Some(false) }) }
        if i != 1 || flag() { w = w.with(t(sstr(1, TEXT))) }
        words.push(w);
    }
    let s = n(E::Sentence, words.clone());
    let (mut d, k, mut b) = under_body(&n(E::Paragraph, vec![s]));
    let sk = child_keys(&d, k)[0];
    let ty = SPANS[case as usize % 6];
    let len = 1 + choose(if case >= 6 { 3 } else { 2 });
    let mut sp = n(ty, vec![]);
    for _ in 0..len { let mut r = n(E::WordReference, vec![]); r.idref = Some(["w1", "w2", "w3"][choose(3)].to_string()); sp = sp.with(r) }
    let outer = match ty { E::Predicate => Some(n(E::SemanticRole, vec![sp.clone()])), E::Headspan => Some(n(E::Dependency, vec![sp.clone()])), E::CoreferenceLink => Some(n(E::CoreferenceChain, vec![sp.clone()])), _ => None };
    let mut top = outer.unwrap_or(sp.clone());
    top.set = Some("s".into());
    let key = must(d.annotate(sk, build(&top)));
    let q = Q { words: &words, ..DFLT };
    for retain in [false, true].iter() {
        let q = Q { retain: *retain, ..q };
        ask_all(&d, key, &top, &q);
        // the sentence holds the layer, which adds nothing
        let mut layer = n(E::EntitiesLayer, vec![top.clone()]);
        layer.set = Some("s".into());
        if let D::N(p) = &mut b.data[0] { if let D::N(s) = &mut p.data[0] { s.data.truncate(3); } }
        agree(el(&d, 0).text(&TextParameters::default().retaintokenisation(*retain)), text(&b, &q));
        agree(el(&d, sk).text(&TextParameters::default().retaintokenisation(*retain)), text(kids(kids(&b)[0])[0], &q));
    }
    reach!("c05.span");
});
harness!(NEST_H, c05_nesting, "C05", quick [(0, 4)], thorough [], reach ["c05.nest"],
    "a tree of depth 4: division, two of five kinds of block (paragraph, head, list of items, table of rows of cells, figure with caption), sentences with text of their own, words with text, or both; with or without text of its own on the division and block; all text symbolic", |case| {
    let tx = || t(sstr(1, TEXT));
    let sent = || match choose(4) { 0 => n(E::Sentence, vec![tx()]), 1 => n(E::Sentence, vec![n(E::Word, vec![tx()]), n(E::Word, vec![tx()])]), 2 => n(E::Sentence, vec![tx(), n(E::Word, vec![])]), _ => n(E::Sentence, vec![]) };
    let block = |i: usize| { let s = sent(); match i {
        0 => n(E::Paragraph, vec![s, sent()]),
        1 => n(E::Head, vec![s]),
        2 => n(E::List, vec![n(E::ListItem, vec![s]), n(E::ListItem, vec![tx()])]),
        3 => n(E::Table, vec![n(E::Row, vec![n(E::Cell, vec![s]), n(E::Cell, vec![tx()])]), n(E::Row, vec![n(E::Cell, vec![tx()])])]),
        _ => n(E::Figure, vec![n(E::Caption, vec![s])]),
    } };
    let mut v = n(E::Division, vec![]);
    if case & 1 != 0 { v = v.with(tx()) }
    let mut b = block(choose(5));
    if case & 2 != 0 { b = b.with(tx()) }
    v = v.with(b).with(block(choose(5)));
    let (d, _, b) = under_body(&v);
    ask_all(&d, 0, &b, &DFLT);
    reach!("c05.nest");
});
harness!(PARSE_H, c05_parsed, "C05", quick [(0, 4)], thorough [], reach ["c05.parsed"],
    "parsed documents: two words with texts of two symbolic characters, one of them escaped, markup, the space attribute, text classes, a document that declares another text set", |case| {
    let (a, b, c) = (sstr(2, VISIBLE.without(Dom::of(b"<&>]"))), sstr(1, VISIBLE.without(Dom::of(b"<&>]"))), sstr(1, VISIBLE.without(Dom::of(b"<&>]"))));
    let esc = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#65;", "A"), ("&#xe9;", "\u{e9}")][choose(6)];
    let sp = ["", " space=\"no\"", " space=\"yes\""][choose(3)];
    let mut x = String::from("<s><w"); x.push_str(sp); x.push_str("><t>"); x.push_str(&a); x.push_str(esc.0);
    x.push_str("<t-style>"); x.push_str(&b); x.push_str("</t-style></t><t class=\"other\">x</t></w><w><t>"); x.push_str(&c); x.push_str("</t></w></s>");
    let decl = match case { 0 => "", 1 => "<text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/>", 2 => "<text-annotation set=\"y\"/>", _ => "<text-annotation set=\"y\"/>" };
    let d = match if case >= 2 { parse_plain(&folia_xml(decl, &x)) } else { parse(&folia_xml(decl, &x)) } { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    let mut want = a.clone(); want.push_str(esc.1); want.push_str(&b); if !sp.contains("no") { want.push(' ') } want.push_str(&c);
    let set = if case >= 2 { "y" } else { DEFAULT_TEXT_SET };
    let p = TextParameters::default().set(set);
    agree(d.text(0, &p), Some(want.clone()));
    agree(d.text(0, &p.clone().textclass("other")), Some("x".into()));
    agree(d.text(0, &TextParameters::default().set("nothing")), None);
    if case >= 2 { agree(d.text(0, &TextParameters::default()), None) }
    reach!("c05.parsed");
});
harness!(MANY_H, c05_many, "C05", quick [(0, 10)], thorough [(10, 14)], reach ["c05.many"],
    "a sentence of 5, 12, 40, 130 or 300 (thorough: 1100) words with a text of two characters, one of which (the first, the second, one in the middle, the last but one, the last) is another: without space, without text, with a text of one symbolic character, of another class, a gap, a sentence in a quote, in a correction, with text beside comment and markup; alone, or (odd cases) with an entity over all the words, in order or backwards; the text of every element, with tokenisation retained or not", |case| {
    let nw = [5, 12, 40, 130, 300, 1100, 2000][case as usize / 2];
    let at = [0, 1, nw / 2, nw - 2, nw - 1][choose(5)];
    let text_of = |i: usize| t(format!("{}{}", (b'a' + (i % 26) as u8) as char, i % 10));
    let name = |i: usize| format!("w{}", i);
    let kind = choose(8);
    let special = |w: N| match kind {
        0 => w.sp(Some(false)).with(text_of(at)),
        1 => w,
        2 => w.with(t(sstr(1, TEXT))),
        3 => w.with(text_of(7).of(None, Some("other"))),
        4 => w.with(text_of(at).of(None, Some("other"))).with(t(sstr(1, TEXT))),
        5 => { let mut x = t("x".into()); x.data.push(D::C("c".into())); x.data.push(D::N(N { data: vec![D::S(sstr(1, TEXT))], ..n(E::TextMarkupStyle, vec![]) })); w.with(x) }
        _ => w.with(text_of(at)),
    };
    let mut s = n(E::Sentence, vec![]);
    let mut words: Vec<N> = vec![];
    for i in 0..nw {
        let w = n(E::Word, vec![]).named(&name(i));
        let w = if i == at { special(w) } else { w.with(text_of(i)) };
        words.push(w.clone());
        s = s.with(if i != at { w } else { match kind { 6 => n(E::Quote, vec![n(E::Sentence, vec![w])]), 7 => n(E::Correction, vec![n(E::Original, vec![n(E::Word, vec![text_of(3)])]), n(E::New, vec![w])]).of(Some("x"), None), _ => w } });
    }
    let (mut d, k, mut b) = under_body(&s);
    if case & 1 == 1 {
        let mut sp = n(E::Entity, vec![]).of(Some("x"), None);
        let back = flag();
        for i in 0..nw { let mut r = n(E::WordReference, vec![]); r.idref = Some(name(if back { nw - 1 - i } else { i })); sp = sp.with(r) }
        let key = must(d.annotate(k, build(&sp)));
        ask(&d, key, &sp, &Q { words: &words, ..DFLT });
        ask(&d, key, &sp, &Q { words: &words, retain: true, ..DFLT });
        b = n(E::Text, vec![s.clone()]);
        ask(&d, 0, &b, &DFLT);
    } else { for retain in [false, true].iter() { ask(&d, 0, &b, &Q { retain: *retain, ..DFLT }); if nw <= 40 { ask_all(&d, k, &s, &Q { retain: *retain, ..DFLT }) } } }
    reach!("c05.many");
});
pub const ALL: &[H] = &[MANY_H, NEAR_H, WORDS_H, TYPES_H, MARKUP_H, PARTS_H, CORR_H, TEXTS_H, CLASS_H, SPAN_H, NEST_H, PARSE_H];
