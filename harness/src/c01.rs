//! C01: serialise/parse round trip
use crate::golden::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};


harness!(TEXT_H, c01_text, "C01", quick [(1, 4)], thorough [(4, 5)], reach ["c01.text"],
    "one sentence with a text of `case` symbolic characters (printable ASCII, tab, newline), not all white space", |case| {
    let mut doc = new_doc();
    let t = sstr(case as usize, TEXT);
    assume(t.trim() != "");
    must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1")).with_text(t.clone())));
    let e = round_trip(&doc);
    reach!("c01.text");
    let s = match e.get_element_by_id("s1") { Some(s) => s, None => fail!("round trip: identifier resolves") };
    match s.text(&TextParameters::default()) { Ok(u) => check!(u == t, "round trip: text of a sentence reads back"), Err(_) => fail!("round trip: text of a sentence reads back") }
});

harness!(UTF8_H, c01_text_utf8, "C01", quick [(0, 3)], thorough [(3, 4)], reach ["c01.utf8"],
    "a text that starts with a symbolic two byte UTF-8 character followed by `case` symbolic characters, as text, class and comment", |case| {
    let mut doc = new_doc();
    let t = sstr_utf8(case as usize, VISIBLE);
    assume(t.len() > 3 || case < 2);
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1")).with_text(t.clone())));
    assume(!t.contains("--") && !t.ends_with('-'));
    must(doc.annotate(s, ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("x".into())).with_attrib(Attribute::Class(t.clone())).with(DataType::Comment(t))));
    round_trip(&doc);
    reach!("c01.utf8");
});

/// all kinds of attribute whose value is free text
pub fn text_attrib(k: usize, s: String) -> Option<Attribute> {
    Some(match k {
        0 => Attribute::Annotator(s), 1 => Attribute::N(s), 2 => Attribute::BeginTime(s), 3 => Attribute::EndTime(s), 4 => Attribute::Src(s), 5 => Attribute::Speaker(s),
        6 => Attribute::Textclass(s), 7 => Attribute::Metadata(s), 8 => Attribute::Idref(s), 9 => Attribute::Href(s), 10 => Attribute::Format(s), 11 => Attribute::Type(s),
        12 => Attribute::Auth(s), 13 => Attribute::Ref(s), 14 => Attribute::Original(s), 15 => Attribute::PageNr(s), 16 => Attribute::XLinkType(s), 17 => Attribute::Text(s),
        18 => Attribute::Id(s), 19 => Attribute::Class(s), 20 => Attribute::Set(s),
        _ => return None,
    })
}
pub const NTEXT: usize = 21;
harness!(ATTR_H, c01_attribute, "C01", quick [(0, 42)], thorough [(42, 63)], reach ["c01.attribute"],
    "one element carrying one free-text attribute (kind = case mod 21, all 21 kinds), value of 1+case/21 symbolic characters (printable ASCII, tab, newline)", |case| {
    let mut doc = new_doc();
    let k = case as usize % NTEXT;
    let v = sstr(1 + case as usize / NTEXT, TEXT);
    if k == 18 { assume(v != "s1") }
    let mut e = ElementData::new(ElementType::PosAnnotation);
    if let Some(a) = text_attrib(k, v) { e = e.with_attrib(a) }
    let w = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    must(doc.annotate(w, e));
    round_trip(&doc);
    reach!("c01.attribute");
});

harness!(ATTRNUM_H, c01_attribute_values, "C01", quick [(0, 7)], thorough [], reach ["c01.attrnum"],
    "attributes with structured values: space, newpage (both), annotatortype (all), offset and linenr (any number whose high byte is 0, 1, 4 or 255), confidence (12 values), datetime (6 values)", |case| {
    let mut doc = new_doc();
    let a = match case {
        0 => Attribute::Space(sbool()),
        1 => Attribute::NewPage(sbool()),
        2 => Attribute::AnnotatorType([ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource][index(4)]),
        3 => Attribute::Offset([0u16, 256, 1024, 0xff00][choose(4)] + sbyte(ANY) as u16),
        4 => Attribute::LineNr([0u16, 256, 1024, 0xff00][choose(4)] + sbyte(ANY) as u16),
        5 => Attribute::Confidence([0.0, 1.0, 0.5, 0.1, 1e-7, 0.333333333333333314829616256247, 0.999999999999999888977697537484, 123456.75, 1e300, 5e-324, -2.5, f64::INFINITY][choose(12)]),
        _ => { let d = [(1970, 1, 1, 0, 0, 0), (2020, 2, 29, 23, 59, 59), (1999, 12, 31, 12, 0, 30), (9999, 12, 31, 1, 2, 3), (1000, 10, 10, 10, 10, 10), (2024, 7, 4, 5, 6, 7)][choose(6)];
            match chrono::NaiveDate::from_ymd_opt(d.0, d.1, d.2).and_then(|x| x.and_hms_opt(d.3, d.4, d.5)) { Some(d) => Attribute::DateTime(d), None => fail!("date") } }
    };
    must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1")).with_attrib(a)));
    round_trip(&doc);
    reach!("c01.attrnum");
});

harness!(TYPES_H, c01_types, "C01", quick [(0, 4)], thorough [], reach ["c01.types"],
    "an element of every type (symbolic) that can stand on its own, with identifier, set, class and n attributes as chosen by case, holding nothing, text or a description", |case| {
    let mut doc = new_doc();
    let t = all_types();
    let ty = t[index(t.len())];
    assume(ty != ElementType::WordReference);
    let mut e = ElementData::new(ty).with_attrib(id("e1")).with_attrib(Attribute::N("1".into()));
    if case & 1 == 1 { e = e.with_attrib(Attribute::Class("c".into())); }
    if case == 3 { e = e.with_attrib(Attribute::Set("z".into())); }
    if case == 1 { e = e.with(DataType::Text(sstr(1, LETTER))); }
    if case >= 2 { e = e.add_element(ElementData::new(ElementType::Description).with(DataType::Text(sstr(2, VISIBLE)))); }
    // features are written as <feat> only when they are of the generic type
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1")).with_attrib(Attribute::Set("y".into()))));
    assume(!ElementGroup::Feature.contains(ty));
    if ty == ElementType::Feature { assume(case != 0) }
    must(doc.add_element_to(s, e));
    round_trip(&doc);
    reach!("c01.types");
});

harness!(TREE_H, c01_tree, "C01", quick [(1, 5)], thorough [(5, 6)], reach ["c01.tree"],
    "every tree of `case` division elements under the body, each optionally identified, every one followed by an optional comment", |case| {
    let mut doc = new_doc();
    let mut keys = vec![0];
    for i in 0..case {
        let p = keys[choose(keys.len())];
        let mut e = ElementData::new(ElementType::Division);
        if i < 2 && flag() { e = e.with_attrib(Attribute::Id(format!("{}{}", sstr(1, LETTER), i))) }
        let k = must(doc.annotate(p, e));
        keys.push(k);
        if i == 1 && flag() { must(doc.add_element_to(k, ElementData::new(ElementType::Note).with(DataType::Comment(sstr(1, VISIBLE.without(Dom::of(b"-"))))))); }
    }
    round_trip(&doc);
    reach!("c01.tree");
});

/// set, class and processor mixtures
fn mix(case: u64, n: usize) {
    let mut props = DocumentProperties::default();
    if case & 1 == 1 { props = props.with_declaration(AnnotationType::POS, Some(sstr(1, LETTER))) }
    let mut doc = match Document::new("doc", props) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let np = case as usize / 2;
    for i in 0..np { if doc.add_processor(Processor::new("p".into()).with_id(format!("p{}", i))).is_err() { fail!("a processor can be added") } }
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    for _ in 0..n {
        let mut e = ElementData::new(ElementType::PosAnnotation);
        if flag() { e = e.with_attrib(Attribute::Set(sstr(1, LETTER))) }
        if flag() { e = e.with_attrib(Attribute::Class(sstr(1, LETTER))) }
        if np > 0 { let p = choose(np + 1); if p > 0 { e = e.with_attrib(Attribute::Processor(format!("p{}", p - 1))) } }
        must(doc.annotate(s, e));
    }
    round_trip(&doc);
}
harness!(MIX2_H, c01_mixture, "C01", quick [(0, 6)], thorough [], reach ["c01.mix"],
    "two annotations of one type whose set (1 symbolic letter or none), class (1 symbolic character or none) and processor (of 0-2, or none) are arbitrary; the document declares the type beforehand or not", |case| {
    mix(case, 2);
    reach!("c01.mix");
});
harness!(MIX3_H, c01_mixture3, "C01", quick [(0, 2)], thorough [(2, 4)], reach ["c01.mix3"],
    "as c01_mixture with three annotations and 0 (thorough: 1) processors", |case| {
    mix(case, 3);
    reach!("c01.mix3");
});

harness!(MARKUP_H, c01_markup, "C01", quick [(0, 6)], thorough [(6, 12)], reach ["c01.markup"],
    "text content made of up to three items: text (1 symbolic character), nested markup with text, line break, comment, description, feature; inside a text, a phonetic content or a markup element, with or without indentation", |case| {
    let mut doc = new_doc();
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    let container = [ElementType::TextContent, ElementType::PhonContent, ElementType::TextMarkupStyle][case as usize % 3];
    let mut t = ElementData::new(if container == ElementType::PhonContent { container } else { ElementType::TextContent }).with_attrib(Attribute::Class("current".into()));
    let mut inner = ElementData::new(ElementType::TextMarkupStyle).with_attrib(Attribute::Class("b".into()));
    let mut prevtext = false;
    for _ in 0..(2 + case / 6) + (case / 3) % 2 * 0 + 1 {
        let k = choose(if prevtext { 5 } else { 6 });
        prevtext = k == 5;
        let f = |e: ElementData| match k {
            0 => e,
            1 => e.add_element(ElementData::new(ElementType::TextMarkupString).with(DataType::Text(sstr(1, LETTER)))),
            2 => e.add_element(ElementData::new(ElementType::Linebreak)),
            3 => e.with(DataType::Comment("c".into())),
            4 => e.add_element(ElementData::new(ElementType::Description).with(DataType::Text("d".into()))),
            _ => e.with(DataType::Text(sstr(1, LETTER))),
        };
        if case % 3 == 2 { inner = f(inner) } else { t = f(t) }
        if k == 0 { break }
    }
    if case % 3 == 2 { t = t.add_element(inner) }
    let k = must(doc.add_element_to(s, t));
    let _ = k;
    let e = round_trip(&doc);
    // pretty printing does not change the content either
    if (case / 3) % 2 == 1 {
        match e.xml(0, 2) { Ok(x) => { let f = reparse(&x); same_tree(&e, 0, &f, 0) } Err(_) => fail!("a document can be serialised") }
    }
    reach!("c01.markup");
});

harness!(WHITE_H, c01_whitespace, "C01", quick [(0, 1)], thorough [], reach ["c01.white"],
    "text content that holds a text of one symbolic white space character between two markup elements", |case| {
    let mut doc = new_doc();
    let _ = case;
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    let m = |c: &str| ElementData::new(ElementType::TextMarkupString).with(DataType::Text(c.to_string()));
    must(doc.add_element_to(s, ElementData::new(ElementType::TextContent).with_attrib(Attribute::Class("current".into())).add_element(m("a")).with(DataType::Text(sstr(1, Dom::of(b" \t\n")))).add_element(m("b"))));
    reach!("c01.white");
    let e = reparse(&xml_of(&doc));
    let t1 = el(&doc, s).text(&TextParameters::default());
    let t2 = match e.get_element_by_id("s1") { Some(x) => x.text(&TextParameters::default()), None => fail!("round trip: identifier resolves") };
    match (t1, t2) { (Ok(a), Ok(b)) => check!(a == b, "round trip: white space between two markup elements is kept"), _ => fail!("round trip: text of a sentence reads back") }
});

harness!(COMMENT_H, c01_comment, "C01", quick [(1, 3)], thorough [(3, 5)], reach ["c01.comment"],
    "a comment of `case` symbolic characters (printable ASCII, tab, newline; not all white space) that XML can represent (no '--', no '-' at the end)", |case| {
    let mut doc = new_doc();
    let t = sstr(case as usize, TEXT);
    assume(t.trim() != "");
    assume(!t.contains("--"));
    assume(!t.ends_with('-'));
    must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1")).with(DataType::Comment(t))));
    round_trip(&doc);
    reach!("c01.comment");
});

harness!(FEAT_H, c01_features, "C01", quick [(0, 4)], thorough [], reach ["c01.feat"],
    "an annotation with two features whose subset and class are symbolic; with one or two sets for the annotation type, with or without class on the annotation", |case| {
    let mut doc = new_doc();
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    if case & 1 == 1 { must(doc.annotate(s, ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("other".into())).with_attrib(Attribute::Class(sstr(1, LETTER))))); }
    let mut e = ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("mine".into()));
    if case & 2 == 0 { e = e.with_attrib(Attribute::Class(sstr(1, LETTER))) }
    let p = must(doc.annotate(s, e));
    for _ in 0..2 { must(doc.annotate(p, ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset(sstr(1, LETTER))).with_attrib(Attribute::Class(sstr(1, LETTER))))); }
    round_trip(&doc);
    reach!("c01.feat");
});

harness!(SPAN_H, c01_span, "C01", quick [(0, 4)], thorough [], reach ["c01.span"],
    "a sentence of three words, up to two span annotations over symbolically chosen words, in one or two sets, a dependency with head and dependent", |case| {
    let mut doc = new_doc();
    let s = must(doc.annotate(0, ElementData::new(ElementType::Sentence).with_attrib(id("s1"))));
    for i in 0..3 { must(doc.annotate(s, ElementData::new(ElementType::Word).with_attrib(Attribute::Id(format!("w{}", i))).with_text(sstr(1, LETTER)))); }
    let w = |i: usize| ["w0", "w1", "w2"][i];
    for i in 0..2 {
        let (a, b) = (choose(3), choose(3));
        let e = ElementData::new(ElementType::Entity).with_attrib(Attribute::Id(format!("e{}", i))).with_attrib(Attribute::Class(sstr(1, LETTER))).with_attrib(Attribute::Set(if case & 1 == 1 { sstr(1, LETTER) } else { "x".into() }));
        let e = if a == b { e.with_span(&[w(a)]) } else { e.with_span(&[w(a), w(b)]) };
        must(doc.annotate(s, e));
    }
    if case & 2 == 2 {
        must(doc.annotate(s, ElementData::new(ElementType::Dependency).with_attrib(Attribute::Set("d".into())).with_attrib(Attribute::Class(sstr(1, LETTER)))
            .add_element(ElementData::new(ElementType::Headspan).with_span(&["w0"])).add_element(ElementData::new(ElementType::DependencyDependent).with_span(&["w1"]))));
    }
    round_trip(&doc);
    reach!("c01.span");
});

harness!(HEADER_H, c01_header, "C01", quick [(0, 4)], thorough [], reach ["c01.header"],
    "metadata of the document, of a submetadata, or of a processor, or submetadata, of up to six fields with identifiers of different lengths filled in in any of six orders, in a document with a sentence with a text of one symbolic character: the same XML again", |case| {
    let mut d = new_doc();
    let (n, r) = (1 + choose(6), choose(6));
    let keys: Vec<String> = (0..n).map(|i| "abcdefg"[..1 + (i + r) % n].to_string()).collect();
    let mut m = Metadata::default();
    for k in keys.iter() { m.data.insert(k.clone(), "v".into()); }
    match case {
        0 => { d.metadata = m; }
        1 => { d.submetadata.insert("sub".into(), m); }
        2 => { for k in keys.iter() { d.submetadata.insert(k.clone(), Metadata::default()); } }
        _ => { let mut p = Processor::new("x".into()).with_id("p".into()); p.metadata = m; if let Err(_) = d.add_processor(p) { fail!("a processor is added") } }
    }
    must(d.annotate(0, ElementData::new(ElementType::Sentence).with_text(sstr(1, VISIBLE))));
    round_trip(&d);
    reach!("c01.header");
});

harness!(PART_H, c01_element, "C01", quick [(0, 4)], thorough [], reach ["c01.part"],
    "two sentences, one with text of a symbolic character, a comment, two words with features and annotations in one or two sets, markup in text (case): the XML of every element on its own is what the document's XML has for it, and it parses as the body of a document to the same tree", |case| {
    let mut d = new_doc();
    let c = sstr(1, VISIBLE);
    let s = must(d.annotate(0, elem(ElementType::Sentence).with_attrib(id("s1")).with_text(c.clone())));
    let w = must(d.annotate(s, elem(ElementType::Word).with_attrib(id("w1")).with_attrib(class("k")).with_text("w".into())));
    let p = must(d.annotate(w, elem(ElementType::PosAnnotation).with_attrib(set("x")).with_attrib(class("N")).add_element(crate::model::feat(&None, "f", "g"))));
    if case & 1 == 1 { must(d.annotate(w, elem(ElementType::PosAnnotation).with_attrib(set("y")).with_attrib(class(&c)))); }
    if case & 2 == 2 { must(d.annotate(s, elem(ElementType::TextContent).with_attrib(class("o")).with(DataType::Text("a".into())).add_element(elem(ElementType::TextMarkupStyle).with_attrib(class("b")).with(DataType::Text(c.clone()))).with(DataType::Text("b".into())))); }
    must(d.annotate(p, elem(ElementType::Comment).with(DataType::Text("no".into()))));
    must(d.annotate(0, elem(ElementType::Sentence).with_attrib(id("s2")).with(DataType::Comment("x".into()))));
    let whole = xml_of(&d);
    // line breaks between tags are layout
    let flat: Vec<u8> = whole.iter().cloned().filter(|c| *c != b'\n').collect();
    for k in 0..nelements(&d) {
        let x = match el(&d, k as ElementKey).xml(0) { Ok(x) => x, Err(_) => fail!("an element can be serialised") };
        let part: Vec<u8> = x.bytes().filter(|c| *c != b'\n').collect();
        let mut at = None;
        for i in 0..flat.len() + 1 - part.len() { if flat[i..].starts_with(&part) { at = Some(i); break } }
        check!(at.is_some(), "the XML of an element is what the document's XML has for it");
        let (o, e) = (x.find('<') == Some(0), x.trim_end().ends_with('>'));
        check!(o && e && x.contains(el(&d, k as ElementKey).elementtype().as_str()), "the XML of an element is what the document's XML has for it");
    }
    let x = match el(&d, s).xml(0) { Ok(x) => x, Err(_) => fail!("an element can be serialised") };
    let mut body = String::from("<text>");
    body.push_str(&x);
    body.push_str("</text>");
    let start = whole.windows(6).position(|w| w == b"<text>").unwrap_or(0);
    let mut doc = String::from_utf8_lossy(&whole[..start]).to_string();
    doc.push_str(&body);
    doc.push_str("</FoLiA>");
    let e = reparse(doc.as_bytes());
    same_tree(&d, s, &e, child_keys(&e, 0)[0]);
    check!(child_keys(&e, 0).len() == 1 && data_of(&e, 0).len() == 1, "the XML of an element holds that element and nothing else");
    log(x.len() as u64);
    reach!("c01.part");
});

/// attribute number i of all that are written, text values being of one symbolic letter
fn some_attrib(i: usize) -> Attribute {
    if let Some(a) = text_attrib(i, if i < NTEXT { sstr(1, LETTER) } else { String::new() }) { return a }
    match i - NTEXT {
        0 => Attribute::Space(flag()), 1 => Attribute::NewPage(flag()), 2 => Attribute::AnnotatorType([ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource][choose(4)]),
        3 => Attribute::Offset(7), 4 => Attribute::LineNr(9), 5 => Attribute::Confidence(0.5), 6 => Attribute::Processor("p".into()),
        _ => match chrono::NaiveDate::from_ymd_opt(2020, 2, 29).and_then(|x| x.and_hms_opt(23, 59, 58)) { Some(d) => Attribute::DateTime(d), None => fail!("date") },
    }
}
const NATTR: usize = NTEXT + 8;
harness!(PAIRA_H, c01_attribute_pairs, "C01", quick [(0, 29)], thorough [(29, 58)], reach ["c01.pair"],
    "an element of one of six types with two (thorough: three) attributes of any two different kinds out of all 29, in either order, values symbolic letters or any of a few, in a document with a processor", |case| {
    let mut doc = new_doc();
    check!(doc.add_processor(Processor::new("n".to_string()).with_id("p".to_string())).is_ok(), "a processor can be added");
    let i = case as usize % NATTR;
    let j = choose(NATTR);
    assume(j != i);
    let ty = [ElementType::PosAnnotation, ElementType::Word, ElementType::Feature, ElementType::Correction, ElementType::TextContent, ElementType::Gap];
    let ty = ty[if case >= 29 { 0 } else { choose(6) }];
    let mut e = elem(ty).with_attrib(some_attrib(i)).with_attrib(some_attrib(j));
    if case >= 29 { let k = choose(NATTR); assume(k != i && k != j); e = e.with_attrib(some_attrib(k)) }
    if ty == ElementType::Feature && !e.has_attrib(AttribType::SUBSET) { e = e.with_attrib(Attribute::Subset("u".into())) }
    let mut w = elem(ElementType::PosAnnotation).with_attrib(Attribute::Set("s".into()));
    let s = must(doc.annotate(0, elem(ElementType::Sentence)));
    w = w.add_element(e);
    if doc.add_element_to(s, w).is_err() { fail!("an element the document can hold is added") }
    round_trip(&doc);
    reach!("c01.pair");
});
harness!(UNI_H, c01_unicode, "C01", quick [(0, 6)], thorough [(6, 12)], reach ["c01.unicode"],
    "a text, comment, identifier, class with set, feature, or other attribute (case mod 6) of up to two (thorough: three) symbolic characters of one to four bytes each", |case| {
    let mut doc = new_doc();
    let t = schars(2 + case as usize / 6);
    let s = must(doc.annotate(0, elem(ElementType::Sentence).with_attrib(id("s1"))));
    let pos = |a: Attribute| elem(ElementType::PosAnnotation).with_attrib(a);
    assume(t != "s1");
    match case % 6 {
        0 => { assume(t != ""); must(doc.annotate(s, elem(ElementType::TextContent).with(DataType::Text(t)))); }
        1 => { assume(t != "" && !t.contains("--") && !t.ends_with('-')); edit(&mut doc, s).push(DataType::Comment(t)) }
        2 => { must(doc.annotate(s, pos(Attribute::Id(t)))); }
        3 => { must(doc.annotate(s, pos(Attribute::Class(t.clone())).with_attrib(Attribute::Set(format!("{}x", t))))); }
        4 => { must(doc.annotate(s, pos(set("y")).add_element(elem(ElementType::Feature).with_attrib(Attribute::Class(t.clone())).with_attrib(Attribute::Subset(format!("{}x", t)))))); }
        _ => { must(doc.annotate(s, pos(Attribute::N(t)))); }
    }
    round_trip(&doc);
    reach!("c01.unicode");
});
harness!(LONG_H, c01_long, "C01", quick [(0, 7)], thorough [(7, 14)], reach ["c01.long"],
    "a text, comment, identifier, class, set, feature or other attribute (case mod 7) of one of twelve lengths up to 257 (or thorough: of seven up to 66000) characters, all of one kind ('a', '&' or a three byte character) but for one symbolic character at the beginning, in the middle or at the end", |case| {
    let mut doc = new_doc();
    let n = if case < 7 { LENGTHS[choose(LENGTHS.len())] } else { LONG_LENGTHS[choose(LONG_LENGTHS.len())] };
    let t = slong(n, ["a", "&", "\u{3042}"][choose(3)]);
    let s = must(doc.annotate(0, elem(ElementType::Sentence).with_attrib(id("s1"))));
    let pos = |a: Attribute| elem(ElementType::PosAnnotation).with_attrib(a);
    match case % 7 {
        0 => { must(doc.annotate(s, elem(ElementType::TextContent).with(DataType::Text(t)))); }
        1 => { assume(!t.contains("--") && !t.ends_with('-')); edit(&mut doc, s).push(DataType::Comment(t)) }
        2 => { must(doc.annotate(s, pos(Attribute::Id(t)))); }
        3 => { must(doc.annotate(s, pos(Attribute::Class(t)).with_attrib(set("x")))); }
        4 => { must(doc.annotate(s, pos(Attribute::Set(t)))); }
        5 => { must(doc.annotate(s, pos(set("y")).add_element(elem(ElementType::Feature).with_attrib(Attribute::Class(t.clone())).with_attrib(Attribute::Subset(t))))); }
        _ => { must(doc.annotate(s, pos(Attribute::Href(t)))); }
    }
    round_trip(&doc);
    reach!("c01.long");
});
harness!(REAL_H, c01_real, "C01", quick [(0, 7)], thorough [], reach ["c01.real"],
    "a text, comment, identifier, class, set, feature or other attribute (case) that is one of six strings as they occur in documents (URLs, numbers, dates, escaped characters and the like) with a symbolic character more, in place of one, or one fewer at any position", |case| {
    let mut doc = new_doc();
    let t = near_any(REAL[choose(REAL.len())], TEXT);
    let s = must(doc.annotate(0, elem(ElementType::Sentence).with_attrib(id("s1"))));
    let pos = |a: Attribute| elem(ElementType::PosAnnotation).with_attrib(a);
    match case {
        0 => { must(doc.annotate(s, elem(ElementType::TextContent).with(DataType::Text(t)))); }
        1 => { assume(!t.contains("--") && !t.ends_with('-')); edit(&mut doc, s).push(DataType::Comment(t)) }
        2 => { must(doc.annotate(s, pos(Attribute::Id(t)))); }
        3 => { must(doc.annotate(s, pos(Attribute::Class(t)).with_attrib(set("x")))); }
        4 => { must(doc.annotate(s, pos(Attribute::Set(t)))); }
        5 => { must(doc.annotate(s, pos(set("y")).add_element(elem(ElementType::Feature).with_attrib(Attribute::Class(t.clone())).with_attrib(Attribute::Subset(t))))); }
        _ => { must(doc.annotate(s, pos(Attribute::N(t)))); }
    }
    round_trip(&doc);
    reach!("c01.real");
});
harness!(FILE_H, c01_file, "C01", quick [(0, 8)], thorough [], reach ["c01.file"],
    "a text, text before, in or after markup, a comment, a class, an identifier, or a text in another alphabet (case) of one or two symbolic characters, written to a file and read from there: the same document, and the same as from the string", |case| {
    let mut doc = new_doc();
    let v = if case == 7 { schars(2) } else { sstr(1 + choose(2), TEXT) };
    assume(v.trim() != "");
    let g = |i: u64| if i == case { v.clone() } else { " k ".to_string() };
    let s = must(doc.annotate(0, elem(ElementType::Sentence).with_attrib(id("s1")).with_text(g(0))));
    let w = must(doc.annotate(s, elem(ElementType::Word)));
    must(doc.annotate(w, elem(ElementType::TextContent).with(DataType::Text(g(1))).add_element(elem(ElementType::TextMarkupStyle).with(DataType::Text(g(2)))).with(DataType::Text(g(3)))));
    assume(case != 4 || !v.ends_with('-') && !v.contains("--"));
    edit(&mut doc, s).push(DataType::Comment(g(4)));
    must(doc.annotate(w, elem(ElementType::PosAnnotation).with_attrib(set("q")).with_attrib(Attribute::Class(g(5)))));
    assume(case != 6 || v != "s1" && v != "doc.text");
    must(doc.annotate(w, elem(ElementType::LemmaAnnotation).with_attrib(set("q")).with_attrib(Attribute::Class(g(7))).with_attrib(Attribute::Id(g(6)))));
    let x = xml_of(&doc);
    let f = match Document::from_file(&file(&x), DocumentProperties::default()) { Ok(d) => d, Err(_) => fail!("a serialised document parses again") };
    same_tree(&doc, 0, &f, 0);
    check!(xml_of(&f) == x, "round trip: serialising the re-parsed document gives the same XML");
    let e = round_trip(&doc);
    same_tree(&e, 0, &f, 0);
    reach!("c01.file");
});
harness!(BODY_H, c01_body, "C01", quick [(0, 58)], thorough [], reach ["c01.body"],
    "a text or a speech body (case / 29) with two attributes, one given by the case, the other any of all 29 (those that are written as they are), values symbolic letters or any of a few, with a sentence or with nothing", |case| {
    let mut doc = match Document::new("doc", DocumentProperties::default().with_bodytype(if case < 29 { BodyType::Text } else { BodyType::Speech })) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let (i, j) = (case as usize % NATTR, choose(NATTR));
    assume(i != j);
    for k in [i, j] { let a = some_attrib(k); assume(!a.encodable()); edit(&mut doc, 0).set_attrib(a) }
    if flag() { must(doc.annotate(0, elem(ElementType::Sentence).with_text("k".into()))); }
    round_trip(&doc);
    reach!("c01.body");
});
harness!(NESTMIX_H, c01_nested_text, "C01", quick [(0, 15)], thorough [(15, 30)], reach ["c01.nestmix"],
    "an element of one of three types (an annotation, a text, a description) holding anything made in up to five (thorough: six) steps out of: begin a plain element, begin a text markup element, a text of one symbolic letter, a comment, end the innermost element; the first step is given by the case", |case| {
    let mut doc = new_doc();
    let s = must(doc.annotate(0, elem(ElementType::Sentence)));
    let mut stack = vec![elem([ElementType::PosAnnotation, ElementType::TextContent, ElementType::Description][case as usize % 3])];
    let (mut textbefore, mut first) = (false, Some((case as usize / 3) % 5));
    for _ in 0..5 + case / 15 {
        let k = match first.take() { Some(k) => k, None => choose(5) };
        match k {
            0 => stack.push(elem(if stack.len() & 1 == 0 { ElementType::Description } else { ElementType::Comment })),
            1 => stack.push(elem(ElementType::TextMarkupStyle)),
            2 => { assume(!textbefore); let e = match stack.pop() { Some(e) => e, None => return }; stack.push(e.with(DataType::Text(sstr(1, LETTER)))) }
            3 => { let e = match stack.pop() { Some(e) => e, None => return }; stack.push(e.with(DataType::Comment("c".into()))) }
            _ => { if stack.len() < 2 { break } let e = match stack.pop() { Some(e) => e, None => return }; let f = match stack.pop() { Some(e) => e, None => return }; stack.push(f.add_element(e)) }
        }
        textbefore = k == 2;
    }
    while stack.len() > 1 { let e = match stack.pop() { Some(e) => e, None => return }; let f = match stack.pop() { Some(e) => e, None => return }; stack.push(f.add_element(e)) }
    let e = match stack.pop() { Some(e) => e, None => return };
    must(doc.add_element_to(s, e));
    round_trip(&doc);
    reach!("c01.nestmix");
});
harness!(FEATR_H, c01_features_rich, "C01", quick [(0, 12)], thorough [], reach ["c01.featr"],
    "an annotation with or without set, class and processor, and in it a feature with or without set (the same or another), subset, class and processor; in a document with one or two processors (case mod 2), with no, one or two other annotations of the type before or after it (case / 2)", |case| {
    let mut doc = new_doc();
    let np = 1 + case as usize % 2;
    for i in 0..np { check!(doc.add_processor(Processor::new("n".to_string()).with_id(format!("p{}", i))).is_ok(), "a processor can be added") }
    let s = must(doc.annotate(0, elem(ElementType::Sentence)));
    let anyproc = |e: ElementData| { let k = choose(np + 1); if k == 0 { e } else { e.with_attrib(Attribute::Processor(format!("p{}", k - 1))) } };
    let other = |d: &mut Document, x: &str| { must(d.annotate(s, elem(ElementType::PosAnnotation).with_attrib(class("o")).with_attrib(set(x)).with_attrib(Attribute::Processor("p0".into())))); };
    match case / 2 { 1 => other(&mut doc, "x"), 2 => other(&mut doc, "y"), 3 => { other(&mut doc, "x"); other(&mut doc, "y") } _ => {} }
    let mut e = elem(ElementType::PosAnnotation);
    if flag() { e = e.with_attrib(set("x")) }
    if flag() { e = e.with_attrib(class("c")) }
    e = anyproc(e);
    let mut f = elem(ElementType::Feature);
    match choose(3) { 0 => {} 1 => f = f.with_attrib(set("x")), _ => f = f.with_attrib(set("z")) }
    if flag() { f = f.with_attrib(Attribute::Subset(sstr(1, LETTER))) }
    match choose(3) { 0 => {} 1 => f = f.with_attrib(class("g")), _ => f = f.with_attrib(class("c")) }
    f = anyproc(f);
    let e = e.add_element(f);
    if doc.annotate(s, e).is_err() { return }
    if case / 2 == 4 { other(&mut doc, "x") }
    if case / 2 == 5 { other(&mut doc, "y") }
    round_trip(&doc);
    reach!("c01.featr");
});
harness!(CONTENT_H, c01_content, "C01", quick [(0, 3)], thorough [(3, 6)], reach ["c01.content"],
    "an element of every type (one third of them per case) that can stand on its own holding two items, and three (thorough: four) if it is a text container, each a text, a comment, a description or a text markup element (which is of the same type if it is one itself); with text after it or not", |case| {
    let types: Vec<ElementType> = all_types().into_iter().filter(|t| *t != ElementType::WordReference && *t != ElementType::Feature && !in_group(ElementGroup::Feature, *t)).collect();
    let ty = types[choose((types.len() + 2 - case as usize % 3) / 3) * 3 + case as usize % 3];
    let mut doc = new_doc();
    let s = must(doc.annotate(0, elem(ElementType::Sentence)));
    let mut e = elem(ty);
    let container = props(ty).textcontainer;
    let n = 2 + (container || case >= 3) as usize + (case >= 3 && container) as usize;
    let mut textbefore = false;
    for i in 0..n {
        let k = choose(if textbefore { 3 } else { 4 });
        textbefore = k == 3;
        e = match k { 0 => e.with(DataType::Comment(format!("c{}", i))), 1 => e.add_element(elem(ElementType::Description).with(DataType::Text("d".into()))), 2 => e.add_element(elem(if container { ty } else { ElementType::TextMarkupString }).with(DataType::Text("m".into())).with(DataType::Comment("n".into()))), _ => e.with(DataType::Text(sstr(1, LETTER))) };
    }
    if flag() { e = elem(ElementType::TextContent).add_element(e).with(DataType::Text("z".into())) }
    must(doc.add_element_to(s, e));
    round_trip(&doc);
    reach!("c01.content");
});
pub const ALL: &[H] = &[BODY_H, REAL_H, FILE_H, NESTMIX_H, FEATR_H, PAIRA_H, UNI_H, LONG_H, TEXT_H, UTF8_H, ATTR_H, ATTRNUM_H, TYPES_H, TREE_H, MIX2_H, MIX3_H, MARKUP_H, WHITE_H, COMMENT_H, FEAT_H, SPAN_H, HEADER_H, PART_H, CONTENT_H];
