//! C04: set, class, subset and processor read back exactly as given
use crate::model::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

fn word(d: &mut Document) -> ElementKey { let s = must(d.annotate(0, elem(ElementType::Sentence))); must(d.annotate(s, elem(ElementType::Word))) }
fn mixed(n: usize, len: usize, dom: Dom, types: &[ElementType], orphan: bool) {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    for i in 0..n {
        let t = types[if i == 0 { 0 } else { choose(types.len()) }];
        let at = match t.annotationtype() { Some(a) => a, None => fail!("the type has an annotation type") };
        let (s, c) = (maybe(len, dom), maybe(len, dom));
        let e = with(elem(t), &s, &c, &None);
        let k = must(if orphan { d.add_element(e) } else { d.annotate(w, e) });
        let x = m.element(at, sref(&s), sref(&c), None);
        m.push(x, k);
        m.agree(&d);
    }
    m.agree_declarations(&d);
}
const TWO: [ElementType; 2] = [ElementType::PosAnnotation, ElementType::LemmaAnnotation];
harness!(MIX_H, c04_mixed, "C04", quick [(0, 2)], thorough [(2, 3)], reach ["c04.mixed"],
    "three or four (thorough: five) annotations of two annotation types, each with or without a set and a class of one symbolic character; everything is read back after every addition", |case| {
    mixed(3 + case as usize, 1, LETTER, &TWO, false);
    reach!("c04.mixed");
});
harness!(LONG_H, c04_long, "C04", quick [(2, 4)], thorough [(4, 6)], reach ["c04.long"],
    "two annotations with or without sets and classes of 2 or 3 (thorough: 4, 5) printable characters", |case| {
    mixed(2, case as usize, VISIBLE, &TWO, false);
    reach!("c04.long");
});

harness!(TYPES_H, c04_types, "C04", quick [(0, 16)], thorough [], reach ["c04.types"],
    "every element type that has an annotation type (one sixteenth per case), and a second element of any such type; with symbolic sets and classes; both read back", |case| {
    let all: Vec<ElementType> = all_types().into_iter().filter(|t| t.annotationtype().is_some()).collect();
    let n = (all.len() + 15) / 16;
    let i = case as usize * n + choose(n);
    assume(i < all.len());
    let t = all[i];
    let u = all[choose(all.len())];
    let mut d = bare();
    let mut m = Model::default();
    for t in [t, u] {
        let at = match t.annotationtype() { Some(a) => a, None => fail!("the type has an annotation type") };
        let (s, c) = (maybe(1, LETTER), Some(sstr(1, LETTER)));
        let k = must(d.add_element(with(elem(t), &s, &c, &None)));
        let x = m.element(at, sref(&s), sref(&c), None);
        m.push(x, k);
        m.agree(&d);
    }
    reach!("c04.types");
});

harness!(FEAT_H, c04_features, "C04", quick [(0, 8)], thorough [], reach ["c04.feat"],
    "one or two annotations with symbolic sets and classes, each with one or two features of symbolic subset and class, optionally naming a set of their own; added together with the annotation or afterwards", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    let later = case & 1 == 1;
    let own = case & 2 == 2;
    let two = case & 4 == 4;
    for i in 0..if two { 2 } else { 1 + flag() as usize } {
        let t = TWO[i];
        let at = match t.annotationtype() { Some(a) => a, None => fail!("the type has an annotation type") };
        let (s, c) = (maybe(1, LETTER), Some(sstr(1, LETTER)));
        let mut e = with(elem(t), &s, &c, &None);
        let n = if two { 1 } else { 2 };
        let fs: Vec<(Option<String>, String, String)> = (0..n).map(|_| (if own { maybe(1, LETTER) } else { None }, sstr(1, LETTER), sstr(1, LETTER))).collect();
        if !later { for f in fs.iter() { e = e.add_element(feat(&f.0, &f.1, &f.2)) } }
        let k = must(d.annotate(w, e));
        let x = m.element(at, sref(&s), sref(&c), None);
        let dec = x.dec;
        m.push(x, k);
        for (j, f) in fs.iter().enumerate() {
            let fk = if later { must(d.annotate(k, feat(&f.0, &f.1, &f.2))) } else { child_keys(&d, k)[j] };
            let dk = match &f.0 { None => dec, Some(s) => Some(m.declare(at, Some(s))) };
            let set = match dk { Some(i) => m.decs[i].set.clone(), None => None };
            m.push(MEl { key: 0, set, class: Some(f.2.clone()), subset: Some(f.1.clone()), proc: None, dec: dk }, fk);
        }
        m.agree(&d);
    }
    m.agree_declarations(&d);
    reach!("c04.feat");
});

fn attr(x: &mut String, n: &str, v: &Option<String>) { if let Some(v) = v { x.push(' '); x.push_str(n); x.push_str("=\""); x.push_str(v); x.push('"') } }
harness!(PARSE_H, c04_parsed, "C04", quick [(0, 8)], thorough [], reach ["c04.parsed"],
    "a parsed document declaring two part-of-speech sets (or one, or none) and a lemma set, with two annotations and a feature whose sets, classes and subsets are symbolic letters or absent", |case| {
    let c = case as usize;
    let mut decl = String::new();
    let mut m = Model::default();
    let mut names: Vec<String> = vec![];
    for _ in 0..(c & 3) {
        let s = sstr(1, LETTER);
        for n in names.iter() { assume(n != &s) }
        decl.push_str("<pos-annotation set=\""); decl.push_str(&s); decl.push_str("\"/>");
        m.declare(AnnotationType::POS, Some(&s));
        names.push(s);
    }
    let (s1, c1, s2, c2) = (maybe(1, LETTER), maybe(1, LETTER), maybe(1, LETTER), Some(sstr(1, LETTER)));
    let (fs, fc) = (sstr(1, LETTER), sstr(1, LETTER));
    let second = if c & 4 == 4 { ElementType::LemmaAnnotation } else { ElementType::PosAnnotation };
    let mut b = String::from("<s><w><pos");
    attr(&mut b, "set", &s1); attr(&mut b, "class", &c1);
    b.push_str("></pos></w><w><"); b.push_str(second.as_str());
    attr(&mut b, "set", &s2); attr(&mut b, "class", &c2);
    b.push_str("><feat subset=\""); b.push_str(&fs); b.push_str("\" class=\""); b.push_str(&fc);
    b.push_str("\"/></"); b.push_str(second.as_str()); b.push_str("></w></s>");
    let d = match parse_plain(&folia_xml(&decl, &b)) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    let s = child_keys(&d, 0)[0];
    let ws = child_keys(&d, s);
    let (a, z) = (child_keys(&d, ws[0])[0], child_keys(&d, ws[1])[0]);
    let f = child_keys(&d, z)[0];
    let at = |t: ElementType| match t.annotationtype() { Some(a) => a, None => fail!("the type has an annotation type") };
    let x = m.element(AnnotationType::POS, sref(&s1), sref(&c1), None);
    m.push(x, a);
    let x = m.element(at(second), sref(&s2), sref(&c2), None);
    let (set, dec) = (x.set.clone(), x.dec);
    m.push(x, z);
    m.push(MEl { key: 0, set, class: Some(fc), subset: Some(fs), proc: None, dec }, f);
    m.agree(&d);
    reach!("c04.parsed");
});

harness!(PROC_H, c04_processors, "C04", quick [(0, 2)], thorough [], reach ["c04.proc"],
    "two processors with symbolic identifiers; two annotations naming a symbolic processor (known or not) or none, with the same or another set", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    for i in 0..2 {
        let p = sstr(1, LETTER);
        for q in m.procs.iter() { assume(q != &p) }
        match d.add_processor(Processor::new(format!("p{}", i)).with_id(p.clone())) { Ok(_) => m.procs.push(p), Err(_) => fail!("a processor can be added") }
    }
    for _ in 0..2 {
        let (s, c, p) = (if case == 1 { maybe(1, LETTER) } else { Some("s".to_string()) }, Some(sstr(1, LETTER)), maybe(1, LETTER));
        let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &s, &c, &p)));
        let x = m.element(AnnotationType::POS, sref(&s), sref(&c), sref(&p));
        m.push(x, k);
        m.agree(&d);
    }
    m.agree_declarations(&d);
    reach!("c04.proc");
});

harness!(OTHER_H, c04_other_attributes, "C04", quick [(0, 1)], thorough [], reach ["c04.other"],
    "an annotation with set, class and three other attributes (symbolic values) in any of several orders: all others stay as given", |case| {
    let _ = case;
    let mut d = bare();
    let w = word(&mut d);
    let (s, c, n, i, b) = (sstr(2, LETTER), sstr(2, LETTER), sstr(2, VISIBLE), sstr(2, LETTER), sstr(2, VISIBLE));
    let mut at = vec![Attribute::Set(s.clone()), Attribute::N(n.clone()), Attribute::Class(c.clone()), Attribute::Id(i.clone()), Attribute::BeginTime(b.clone())];
    let r = choose(5);
    at.rotate_left(r);
    if flag() { at.swap(0, 3) }
    if flag() { at.swap(1, 4) }
    let mut e = elem(ElementType::PosAnnotation);
    for a in at { e = e.with_attrib(a) }
    let k = must(d.annotate(w, e));
    let x = el(&d, k);
    check!(opt_eq(x.set(), Some(&s)) && opt_eq(x.class(), Some(&c)), "set and class read back as given");
    check!(opt_eq(x.id(), Some(&i)), "the identifier reads back as given");
    check!(x.attrib(AttribType::N) == Some(&Attribute::N(n)) && x.attrib(AttribType::BEGINTIME) == Some(&Attribute::BeginTime(b)), "other attributes read back as given");
    let dec = match x.get_declaration() { Some(d) => d, None => fail!("an element with a set has a declaration") };
    check!(dec.annotationtype == AnnotationType::POS, "an element's declaration is of its annotation type");
    reach!("c04.other");
});
harness!(RAW_H, c04_data, "C04", quick [(0, 4)], thorough [], reach ["c04.data"],
    "the data of an element with any of set, class, processor, subset and another attribute (symbolic letters), rotated in any way, before and after it is added: what it says of its set, class, subset and processor is what was given, then only keys, whose strings are those", |case| {
    let mut d = bare();
    let w = word(&mut d);
    check!(d.add_processor(Processor::new("n".to_string()).with_id("p".to_string())).is_ok(), "a processor can be added");
    let feature = case & 1 == 1;
    let (s, c, p) = (maybe(1, LETTER), maybe(1, LETTER), if case & 2 == 2 { Some("p".to_string()) } else { None });
    let u = if feature { maybe(1, LETTER) } else { None };
    let mut at = vec![Attribute::N("n".to_string())];
    if let Some(s) = &s { at.push(Attribute::Set(s.clone())) }
    if let Some(s) = &c { at.push(Attribute::Class(s.clone())) }
    if let Some(s) = &p { at.push(Attribute::Processor(s.clone())) }
    if let Some(s) = &u { at.push(Attribute::Subset(s.clone())) }
    let r = choose(at.len());
    at.rotate_left(r);
    if flag() { at.reverse() }
    let t = if feature { ElementType::Feature } else { ElementType::PosAnnotation };
    let e = elem(t).with_attribs(at);
    check!(matches!(e.set(), Ok(x) if opt_eq(x, sref(&s))) && matches!(e.class(), Ok(x) if opt_eq(x, sref(&c))), "the data of a new element says what was given");
    check!(matches!(e.processor(), Ok(x) if opt_eq(x, sref(&p))) && matches!(e.subset(), Ok(x) if opt_eq(x, sref(&u))), "the data of a new element says what was given");
    check!(e.encodable() == (s.is_some() || c.is_some() || p.is_some() || u.is_some()) && !e.attribs().iter().any(|a| a.decodable()), "the data of a new element says what was given");
    let under = if feature { must(d.annotate(w, with(elem(ElementType::PosAnnotation), &Some("S".to_string()), &None, &None))) } else { w };
    let k = must(d.annotate(under, e));
    let x = el(&d, k);
    let set = if feature && s.is_none() { if u.is_some() || c.is_some() || p.is_some() { Some("S".to_string()) } else { None } } else { s };
    check!(opt_eq(x.set(), sref(&set)) && opt_eq(x.class(), sref(&c)) && opt_eq(x.subset(), sref(&u)) && opt_eq(x.processor(), sref(&p)), "set, class, subset and processor read back as given");
    let y = match Store::<ElementData, ElementKey>::get(&d, k) { Some(y) => y, None => fail!("an element that was added can be retrieved by its key") };
    let kept = x.declaration_key().is_some();
    check!(y.attribs().iter().any(|a| a.decodable()) == kept && !y.encodable(), "an added element holds keys only");
    check!(y.set().is_err() == kept && y.class().is_err() == kept && y.subset().is_err() == kept && y.processor().is_err() == kept, "an added element holds keys only");
    let dec = x.get_declaration();
    check!(matches!(y.declaration_key(), Ok(z) if z == x.declaration_key() && z.is_some() == dec.is_some()), "the keys of an element are those of its strings");
    check!(matches!(y.class_key(), Ok(z) if z == x.class_key() && opt_eq(z.and_then(|z| dec.and_then(|d| if u.is_some() { d.get_subclass(z) } else { d.get_class(z) })), sref(&c))), "the keys of an element are those of its strings");
    check!(matches!(y.subset_key(), Ok(z) if z == x.subset_key() && opt_eq(z.and_then(|z| dec.and_then(|d| d.get_subset(z))), sref(&u))), "the keys of an element are those of its strings");
    check!(matches!(y.processor_key(), Ok(z) if z == x.processor_key() && opt_eq(z.and_then(|z| d.get_processor(z)).map(|p| p.id.as_str()), sref(&p))), "the keys of an element are those of its strings");
    reach!("c04.data");
});
harness!(VAL_H, c04_values, "C04", quick [(0, 3)], thorough [(3, 4)], reach ["c04.values"],
    "two annotations with a feature each, their sets, classes, subsets and feature classes empty, or of one (case 1: or two, thorough: three) symbolic characters of one to four bytes, or (case 2) of one of twelve lengths up to 257 characters that differ in one symbolic character only", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    let which = choose(4);
    let v = || match case { 0 => schars(1), 1 => schars(2), 2 => String::new(), _ => schars(3) };
    // one of the four differs, the others are given
    let len = LENGTHS[if case == 2 { choose(LENGTHS.len()) } else { 0 }];
    for _ in 0..2 {
        let x = if case == 2 { slong(len, "a") } else { v() };
        let g = |i: usize| if i == which { x.clone() } else { "k".to_string() };
        let (s, c, u, f) = (Some(g(0)), Some(g(1)), g(2), g(3));
        let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &s, &c, &None).add_element(feat(&None, &u, &f))));
        let x = m.element(AnnotationType::POS, sref(&s), sref(&c), None);
        let (set, dec) = (x.set.clone(), x.dec);
        m.push(x, k);
        m.push(MEl { key: 0, set, class: Some(f), subset: Some(u), proc: None, dec }, child_keys(&d, k)[0]);
        m.agree(&d);
    }
    m.agree_declarations(&d);
    reach!("c04.values");
});
harness!(MANY_H, c04_many, "C04", quick [(0, 4)], thorough [(4, 8)], reach ["c04.many"],
    "70 (or 300, thorough: 1100) annotations, each with a class, a set, a feature class or a subset (case mod 4) of its own, among them those of any one or two symbolic digits; a further one with one of one or two symbolic digits; all read back", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let n = if case >= 4 { 1100usize } else { [70, 300][choose(2)] };
    let make = |v: &str| -> ElementData {
        let g = |i: u64| if i == case % 4 { v.to_string() } else { "k".to_string() };
        with(elem(ElementType::PosAnnotation), &Some(g(1)), &Some(g(0)), &None).add_element(feat(&None, &g(3), &g(2)))
    };
    let read = |d: &Document, k: ElementKey| -> Option<String> { let f = el(d, child_keys(d, k)[0]); let e = el(d, k); match case % 4 { 0 => e.class(), 1 => if opt_eq(e.set(), f.set()) { e.set() } else { None }, 2 => f.class(), _ => f.subset() }.map(|s| s.to_string()) };
    let mut ks = vec![];
    for i in 0..n { ks.push(must(d.annotate(w, make(&format!("{}", i))))) }
    let digits = sstr(1 + choose(2), Dom::range(b'0', b'9'));
    let k = must(d.annotate(w, make(&digits)));
    check!(opt_eq(sref(&read(&d, k)), Some(&digits)), "set, class, subset and processor read back as given");
    for (i, k) in ks.iter().enumerate() { if i % 5 == 0 || i > 250 { check!(opt_eq(sref(&read(&d, *k)), Some(&format!("{}", i))), "set, class, subset and processor read back as given") } }
    reach!("c04.many");
});
harness!(NEAR_H, c04_near, "C04", quick [(0, 10)], thorough [(10, 15)], reach ["c04.near"],
    "two annotations with a feature each, whose classes, sets, subsets, feature classes or processors (case mod 5) are alike: one is a string of 1, 4, 9, 20, 40, 130 or 260 (thorough: of any length up to 24) characters, the other has a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or is it twice (with a symbolic character between or not); or (cases 5-9) one of six as they occur in documents, and a character more, other or fewer at any position", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    let real = case / 5 == 1;
    let a = if real { REAL[choose(REAL.len())].to_string() } else { sample(if case < 5 { [1, 4, 9, 20, 40, 130, 260][choose(7)] } else { 1 + choose(24) }) };
    let b = if real { near_any(&a, VISIBLE) } else { near(&a, VISIBLE) };
    let which = case % 5;
    if which == 4 { for p in [&a, &b].iter() { assume(!m.procs.contains(*p)); check!(d.add_processor(Processor::new("n".to_string()).with_id(p.to_string())).is_ok(), "a processor can be added"); m.procs.push(p.to_string()) } }
    for x in if flag() { [&a, &b] } else { [&b, &a] }.iter() {
        let g = |i: u64| if i == which { x.to_string() } else { "k".to_string() };
        let (s, c, u, f) = (Some(g(0)), Some(g(1)), g(2), g(3));
        let p = if which == 4 { Some(x.to_string()) } else { None };
        let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &s, &c, &p).add_element(feat(&None, &u, &f))));
        let x = m.element(AnnotationType::POS, sref(&s), sref(&c), sref(&p));
        let (set, dec) = (x.set.clone(), x.dec);
        m.push(x, k);
        let fk = child_keys(&d, k)[0];
        let y = el(&d, fk);
        check!(opt_eq(y.set(), sref(&set)) && opt_eq(y.subset(), Some(&u)) && opt_eq(y.class(), Some(&f)) && y.declaration_key().map(|k| k as usize) == dec, "set, class, subset and processor read back as given");
        m.agree(&d);
    }
    m.agree_declarations(&d);
    reach!("c04.near");
});
harness!(BAREF_H, c04_feature_parts, "C04", quick [(0, 4)], thorough [(4, 8)], reach ["c04.parts"],
    "an annotation with or without set and class, with two (thorough: three) features each with or without set, subset and class, all of one of two symbolic letters, added with it or afterwards; one more annotation before or after", |case| {
    let mut d = bare();
    let w = word(&mut d);
    let mut m = Model::default();
    let (later, before) = (case & 1 == 1, case & 2 == 2);
    let (x, y) = (sstr(1, LETTER), sstr(1, LETTER));
    let any = || match choose(3) { 0 => None, 1 => Some(x.clone()), _ => Some(y.clone()) };
    let other = |d: &mut Document, m: &mut Model| { let k = must(d.annotate(w, with(elem(ElementType::PosAnnotation), &Some(y.clone()), &Some(x.clone()), &None))); let e = m.element(AnnotationType::POS, Some(&y), Some(&x), None); m.push(e, k) };
    if before { other(&mut d, &mut m) }
    let (s, c) = (maybe(1, Dom::of(b"q")), any());
    assume(s.is_some() || c.is_some());
    let n = 2 + (case >= 4) as usize;
    let fs: Vec<(Option<String>, Option<String>, Option<String>)> = (0..n).map(|i| (if i == 0 && flag() { Some(y.clone()) } else { None }, any(), any())).collect();
    let make = |f: &(Option<String>, Option<String>, Option<String>)| { let e = with(elem(ElementType::Feature), &f.0, &f.2, &None); match &f.1 { Some(u) => e.with_attrib(Attribute::Subset(u.clone())), None => e } };
    let mut e = with(elem(ElementType::PosAnnotation), &s, &c, &None);
    if !later { for f in fs.iter() { e = e.add_element(make(f)) } }
    let k = must(d.annotate(w, e));
    let e = m.element(AnnotationType::POS, sref(&s), sref(&c), None);
    let dec = e.dec;
    m.push(e, k);
    for (j, f) in fs.iter().enumerate() {
        let fk = if later { must(d.annotate(k, make(f))) } else { child_keys(&d, k)[j] };
        if f.0.is_none() && f.1.is_none() && f.2.is_none() { m.push(MEl::default(), fk); continue }
        let dk = match &f.0 { None => dec, Some(s) => Some(m.declare(AnnotationType::POS, Some(s))) };
        let set = match dk { Some(i) => m.decs[i].set.clone(), None => None };
        m.push(MEl { key: 0, set, class: f.2.clone(), subset: f.1.clone(), proc: None, dec: dk }, fk);
    }
    if !before { other(&mut d, &mut m) }
    m.agree(&d);
    m.agree_declarations(&d);
    reach!("c04.parts");
});
pub const ALL: &[H] = &[BAREF_H, NEAR_H, VAL_H, MANY_H, RAW_H, MIX_H, LONG_H, TYPES_H, FEAT_H, PARSE_H, PROC_H, OTHER_H];
