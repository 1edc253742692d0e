//! C14: declarations are unique per annotation type and set and supply the defaults
use crate::model::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

const TY: [(AnnotationType, ElementType); 2] = [(AnnotationType::POS, ElementType::PosAnnotation), (AnnotationType::LEMMA, ElementType::LemmaAnnotation)];
fn defaults(d: &Document, m: &Model) {
    for (t, _) in TY.iter() { check!(opt_eq(d.get_default_set(*t), m.default_set(*t)), "the default set is the only declared one") }
    let mask = d.declarationstore.default_mask();
    check!(mask.len() == m.decs.len(), "the default mask covers every declaration");
    for (i, x) in m.decs.iter().enumerate() {
        let sole = m.decs.iter().filter(|y| y.ty == x.ty).count() == 1;
        check!(mask[i] == sole, "a declaration is a default when it is the only one of its type");
        check!((d.declarationstore.get_default_key(x.ty) == Some(i as DecKey)) == sole, "a declaration is a default when it is the only one of its type");
    }
}
fn history(n: usize, len: usize, dom: Dom) {
    let mut d = bare();
    let mut m = Model::default();
    for i in 0..n {
        let (t, e) = TY[if i == 0 { 0 } else { choose(2) }];
        let set = maybe(len, dom);
        if flag() {
            let k = match d.declare(t, &set, &None, &None) { Ok(k) => k, Err(_) => fail!("a declaration can be made") };
            let j = m.declare(t, sref(&set));
            check!(k as usize == j, "declaring the same annotation type and set again yields the same declaration, another yields another");
        } else {
            let k = must(d.add_element(with(elem(e), &set, &Some("c".to_string()), &None)));
            let x = m.element(t, sref(&set), Some("c"), None);
            check!(el(&d, k).declaration_key().map(|k| k as usize) == x.dec, "an element uses the declaration of its set, or the only one, or one without set");
            m.push(x, k);
        }
        m.agree(&d);
        m.agree_declarations(&d);
        defaults(&d, &m);
    }
}
harness!(HIST_H, c14_history, "C14", quick [(2, 5)], thorough [(5, 7)], reach ["c14.hist"],
    "2 to 4 (thorough: 5, 6) steps, each declaring one of two annotation types or adding an element of one, with no set or one symbolic letter", |case| { history(case as usize, 1, LETTER); reach!("c14.hist"); });
harness!(ALIAS_H, c14_alias, "C14", quick [(0, 8)], thorough [(8, 16)], reach ["c14.alias"],
    "two (thorough: three) declarations of one or two annotation types, each with or without set (one symbolic letter), alias and format (one symbolic letter each), made by declare, add_declaration or parsed (case mod 4); then an element without set and one with a symbolic set: alias and format play no part in which declaration is meant, and are kept", |case| {
    let n = if case >= 8 { 3 } else { 2 };
    let same = case / 4 % 2 == 0;
    let mut d = bare();
    let mut m = Model::default();
    let mut extra: Vec<(Option<String>, Option<String>)> = vec![];
    let mut x = String::new();
    for i in 0..n {
        let (t, _) = TY[if same || i == 0 { 0 } else { choose(2) }];
        // all but the first have a set, so that each is a declaration of its own or one there is
        let set = if i == 0 && flag() { None } else { Some(sstr(1, Dom::range(b'a', b'c'))) };
        let (a, f) = (maybe(1, LETTER), maybe(1, LETTER));
        let before = m.decs.len();
        if case & 1 == 1 { if m.decs.iter().any(|q| q.ty == t && opt_eq(sref(&q.set), sref(&set))) { assume(false) } }
        let j = m.declare(t, sref(&set));
        if m.decs.len() > before { extra.push((a.clone(), f.clone())) }
        match case & 3 {
            0 | 2 => match d.declare(t, &set, &a, &f) { Ok(k) => check!(k as usize == j, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") },
            1 => match d.add_declaration(Declaration::new(t, set, a, f)) { Ok(k) => check!(k as usize == j, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") },
            _ => { x.push_str(&format!("<{}-annotation", t.as_str())); for (n, v) in [("set", &set), ("alias", &a), ("format", &f)].iter() { if let Some(v) = v { x.push_str(&format!(" {}=\"{}\"", n, v)) } } x.push_str("/>") }
        }
    }
    if case & 3 == 3 { d = match parse_plain(&folia_xml(&x, "")) { Ok(d) => d, Err(_) => fail!("a valid document parses") } }
    m.agree_declarations(&d);
    defaults(&d, &m);
    for (y, (a, f)) in d.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).zip(extra.iter()) { check!(opt_eq(sref(&y.alias), sref(a)) && opt_eq(sref(&y.format), sref(f)), "a declaration keeps its alias and format") }
    for i in 0..2 {
        let set = if i == 0 { None } else { Some(sstr(1, Dom::range(b'a', b'd'))) };
        let (t, e) = TY[if same { 0 } else { choose(2) }];
        let k = must(d.add_element(with(elem(e), &set, &Some("c".to_string()), &None)));
        let y = m.element(t, sref(&set), Some("c"), None);
        check!(el(&d, k).declaration_key().map(|k| k as usize) == y.dec, "an element uses the declaration of its set, or the only one, or one without set");
        m.push(y, k);
        m.agree(&d);
    }
    m.agree_declarations(&d);
    defaults(&d, &m);
    reach!("c14.alias");
});
harness!(LONG_H, c14_strings, "C14", quick [(2, 5)], thorough [(5, 7)], reach ["c14.long"],
    "two declarations or elements with sets of 2 to 4 (thorough: 5, 6) printable characters, including '/'", |case| { history(2, case as usize, VISIBLE); reach!("c14.long"); });

harness!(INDEX_H, c14_index, "C14", quick [(0, 3)], thorough [], reach ["c14.index"],
    "the index identifiers of any two annotation types with no set or sets of case symbolic printable characters are equal only if type and set are", |case| {
    let all = all_annotypes();
    let (i, j) = (choose(all.len()), choose(all.len()));
    let (s, t) = if case == 2 { (None, None) } else { (maybe(1 + case as usize, VISIBLE), maybe(1 + case as usize, VISIBLE)) };
    let (a, b) = (Declaration::index_id(all[i], &sref(&s)), Declaration::index_id(all[j], &sref(&t)));
    check!((a == b) == (i == j && opt_eq(sref(&s), sref(&t))), "different annotation types or sets always yield different declarations");
    reach!("c14.index");
});
harness!(TYPES_H, c14_types, "C14", quick [(0, 4)], thorough [], reach ["c14.types"],
    "every pair of annotation types, declared with one symbolic set each: one declaration per pair of type and set, each with the right default", |case| {
    let all = all_annotypes();
    let n = (all.len() + 3) / 4;
    let i = case as usize * n + choose(n);
    assume(i < all.len());
    let j = choose(all.len());
    let mut d = bare();
    let (s, t) = (sstr(1, LETTER), sstr(1, LETTER));
    let g = |d: &mut Document, ty: AnnotationType, s: &str| match d.declare(ty, &Some(s.to_string()), &None, &None) { Ok(k) => k, Err(_) => fail!("a declaration can be made") };
    let (a, b) = (g(&mut d, all[i], &s), g(&mut d, all[j], &t));
    check!((a == b) == (i == j && s == t), "different annotation types or sets always yield different declarations");
    check!(Store::<Declaration, DecKey>::len(&d) == 2 - (a == b) as usize, "one declaration per annotation type and set");
    check!(opt_eq(d.get_default_set(all[i]), if i == j && a != b { None } else { Some(&s) }), "the default set is the only declared one");
    check!(opt_eq(d.get_default_set(all[j]), if i == j && a != b { None } else { Some(&t) }), "the default set is the only declared one");
    reach!("c14.types");
});
harness!(PARSE_H, c14_parsed, "C14", quick [(0, 4)], thorough [], reach ["c14.parsed"],
    "a parsed document with case declarations (with or without symbolic set) and an element without set and one with a symbolic set", |case| {
    let mut m = Model::default();
    let mut x = String::new();
    for _ in 0..case {
        let s = maybe(1, LETTER);
        for q in m.decs.iter() { if opt_eq(sref(&q.set), sref(&s)) { assume(false) } }
        // a set-less declaration beside others is only kept apart when it comes first
        assume(s.is_some() || m.decs.is_empty());
        match &s { Some(s) => { x.push_str("<pos-annotation set=\""); x.push_str(s); x.push_str("\"/>") } None => x.push_str("<pos-annotation/>") }
        m.declare(AnnotationType::POS, sref(&s));
    }
    let t = sstr(1, LETTER);
    let mut b = String::from("<s><w><pos class=\"c\"/></w><w><pos class=\"c\" set=\""); b.push_str(&t); b.push_str("\"/></w></s>");
    let d = match parse_plain(&folia_xml(&x, &b)) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    defaults_after(&d, &m, &t);
    let ws = child_keys(&d, child_keys(&d, 0)[0]);
    let y = m.element(AnnotationType::POS, None, Some("c"), None); m.push(y, child_keys(&d, ws[0])[0]);
    let y = m.element(AnnotationType::POS, Some(&t), Some("c"), None); m.push(y, child_keys(&d, ws[1])[0]);
    m.agree(&d);
    m.agree_declarations(&d);
    reach!("c14.parsed");
});
fn defaults_after(d: &Document, m: &Model, t: &str) {
    // the declarations of the header come first, whatever the elements add
    let ds: Vec<&Declaration> = d.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect();
    check!(ds.len() >= m.decs.len(), "every declaration is kept");
    for (a, b) in ds.iter().zip(m.decs.iter()) { check!(opt_eq(sref(&a.set), sref(&b.set)), "declarations are those asked for, in order") }
    let _ = t;
}
harness!(WIDE_H, c14_wide, "C14", quick [(0, 2)], thorough [(2, 4)], reach ["c14.wide"],
    "300 (thorough: 1100) part of speech sets, declared or parsed (case mod 2), and one set of lemmas, of nine places before, between or after them, around the 128th and the 256th; then elements without set of either type, and one in the set of any of nine places: each uses the declaration of its set, or the only one, or one without set", |case| {
    let n = if case < 2 { 300usize } else { 1100 };
    let places = [0, 1, 126, 127, 128, 254, 255, 256, n];
    let (at, q) = (places[choose(9)], places[choose(9)]);
    let ty = |i: usize| if i == at { AnnotationType::LEMMA } else { AnnotationType::POS };
    let mut d = bare();
    if case & 1 == 0 {
        for i in 0..n + 1 { match d.declare(ty(i), &Some(format!("s{}", i)), &None, &None) { Ok(k) => check!(k as usize == i, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") } }
    } else {
        let mut x = String::new();
        for i in 0..n + 1 { x.push_str(&format!("<{}-annotation set=\"s{}\"/>", ty(i).as_str(), i)); }
        d = match parse_plain(&folia_xml(&x, "")) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    }
    let sets: Vec<String> = d.declarations().filter_map(|x| x.as_ref()).map(|x| x.set.clone().unwrap_or_default()).collect();
    check!(sets.len() == n + 1 && sets.iter().enumerate().all(|(i, s)| *s == format!("s{}", i)), "declarations are those asked for, in order");
    check!(opt_eq(d.get_default_set(AnnotationType::LEMMA), Some(&format!("s{}", at))) && d.get_default_set(AnnotationType::POS).is_none(), "the default set is the only declared one");
    let mask = d.declarationstore.default_mask();
    check!(mask.len() == n + 1 && mask.iter().enumerate().all(|(i, x)| *x == (i == at)), "a declaration is a default when it is the only one of its type");
    let some = Some("c".to_string());
    let l = must(d.add_element(with(elem(ElementType::LemmaAnnotation), &None, &some, &None)));
    check!(el(&d, l).declaration_key() == Some(at as DecKey), "an element uses the declaration of its set, or the only one, or one without set");
    let p = must(d.add_element(with(elem(if q == at { ElementType::LemmaAnnotation } else { ElementType::PosAnnotation }), &Some(format!("s{}", q)), &some, &None)));
    check!(el(&d, p).declaration_key() == Some(q as DecKey) && opt_eq(el(&d, p).set(), Some(&format!("s{}", q))), "an element uses the declaration of its set, or the only one, or one without set");
    let p = must(d.add_element(with(elem(ElementType::PosAnnotation), &None, &some, &None)));
    check!(el(&d, p).declaration_key() == Some((n + 1) as DecKey) && el(&d, p).set().is_none(), "an element uses the declaration of its set, or the only one, or one without set");
    for k in [0, at, q, n].iter() { match d.declare(ty(*k), &Some(format!("s{}", k)), &None, &None) { Ok(x) => check!(x as usize == *k, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") } }
    reach!("c14.wide");
});
harness!(NEW_H, c14_construct, "C14", quick [(0, 8)], thorough [(8, 16)], reach ["c14.new"],
    "a document made from, or parsed (from a string or a file) with (case bit 1), properties: text or speech body, with or without a processor, up to two (thorough: three) declarations of one of three annotation types without set, with one of a symbolic letter or the default text set; parsed with a declaration in its header; then a declaration and an element: the body, the declarations, their processors and the default set's class, before and after a round trip", |case| {
    let (proc, parsed, speech) = (case & 1 == 1, case & 2 == 2, case & 4 == 4);
    let mut m = Model::default();
    let mut p = DocumentProperties { declare: vec![], ..DocumentProperties::default() };
    if speech { p = p.with_bodytype(BodyType::Speech) }
    p = p.with_autodeclare(flag());
    if proc { p = p.with_processor(Processor::new("n".to_string()).with_id("p".to_string())) }
    let ty = |i: usize| [AnnotationType::POS, AnnotationType::TEXT, AnnotationType::LEMMA][i];
    let mut x = String::new();
    if parsed { let s = sstr(1, LETTER); x.push_str("<pos-annotation set=\""); x.push_str(&s); x.push_str("\"/>"); m.declare(AnnotationType::POS, Some(&s)); }
    if proc { m.procs.push("p".into()); m.active = Some("p".into()) }
    for _ in 0..choose(if case >= 8 { 4 } else { 3 }) {
        let t = ty(choose(3));
        let s = match choose(3) { 0 => None, 1 => Some(sstr(1, LETTER)), _ => Some(DEFAULT_TEXT_SET.to_string()) };
        m.declare(t, sref(&s));
        p = p.with_declaration(t, s);
    }
    let text = speech && !parsed;
    let mut d = match if parsed { let x = folia_xml(&x, "<s/>"); if flag() { Document::from_str(&x, p) } else { Document::from_file(&file(x.as_bytes()), p) } } else { Document::new("doc", p) } { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let ok = |d: &Document, m: &Model| {
        check!(el(d, 0).elementtype() == if text { ElementType::Speech } else { ElementType::Text }, "a document's body is of the type asked for");
        m.agree_declarations(d);
        for t in [AnnotationType::POS, AnnotationType::TEXT, AnnotationType::LEMMA].iter() { check!(opt_eq(d.get_default_set(*t), m.default_set(*t)), "the default set is the only declared one") }
    };
    ok(&d, &m);
    for x in d.declarations().filter_map(|x| x.as_ref()) { check!(x.class_key("current").is_some() == (x.set.as_deref() == Some(DEFAULT_TEXT_SET)), "the default text set has the class current from the start") }
    check!(d.provenancestore.chain.len() == proc as usize && d.active_processor == if proc { Some(0) } else { None }, "the processor of the properties is the active one");
    // and it goes on from there
    let s = maybe(1, LETTER);
    let k = must(d.add_element_to(0, with(elem(ElementType::Sentence), &None, &None, &None).add_element(with(elem(ElementType::PosAnnotation), &s, &Some("c".to_string()), &None))));
    let y = m.element(AnnotationType::POS, sref(&s), Some("c"), None);
    m.push(y, child_keys(&d, k)[0]);
    m.agree(&d);
    ok(&d, &m);
    let e = match Document::from_str(unsafe { std::str::from_utf8_unchecked(&xml_of(&d)) }, DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a serialised document parses again") };
    ok(&e, &m);
    reach!("c14.new");
});
harness!(APART_H, c14_apart, "C14", quick [(0, 6)], thorough [(6, 12)], reach ["c14.apart"],
    "two declarations of any two annotation types (a sixth of the first per case), the one with the longer name with no set or one of 1 or 2 (thorough: 3) symbolic printable characters, the other with one as much longer as its name is shorter, or one or two characters more or fewer, or with none: one declaration exactly if type and set are the same, and each is found by its own", |case| {
    let all = all_annotypes();
    let n = (all.len() + 5) / 6;
    let i = case as usize % 6 * n + choose(n);
    assume(i < all.len());
    let j = choose(all.len());
    let (a, b) = (all[i], all[j]);
    assume(a.as_str().len() >= b.as_str().len());
    let (l, more) = (choose(if case < 6 { 3 } else { 4 }), choose(6));
    let m = if more == 5 { 0 } else { (a.as_str().len() - b.as_str().len() + l + more).saturating_sub(2) };
    // of a long string, the last characters are of any kind, those before only of the kind that names are of
    let long = |l: usize| if l == 0 { None } else { let k = l.saturating_sub(2); Some(format!("{}{}", sstr(k, LETTER.or(Dom::of(b"-/"))), sstr(l - k, VISIBLE))) };
    let (s, t) = (long(l), long(m));
    let mut d = bare();
    let g = |d: &mut Document, ty: AnnotationType, s: &Option<String>| match d.declare(ty, s, &None, &None) { Ok(k) => k, Err(_) => fail!("a declaration can be made") };
    let (x, y) = (g(&mut d, a, &s), g(&mut d, b, &t));
    // one without a set means the only one there is
    let same = i == j && (opt_eq(sref(&s), sref(&t)) || t.is_none());
    check!((x == y) == same, "different annotation types or sets always yield different declarations");
    check!(Store::<Declaration, DecKey>::len(&d) == 2 - same as usize, "one declaration per annotation type and set");
    check!(g(&mut d, a, &s) == x, "declaring the same annotation type and set again yields the same declaration");
    check!(g(&mut d, b, &t) == y, "declaring the same annotation type and set again yields the same declaration");
    reach!("c14.apart");
});
harness!(NEAR_H, c14_near, "C14", quick [(0, 8)], thorough [(8, 12)], reach ["c14.near"],
    "three declarations or elements, in any order of the two, whose sets are alike: the first is a string of 1, 4, 9, 20, 40, 130 or 260 (thorough: of any length up to 24) characters, the others have a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or are it twice; with an alias like the set (case bit 1); or (cases 4-7) the first is one of six as they occur in documents, the second has a character more, other or fewer at any position, the third is the second", |case| {
    let mut d = bare();
    let mut m = Model::default();
    let real = case / 4 == 1;
    let a = if real { REAL[choose(REAL.len())].to_string() } else { sample(if case < 4 { [1, 4, 9, 20, 40, 130, 260][choose(7)] } else { 1 + choose(24) }) };
    let b = if real { near_any(&a, VISIBLE) } else { near(&a, VISIBLE) };
    let l = [a.clone(), b.clone(), if real { b } else { near(&a, VISIBLE) }];
    for (i, x) in l.iter().enumerate() {
        let set = Some(x.clone());
        let alias = if case & 2 == 2 { Some(l[(i + 1) % 3].clone()) } else { None };
        let (t, e) = TY[if i == 2 { choose(2) } else { 0 }];
        if (case & 1 == 1) != (i == 1) {
            let k = match d.declare(t, &set, &alias, &None) { Ok(k) => k, Err(_) => fail!("a declaration can be made") };
            check!(k as usize == m.declare(t, sref(&set)), "declaring the same annotation type and set again yields the same declaration, another yields another");
        } else {
            let k = must(d.add_element(with(elem(e), &set, &Some("c".to_string()), &None)));
            let y = m.element(t, sref(&set), Some("c"), None);
            check!(el(&d, k).declaration_key().map(|k| k as usize) == y.dec, "an element uses the declaration of its set, or the only one, or one without set");
            m.push(y, k);
        }
        defaults(&d, &m);
    }
    m.agree(&d);
    m.agree_declarations(&d);
    reach!("c14.near");
});
harness!(MANY_H, c14_many, "C14", quick [(0, 6)], thorough [(6, 12)], reach ["c14.many"],
    "5, 40 or 130 (thorough: 300) declarations of one annotation type in sets of their own (even cases), or every annotation type declared in a set of its own, with one of another type between each (odd cases), made or parsed; one declared before (the first, the second, one in the middle, the last) again, or in another set, or without; then an element in the set of one of them, in a new one or without set", |case| {
    let n = [5usize, 40, 130, 300, 300, 300][case as usize / 2];
    let all = all_annotypes();
    let list: Vec<(AnnotationType, Option<String>)> = if case & 1 == 0 { (0..n).map(|i| (AnnotationType::POS, Some(format!("{}s", i)))).collect() } else { all.iter().enumerate().map(|(i, t)| (*t, Some(format!("s{}", i)))).collect() };
    let n = list.len();
    let mut m = Model::default();
    let mut d = bare();
    if flag() {
        let mut x = String::new();
        for (t, s) in list.iter() { x.push_str(&format!("<{}-annotation set=\"{}\"/>", t.as_str(), s.as_ref().unwrap())); m.declare(*t, sref(s)); }
        d = match parse_plain(&folia_xml(&x, "")) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    } else {
        for (t, s) in list.iter() { let j = m.declare(*t, sref(s)); match d.declare(*t, s, &None, &None) { Ok(k) => check!(k as usize == j, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") } }
    }
    let places = [0, 1, n / 2, n - 2, n - 1];
    let (t, s) = &list[places[choose(5)]];
    let s = match choose(4) { 0 => s.clone(), 1 => None, 2 => Some("0".to_string()), _ => list[places[choose(5)]].1.clone() };
    let j = m.declare(*t, sref(&s));
    match d.declare(*t, &s, &None, &None) { Ok(k) => check!(k as usize == j, "declaring the same annotation type and set again yields the same declaration, another yields another"), Err(_) => fail!("a declaration can be made") }
    let set = match choose(3) { 0 => list[places[choose(5)]].1.clone(), 1 => Some("new".to_string()), _ => None };
    let k = must(d.add_element(with(elem(ElementType::PosAnnotation), &set, &Some("c".to_string()), &None)));
    let e = m.element(AnnotationType::POS, sref(&set), Some("c"), None);
    check!(el(&d, k).declaration_key().map(|k| k as usize) == e.dec, "an element uses the declaration of its set, or the only one, or one without set");
    m.push(e, k);
    m.agree(&d);
    m.agree_declarations(&d);
    for t in all.iter() { check!(opt_eq(d.get_default_set(*t), m.default_set(*t)), "the default set is the only declared one") }
    let mask = d.declarationstore.default_mask();
    check!(mask.len() == m.decs.len(), "the default mask covers every declaration");
    for (i, x) in m.decs.iter().enumerate() { check!(mask[i] == (m.decs.iter().filter(|y| y.ty == x.ty).count() == 1), "a declaration is a default when it is the only one of its type") }
    reach!("c14.many");
});
pub const ALL: &[H] = &[WIDE_H, MANY_H, NEAR_H, APART_H, NEW_H, ALIAS_H, HIST_H, LONG_H, INDEX_H, TYPES_H, PARSE_H];
