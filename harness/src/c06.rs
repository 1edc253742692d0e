//! C06: selection yields exactly the matching items, once, in document order
use crate::golden::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};
use ElementType as E;

type Item = (ElementKey, usize, usize);
fn within(l: &[AcceptedData], t: ElementType) -> bool { l.iter().any(|x| match x { AcceptedData::AcceptElementType(u) => *u == t, AcceptedData::AcceptElementGroup(g) => in_group(*g, t) }) }
fn descends(r: &Recursion, t: ElementType) -> bool { match r { Recursion::No => false, Recursion::Always => true, Recursion::LimitedTo(l) => within(l, t), Recursion::ExceptFor(l) => !within(l, t) } }
/// (parent, cursor, depth) of every data item under an element, depth first
fn walk(d: &Document, k: ElementKey, depth: usize, r: &Recursion, out: &mut Vec<Item>) {
    let down = descends(r, el(d, k).elementtype());
    for (i, x) in data_of(d, k).into_iter().enumerate() {
        out.push((k, i, depth));
        if down { if let DataType::Element(c) = x { walk(d, *c, depth + 1, r, out) } }
    }
}
fn item(d: &Document, x: &Item) -> DataType { data_of(d, x.0)[x.1].clone() }
fn cmp<T: PartialEq + std::fmt::Debug>(c: &Cmp<T>, v: Option<T>) -> bool { match c { Cmp::Any => true, Cmp::Is(x) => match v { Some(y) => *x == y, None => false }, Cmp::Some => v.is_some(), Cmp::None => v.is_none(), Cmp::Unmatchable => false } }
fn own(s: Option<&str>) -> Option<String> { s.map(|s| s.to_string()) }
/// whether an element satisfies all criteria of a query
fn hit(d: &Document, k: ElementKey, q: &Query) -> bool {
    let e = el(d, k);
    let t = e.elementtype();
    let p = e.processor().and_then(|p| d.get_processor_by_id(p));
    let annotator = match p { Some(p) => Some(p.name.clone()), None => e.attribs().iter().find_map(|a| if let Attribute::Annotator(s) = a { Some(s.clone()) } else { None }) };
    let antype = match p { Some(p) => Some(p.processortype), None => e.attribs().iter().find_map(|a| if let Attribute::AnnotatorType(s) = a { Some(*s) } else { None }) };
    let conf = e.attribs().iter().find_map(|a| if let Attribute::Confidence(s) = a { Some(*s) } else { None });
    let group = match &q.elementgroup { Cmp::Is(g) => in_group(*g, t), Cmp::Any | Cmp::Some => true, _ => false };
    // with a subset the set is that of the annotation the feature is said to belong to
    let feature = matches!(q.subset, Cmp::Some | Cmp::Is(_));
    let ctx = match (feature, &q.contexttype, &q.set) { (true, Cmp::Is(c), Cmp::Is(_)) => match c.annotationtype() { Some(a) => e.get_declaration().map(|x| x.annotationtype) == Some(a), None => true }, _ => true };
    group && ctx && cmp(&q.elementtype, Some(t)) && cmp(&q.set, own(e.set())) && cmp(&q.class, own(e.class())) && cmp(&q.subset, own(e.subset())) && cmp(&q.processor, own(e.processor())) && cmp(&q.annotator, annotator) && cmp(&q.annotatortype, antype) && cmp(&q.confidence, conf)
}
fn compile(d: &Document, q: &Query) -> Selector { match Selector::from_query(d, q) { Ok(s) => s, Err(_) => fail!("every query can be put to every document") } }
/// the elements a selection gives, and those it should
fn same(d: &Document, got: Vec<ElementKey>, want: Vec<ElementKey>) {
    let _ = d;
    check!(got.len() == want.len(), "a selection has as many elements as satisfy its criteria");
    for (a, b) in got.iter().zip(want.iter()) { check!(a == b, "a selection has the elements that satisfy its criteria, in document order") }
}
fn keys(i: SelectElementsIterator) -> Vec<ElementKey> { let mut v = vec![]; for e in i { match e.key() { Some(k) => v.push(k), None => fail!("a selected element has a key") } if v.len() > 200 { fail!("a selection ends") } } v }
/// the elements and span references under an element that satisfy the test, each span once
fn elements(d: &Document, from: ElementKey, r: &Recursion, spanonce: bool, test: &dyn Fn(ElementKey) -> bool) -> Vec<ElementKey> {
    let mut items = vec![];
    walk(d, from, 1, r, &mut items);
    let mut out: Vec<ElementKey> = vec![];
    for x in items.iter() { match item(d, x) {
        DataType::Element(k) | DataType::SpanReference(k) => if test(k) && !(spanonce && in_group(ElementGroup::Span, el(d, k).elementtype()) && out.contains(&k)) { out.push(k) },
        _ => {}
    } }
    out
}
fn letter() -> String { sstr(1, Dom::range(b'a', b'd')) }
/// a document with two processors and, in a sentence, two words with inline annotation, features, text, comments and a span
fn fixture(rich: bool) -> Document {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    for (i, n, t) in [("p1", "n1", ProcessorType::Auto), ("p2", "n2", ProcessorType::Manual)].iter() { if d.add_processor(Processor::new(n.to_string()).with_id(i.to_string()).with_type(*t)).is_err() { fail!("a processor can be added") } }
    let pos = |c: &str| { let mut e = elem(E::PosAnnotation).with_attrib(set(&letter())).with_attrib(class(c)); match choose(3) { 0 => {} 1 => e = e.with_attrib(Attribute::Processor("p1".into())), _ => e = e.with_attrib(Attribute::Confidence(0.5)) } e };
    let feat = || elem(E::Feature).with_attrib(Attribute::Subset(letter())).with_attrib(class("f"));
    let mut w1 = elem(E::Word).with_attrib(id("w1")).add_element(pos("x").add_element(feat()));
    if rich { w1 = w1.add_element(elem(E::LemmaAnnotation).with_attrib(set(&letter())).with_attrib(class("x")).with_attrib(Attribute::Processor("p2".into())).with_attrib(Attribute::Confidence(0.25))) }
    let w2 = elem(E::Word).with_attrib(id("w2")).add_element(elem(E::LemmaAnnotation).with_attrib(Attribute::Annotator("n2".into())).with_attrib(Attribute::AnnotatorType(ProcessorType::Manual))).add_element(elem(E::PosAnnotation).with_attrib(class("y")));
    let s = elem(E::Sentence).add_element(w1).with(DataType::Comment("c".into())).add_element(w2);
    let s = must(d.annotate(0, s));
    must(d.annotate(s, elem(E::Entity).with_attrib(set("a")).with_attrib(class("x")).with_span(&["w2", "w1"])));
    d
}
fn cmp_of(strings: &[&str], sym: bool) -> Cmp<String> { let n = strings.len(); let c = choose(n + 3 + sym as usize); if c < n { Cmp::Is(strings[c].to_string()) } else if c == n { Cmp::Some } else if c == n + 1 { Cmp::None } else if c == n + 2 { Cmp::Unmatchable } else { Cmp::Is(letter()) } }
/// adds criterion number i
fn criterion(q: Query, i: usize) -> Query {
    match i {
        0 => { let t = [E::PosAnnotation, E::LemmaAnnotation, E::Feature, E::Entity, E::Word, E::Paragraph][choose(6)]; q.element(Cmp::Is(t)) }
        1 => { let g = [ElementGroup::Inline, ElementGroup::Span, ElementGroup::Structure, ElementGroup::Layer][choose(4)]; q.elementgroup(Cmp::Is(g)) }
        2 => q.set(cmp_of(&[], true)),
        3 => q.class(cmp_of(&["x", "f", "zz"], false)),
        4 => q.subset(cmp_of(&[], true)),
        5 => q.processor(cmp_of(&["p1", "p2", "p3"], false)),
        6 => q.annotator(cmp_of(&["n1", "n2"], false)),
        7 => q.annotatortype(match choose(4) { 0 => Cmp::Is(ProcessorType::Auto), 1 => Cmp::Is(ProcessorType::Manual), 2 => Cmp::Some, _ => Cmp::None }),
        8 => q.confidence(match choose(4) { 0 => Cmp::Is(0.5), 1 => Cmp::Is(0.25), 2 => Cmp::Some, _ => Cmp::None }),
        _ => { let t = [E::PosAnnotation, E::LemmaAnnotation, E::Word][choose(3)]; q.contexttype(Cmp::Is(t)) }
    }
}
fn pair(n: usize) -> (usize, usize) { let (mut i, mut k) = (0, n); loop { if k < 10 - i { return (i, i + k) } k -= 10 - i; i += 1 } }
fn put(d: &Document, q: &Query, rs: &[Recursion]) {
    let s = compile(d, q);
    let from = [0, 1][choose(2)];
    for r in rs.iter() {
        let want = elements(d, from, r, true, &|k| hit(d, k, q));
        same(d, keys(d.select_by_key(from, s.clone(), r.clone(), false, true)), want.clone());
        same(d, keys(el(d, from).select(s.clone(), r.clone())), want);
    }
    // the matching itself
    for k in 0..nelements(d) { check!(s.matches(d, &DataType::Element(k as ElementKey)) == hit(d, k as ElementKey, q), "a selector matches an element exactly if it satisfies every criterion") }
    check!(!s.matches(d, &DataType::Text("x".into())) && !s.matches(d, &DataType::Comment("x".into())), "a query selects elements only");
}
harness!(PAIRS_H, c06_pairs, "C06", quick [(0, 55)], thorough [(55, 110)], reach ["c06.pair"],
    "a query with every pair of the ten criteria (type, group, set, class, subset, processor, annotator, annotator type, confidence, context type; each a value, also one of a symbolic letter, present, absent or unmatchable) over a sentence with two words, inline annotations (thorough: one more) in symbolic sets, a feature with a symbolic subset, attributed and unattributed, and a span; from the body or the sentence, recursive or not", |case| {
    let d = fixture(case >= 55);
    let (i, j) = pair(case as usize % 55);
    let mut q = criterion(Query::select(), i);
    if j != i { q = criterion(q, j) }
    put(&d, &q, &[Recursion::Always, Recursion::No]);
    reach!("c06.pair");
});
harness!(TRIPLES_H, c06_triples, "C06", quick [(0, 4), (8, 9)], thorough [(4, 8), (9, 10)], reach ["c06.triple"],
    "queries with three or four criteria that depend on each other: type, set, class; type, context type, set, subset; context type, set, subset, class; group, set, processor; type, set, class, subset", |case| {
    let d = fixture(case >= 4 && case != 8);
    let l: &[usize] = [&[0usize, 2, 3][..], &[0, 9, 2, 4], &[9, 2, 4, 3], &[1, 2, 5], &[0, 2, 3, 4]][if case >= 8 { 4 } else { case as usize % 4 }];
    let mut q = Query::select();
    for i in l.iter() { q = criterion(q, *i) }
    put(&d, &q, &[Recursion::Always]);
    reach!("c06.triple");
});
harness!(UNION_H, c06_union, "C06", quick [(0, 4)], thorough [(4, 8)], reach ["c06.union"],
    "the union of 2, 3 or 4 selectors with one criterion each: elements that satisfy any of them, each once, in document order; also with selectors that can match nothing", |case| {
    let d = fixture(false);
    let kinds: &[usize] = [&[0usize, 1][..], &[0, 2, 3], &[4, 0], &[0, 0, 0], &[0, 1, 2, 3], &[0, 0, 0, 0], &[5, 6, 7], &[2, 4]][case as usize];
    let qs: Vec<Query> = kinds.iter().map(|i| criterion(Query::select(), *i)).collect();
    let mut s = compile(&d, &qs[0]);
    // chained either way
    if flag() { for q in qs[1..].iter() { s = s.and(compile(&d, q)) } } else { let mut t = compile(&d, &qs[qs.len() - 1]); for q in qs[1..qs.len() - 1].iter().rev() { t = compile(&d, q).and(t) } s = s.and(t) }
    let want = elements(&d, 0, &Recursion::Always, true, &|k| qs.iter().any(|q| hit(&d, k, q)));
    same(&d, keys(d.select(s.clone(), Recursion::Always)), want);
    reach!("c06.union");
});
/// a tree of chosen shape with elements, texts and comments
fn shape(n: usize, depth: usize) -> ElementData {
    let mut e = elem([E::Division, E::Paragraph, E::Note, E::Sentence][depth]);
    for i in 0..n { e = match choose(if depth < 3 { 4 } else { 3 }) { 0 => e.with(DataType::Text("t".into())), 1 => e.with(DataType::Comment("c".into())), 2 => e.add_element(elem(E::Word)), _ => e.add_element(shape(if depth == 0 && i == 0 { 2 } else { 1 }, depth + 1)) } }
    e
}
fn rule(i: usize) -> Recursion {
    match i { 0 => Recursion::Always, 1 => Recursion::No, 2 => Recursion::LimitedTo(vec![AcceptedData::AcceptElementType(E::Division)]), 3 => Recursion::LimitedTo(vec![AcceptedData::AcceptElementType(E::Text), AcceptedData::AcceptElementGroup(ElementGroup::Structure)]), 4 => Recursion::ExceptFor(vec![AcceptedData::AcceptElementType(E::Paragraph)]), 5 => Recursion::ExceptFor(vec![AcceptedData::AcceptElementGroup(ElementGroup::Structure)]), 6 => Recursion::ExceptFor(vec![]), _ => Recursion::LimitedTo(vec![]) }
}
fn traverse(d: &Document, from: ElementKey, kind: usize, r: &Recursion, inclusive: bool) {
    let (s, want): (Selector, fn(&DataType) -> bool) = match kind {
        0 => (Selector::all_data(), |_| true),
        1 => (Selector::elements(), |x| matches!(x, DataType::Element(_) | DataType::SpanReference(_))),
        2 => (Selector::default().with_text(), |x| matches!(x, DataType::Text(_))),
        3 => (Selector::default().with_comments(), |x| matches!(x, DataType::Comment(_))),
        4 => (Selector::default().with_comments().with_text(), |x| matches!(x, DataType::Comment(_) | DataType::Text(_))),
        5 => (Selector::default(), |_| true),
        6 => (Selector::elements().with_text(), |x| !matches!(x, DataType::Comment(_))),
        _ => (Selector::elements().element(Cmp::Is(E::Word)).with_comments(), |x| matches!(x, DataType::Element(_) | DataType::Comment(_))),
    };
    let mut all = vec![];
    walk(d, from, 1, r, &mut all);
    let want: Vec<Item> = all.into_iter().filter(|x| { let y = item(d, x); want(&y) && (kind != 7 || match y { DataType::Element(k) => el(d, k).elementtype() == E::Word, _ => true }) }).collect();
    let mut i = 0;
    let first = inclusive && (kind < 2 || kind >= 5) && (kind != 7 || el(d, from).elementtype() == E::Word);
    for x in d.select_data_by_key(from, s, r.clone(), inclusive, false) {
        if i == 0 && first {
            check!(*x == DataType::Element(from) && x.depth == 0 && x.cursor == 0 && x.parent_key == el(d, from).parent_key().unwrap_or(from), "an inclusive selection begins with the element itself");
        } else {
            let n = i - first as usize;
            check!(n < want.len(), "a traversal has every matching item once");
            let w = want[n];
            check!(x.parent_key == w.0 && x.cursor == w.1 && *x == item(d, &w), "a traversal has the matching items in document order");
            check!(x.depth == w.2, "an item's depth is the number of its ancestors up to the start");
        }
        i += 1;
    }
    check!(i == want.len() + first as usize, "a traversal has every matching item once");
}
harness!(WALK_H, c06_traversal, "C06", quick [(0, 64)], thorough [(64, 128)], reach ["c06.walk"],
    "traversal of elements, text, comments or any mix in a tree of depth up to 4 with two (thorough: three) items at the top, two in the first of these and one in each other, each of any kind, from the body or an element inside, inclusive or not, under eight recursion rules (always, never, limited to or except for types and groups); every item with its parent, position and depth", |case| {
    let mut d = new_doc();
    let k = must(d.add_element_to(0, shape(if case >= 64 { 3 } else { 2 }, 0)));
    let r = rule(case as usize % 8);
    for inclusive in [false, true].iter() { for from in [0, k].iter() { traverse(&d, *from, (case as usize / 8) % 8, &r, *inclusive) } }
    reach!("c06.walk");
});
harness!(SPAN_H, c06_spans, "C06", quick [(0, 6), (12, 13)], thorough [(6, 12)], reach ["c06.spans"],
    "two (thorough: three) entities, each over one or two of three words, in one of two sets; a selection that follows span references yields every span once, from the sentence, the body, or any word, before, between or after the words; one that does not yields references as they are", |case| {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(E::Sentence)));
    for i in ["w1", "w2", "w3"].iter() { must(d.annotate(s, elem(E::Word).with_attrib(id(i)))); }
    for _ in 0..if case == 12 { 3 } else { 2 + case / 6 } { let a = ["w1", "w2", "w3"][choose(3)]; let b = if case == 12 { "" } else { ["w1", "w2", "w3", ""][choose(4)] }; let l: Vec<&str> = if b == "" || a == b { vec![a] } else { vec![a, b] }; must(d.annotate(s, elem(E::Entity).with_attrib(set(["x", "y"][choose(2)])).with_span(&l))); }
    let from = match case % 3 { 0 => 0, 1 => s, _ => child_keys(&d, s)[choose(3)] };
    let q = if case % 6 >= 3 { Query::select().element(Cmp::Is(E::Entity)).set(Cmp::Is("x".into())) } else { Query::select().elementgroup(Cmp::Is(ElementGroup::Span)) };
    let sel = compile(&d, &q);
    same(&d, keys(d.select_by_key(from, sel.clone(), Recursion::Always, false, true)), elements(&d, from, &Recursion::Always, true, &|k| hit(&d, k, &q)));
    same(&d, keys(d.select_by_key(from, sel.clone(), Recursion::Always, false, false)), elements(&d, from, &Recursion::Always, false, &|k| hit(&d, k, &q)));
    same(&d, keys(d.select_by_key(from, Selector::elements(), Recursion::Always, false, true)), elements(&d, from, &Recursion::Always, true, &|_| true));
    reach!("c06.spans");
});
harness!(CONV_H, c06_annotations, "C06", quick [(0, 6)], thorough [(6, 12)], reach ["c06.conv"],
    "get_annotation(s), get_element(s) and get_feature(s) of every element for an annotation type and a set (any, present, absent, or a symbolic letter): the elements of that type and set under it, and the first of them", |case| {
    let d = fixture(case >= 6);
    let set = match choose(4) { 0 => Cmp::Any, 1 => Cmp::Some, 2 => Cmp::None, _ => Cmp::Is(letter()) };
    let a = [AnnotationType::POS, AnnotationType::LEMMA, AnnotationType::TOKEN, AnnotationType::ENTITY, AnnotationType::SENTENCE, AnnotationType::POS][case as usize % 6];
    for k in 0..nelements(&d) as ElementKey {
        let e = el(&d, k);
        if case % 6 == 5 {
            let want = elements(&d, k, &Recursion::No, true, &|x| { let f = el(&d, x); f.elementtype() == E::Feature && cmp(&set, own(f.subset())) });
            same(&d, keys(e.get_features(set.clone())), want.clone());
            check!(e.get_feature(set.clone()).and_then(|x| x.key()) == want.first().cloned(), "the first of several annotations is returned");
        } else {
            for r in [Recursion::Always, Recursion::No].iter() {
                let want = elements(&d, k, r, true, &|x| { let f = el(&d, x); f.elementtype() == a.elementtype() && cmp(&set, own(f.set())) });
                same(&d, keys(e.get_annotations(a, set.clone(), r.clone())), want.clone());
                same(&d, keys(e.get_elements(a.elementtype(), set.clone(), r.clone())), want.clone());
                check!(e.get_annotation(a, set.clone(), r.clone()).and_then(|x| x.key()) == want.first().cloned(), "the first of several annotations is returned");
                check!(e.get_element(a.elementtype(), set.clone(), r.clone()).and_then(|x| x.key()) == want.first().cloned(), "the first of several annotations is returned");
            }
        }
    }
    reach!("c06.conv");
});
harness!(FEAT_H, c06_features, "C06", quick [(0, 3)], thorough [(3, 6)], reach ["c06.feat"],
    "the features of an annotation without set, of a set, or of another of the same type (case mod 3): two (thorough: three) features with or without a set of their own (that of the annotation or another) and a subset of one of two letters, found by subset: those of the set of the annotation, or if it has none, all", |case| {
    let mut d = crate::model::bare();
    let w = must(d.add_element_to(0, elem(E::Word)));
    let of = match case % 3 { 0 => None, 1 => Some("x".to_string()), _ => Some("y".to_string()) };
    let some = Some("c".to_string());
    for s in [&None, &Some("x".to_string()), &Some("y".to_string())].iter() { if !(case % 3 == 0) || s.is_none() { if case % 3 != 0 && s.is_none() { continue } must(d.annotate(w, crate::model::with(elem(E::PosAnnotation), s, &some, &None))); } }
    let ks: Vec<ElementKey> = child_keys(&d, w);
    let k = ks[if case % 3 == 2 { 1 } else { 0 }];
    let mut l = vec![];
    for _ in 0..if case < 3 { 2 } else { 3 } {
        let set = match choose(3) { 0 => None, 1 => Some("x".to_string()), _ => Some("y".to_string()) };
        let u = ["u", "v"][choose(2)];
        let f = must(d.annotate(k, crate::model::with(elem(E::Feature).with_attrib(Attribute::Subset(u.into())), &set, &some, &None)));
        l.push((f, set, u));
    }
    for u in ["u", "v"].iter() {
        let want: Vec<ElementKey> = l.iter().filter(|f| f.2 == *u && (of.is_none() || f.1.is_none() || f.1 == of)).map(|f| f.0).collect();
        let e = el(&d, k);
        same(&d, keys(e.get_features(Cmp::Is(u.to_string()))), want.clone());
        check!(e.get_feature(Cmp::Is(u.to_string())).and_then(|x| x.key()) == want.first().cloned(), "the first of several annotations is returned");
    }
    reach!("c06.feat");
});
harness!(CMP_H, c06_criteria, "C06", quick [(0, 3)], thorough [], reach ["c06.cmp"],
    "a single criterion against a present or absent value, over all strings of 2 symbolic bytes and all 64 bit floating point numbers; and recursion rules for every element type and group", |case| {
    let v = flag();
    match case {
        0 => { let (a, b) = (sstr(2, ANY), sstr(2, ANY)); let b = if v { Some(b) } else { None }; for c in [Cmp::Any, Cmp::Is(a.clone()), Cmp::Some, Cmp::None, Cmp::Unmatchable].iter() { check!(c.matches(b.as_ref()) == cmp(c, b.clone()), "a criterion holds exactly for the values it describes") } }
        1 => { let f = || { let mut x = 0u64; for b in sbytes(8, ANY) { x = x << 8 | b as u64 } f64::from_bits(x) }; let (a, b) = (f(), f()); let b = if v { Some(b) } else { None }; for c in [Cmp::Any, Cmp::Is(a), Cmp::Some, Cmp::None, Cmp::Unmatchable].iter() { check!(c.matches(b.as_ref()) == cmp(c, b), "a criterion holds exactly for the values it describes") } }
        _ => {
            let all = all_types();
            let t = all[choose(all.len())];
            let l = vec![match choose(3) { 0 => AcceptedData::AcceptElementType(all[index(all.len())]), 1 => AcceptedData::AcceptElementType(t), _ => { let g = all_groups(); AcceptedData::AcceptElementGroup(g[choose(g.len())]) } }, AcceptedData::AcceptElementType(E::Word)];
            for r in [Recursion::Always, Recursion::No, Recursion::LimitedTo(l.clone()), Recursion::ExceptFor(l.clone()), Recursion::LimitedTo(vec![]), Recursion::ExceptFor(vec![])].iter() { check!(r.eval(t) == descends(r, t), "a recursion rule holds for the types and groups it lists, or for all others") }
        }
    }
    reach!("c06.cmp");
});
harness!(ORPHAN_H, c06_orphan, "C06", quick [(0, 2)], thorough [], reach ["c06.orphan"],
    "selection that starts at, and includes, an element without a parent that is not the body (detached, or never attached)", |case| {
    let mut d = new_doc();
    let k = if case == 0 { must(d.add_element(elem(E::Paragraph).add_element(elem(E::Sentence)))) } else { let k = must(d.annotate(0, elem(E::Paragraph).add_element(elem(E::Sentence)))); if d.detach_element(k).is_err() { fail!("an element can be detached") } k };
    reach!("c06.orphan");
    let got = keys(d.select_by_key(k, Selector::elements(), Recursion::Always, true, true));
    check!(got.len() == 2 && got[1] == k + 1, "a selection from a detached element has what is under it");
    check!(got[0] == k, "an inclusive selection from a detached element begins with that element");
});
harness!(LONG_H, c06_long, "C06", quick [(0, 4)], thorough [], reach ["c06.long"],
    "a sentence of 8000 words, in case 1 and 3 with a comment after every word, with a note at its beginning or its end or none: the notes are selected, as elements (case 0, 1) and as data items, from the document and from the sentence, inclusively or not; selection may not take space that grows with the number of items passed over", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let s = must(d.add_element_to(0, elem(E::Sentence)));
    let (m, n) = (must(d.add_element_to(s, elem(E::Note))), must(d.add_element(elem(E::Note))));
    for _ in 0..8000 { must(d.add_element_to(s, elem(E::Word))); if case & 1 == 1 { edit(&mut d, s).push(DataType::Comment(String::new())) } }
    let mut note = None;
    match choose(3) {
        0 => note = Some(m),
        k => { if d.detach_element(m).is_err() { fail!("an element can be detached") } if k == 1 { note = Some(n); if d.attach_element(s, n).is_err() { fail!("an element can be attached") } } }
    }
    let sel = || Selector::elements().element(Cmp::Is(E::Note));
    let from = if flag() { s } else { 0 };
    let inclusive = from == s && flag();
    if case < 2 {
        let got = keys(d.select_by_key(from, sel(), Recursion::Always, inclusive, true));
        check!(got.first().copied() == note && got.len() == note.is_some() as usize, "a selection has the elements that satisfy its criteria, in document order");
    } else {
        let mut n = 0;
        for x in d.select_data_by_key(from, sel(), Recursion::Always, inclusive, true) { check!(matches!(x.data, DataType::Element(k) if Some(*k) == note), "a selection has the elements that satisfy its criteria, in document order"); n += 1 }
        check!(n == note.is_some() as usize, "a selection has as many elements as satisfy its criteria");
        // data items that pass the selector but are no elements
        if case == 3 { let mut z = Selector::elements().with_comments(); z.datatypes.remove(0); check!(keys(d.select_by_key(s, z, Recursion::No, false, true)).is_empty(), "a selection has as many elements as satisfy its criteria") }
    }
    reach!("c06.long");
});
harness!(ENTRY_H, c06_entry_points, "C06", quick [(0, 4)], thorough [], reach ["c06.entry"],
    "a tree with elements, text, comments and a span, and every way to start a selection (of the document, of an element, by key; of elements or of data items; inclusive or not; with or without following span references; case: the criterion): all yield the same as the selection by key from there, and tell which selector they use", |case| {
    let d = fixture(false);
    let s = child_keys(&d, 0)[0];
    let from = if flag() { s } else { child_keys(&d, s)[choose(2)] };
    let sel = || match case { 0 => Selector::all_data(), 1 => Selector::elements(), 2 => compile(&d, &Query::select().elementgroup(Cmp::Is(ElementGroup::Inline))), _ => Selector::default().with_text().with_elements() };
    let r = rule(choose(8));
    let (inclusive, refs) = (flag(), flag());
    let spans_once = |from: ElementKey, incl: bool| -> Vec<(ElementKey, usize, usize)> {
        let (z, mut items, mut seen, mut out) = (sel(), vec![], vec![], vec![]);
        walk(&d, from, 1, &r, &mut items);
        if incl { if z.matches(&d, &DataType::Element(from)) { out.push((el(&d, from).parent_key().unwrap_or(from), 0, 0)) } }
        for x in items { let y = item(&d, &x); if !z.matches(&d, &y) { continue } if let DataType::Element(k) | DataType::SpanReference(k) = y { if refs && in_group(ElementGroup::Span, el(&d, k).elementtype()) { if seen.contains(&k) { continue } seen.push(k) } } out.push(x) }
        out
    };
    let is = |i: SelectIterator, want: Vec<(ElementKey, usize, usize)>, incl: bool| {
        check!(i.selector().elementgroup == sel().elementgroup && i.selector().datatypes == sel().datatypes, "a selection tells its selector");
        let mut n = 0;
        for x in i {
            check!(n < want.len(), "a traversal has every matching item once");
            let w = want[n];
            check!(x.parent_key == w.0 && x.depth == w.2 && (w.2 == 0 && incl || x.cursor == w.1 && *x == item(&d, &w)), "a traversal has the matching items in document order");
            n += 1;
        }
        check!(n == want.len(), "a traversal has every matching item once");
    };
    is(d.select_data(sel(), r.clone(), refs), spans_once(0, false), false);
    is(d.select_data_by_key(from, sel(), r.clone(), inclusive, refs), spans_once(from, inclusive), inclusive);
    let e = el(&d, from);
    is(e.select_data(sel(), r.clone(), refs), spans_once(from, false), false);
    is(e.select_data_by_key(s, sel(), r.clone(), inclusive, refs), spans_once(s, inclusive), inclusive);
    // the same selections of elements only
    let only = |from: ElementKey, incl: bool, refs: bool| -> Vec<ElementKey> { let mut v = elements(&d, from, &r, refs, &|k| sel().matches(&d, &DataType::Element(k))); if incl && sel().matches(&d, &DataType::Element(from)) { v.insert(0, from) } v };
    let i = d.select_by_key(from, sel(), r.clone(), inclusive, refs);
    check!(i.selector().elementgroup == sel().elementgroup && i.selector().datatypes == sel().datatypes, "a selection tells its selector");
    same(&d, keys(i), only(from, inclusive, refs));
    same(&d, keys(e.select_by_key(s, sel(), r.clone(), inclusive, refs)), only(s, inclusive, refs));
    same(&d, keys(e.select(sel(), r.clone())), only(from, false, true));
    same(&d, keys(d.select(sel(), r.clone())), only(0, false, true));
    reach!("c06.entry");
});
harness!(CLASS_H, c06_classes, "C06", quick [(0, 4)], thorough [(4, 8)], reach ["c06.class"],
    "two (thorough: three) annotations each with or without a set (of two), with or without a class (of two), one with a feature with or without subset and class; a query for annotations or features (case mod 2), of any or of one set, with each of nine criteria for the class and each of five for the subset, with or without context type", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let s = must(d.annotate(0, elem(E::Sentence)));
    let sel = |n: usize, l: &[&str]| -> Option<String> { let k = choose(n); if k < l.len() { Some(l[k].to_string()) } else { None } };
    for i in 0..if case >= 4 { 3 } else { 2 } {
        let mut e = crate::model::with(elem(E::PosAnnotation), &if i == 2 { Some("a".to_string()) } else { sel(3, &["a", "b"]) }, &sel(3, if i == 0 { &["x", "f"] } else { &["x", "y"] }), &None);
        if i == 0 && e.set().ok().flatten().is_some() { let mut f = elem(E::Feature); if flag() { f = f.with_attrib(Attribute::Subset("u".into())) } if case & 2 == 2 || flag() { f = f.with_attrib(class("f")) } e = e.add_element(f) }
        must(d.annotate(s, e));
    }
    let feature = case & 1 == 1;
    let mut q = Query::select();
    if feature { q = q.element(Cmp::Is(E::Feature)); if flag() { q = q.contexttype(Cmp::Is(E::PosAnnotation)) } } else { q = q.element(Cmp::Is(E::PosAnnotation)) }
    q = match choose(3) { 0 => q, 1 => q.set(Cmp::Is("a".into())), _ => q.set(Cmp::Is("c".into())) };
    q = match choose(9) { 0 => q.class(Cmp::Some), 1 => q.class(Cmp::None), 2 => q, 3 => q.class(Cmp::Unmatchable), k => q.class(Cmp::Is(["x", "y", "f", "z", "u"][k - 4].into())) };
    q = match choose(5) { 0 => q, 1 => q.subset(Cmp::Some), 2 => q.subset(Cmp::None), 3 => q.subset(Cmp::Is("u".into())), _ => q.subset(Cmp::Is("x".into())) };
    let sel = compile(&d, &q);
    same(&d, keys(d.select(sel.clone(), Recursion::Always)), elements(&d, 0, &Recursion::Always, true, &|k| hit(&d, k, &q)));
    for k in 0..nelements(&d) { check!(sel.matches(&d, &DataType::Element(k as ElementKey)) == hit(&d, k as ElementKey, &q), "a selector matches an element exactly if it satisfies every criterion") }
    reach!("c06.class");
});
harness!(NEAR_H, c06_near, "C06", quick [(0, 6)], thorough [], reach ["c06.near"],
    "two elements whose set, class, subset, processor, annotator or confidence (case) are alike (strings of 1, 9, 24 or 140 characters of which one has a symbolic character more, fewer or in its place; numbers a symbolic bit apart): a query for the value of either, or one like it, has those elements that have it", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let s = must(d.annotate(0, elem(E::Sentence)));
    let a = sample([1, 9, 24, 140][choose(4)]);
    let b = near(&a, VISIBLE);
    let bit = if case == 5 { assume(a.len() == 1 && b.len() == 0); choose(64) } else { 0 };
    let num = |s: &String| if *s == a { 0.7 } else { f64::from_bits(0.7f64.to_bits() ^ 1 << bit) };
    if case == 3 { for p in [&a, &b].iter() { check!(d.add_processor(Processor::new("n".to_string()).with_id(p.to_string())).is_ok(), "a processor can be added") } }
    for x in [&a, &b, &a].iter() {
        let g = |i: u64| if i == case { x.to_string() } else { "k".to_string() };
        let mut e = elem(E::PosAnnotation).with_attrib(set(&g(0))).with_attrib(class(&g(1)));
        match case { 2 => e = e.add_element(elem(E::Feature).with_attrib(Attribute::Subset(g(2))).with_attrib(class("f"))), 3 => e = e.with_attrib(Attribute::Processor(g(3))), 4 => e = e.with_attrib(Attribute::Annotator(g(4))), 5 => e = e.with_attrib(Attribute::Confidence(num(x))), _ => {} }
        must(d.annotate(s, e));
    }
    let v = match choose(3) { 0 => a.clone(), 1 => b.clone(), _ => near(&a, VISIBLE) };
    let mut q = if case == 2 || flag() { Query::select() } else { Query::select().element(Cmp::Is(E::PosAnnotation)) };
    if case == 2 { q = q.element(Cmp::Is(E::Feature)); if flag() { q = q.contexttype(Cmp::Is(E::PosAnnotation)).set(Cmp::Is("k".into())) } }
    if case == 1 && flag() { q = q.set(Cmp::Is("k".into())) }
    q = match case { 0 => q.set(Cmp::Is(v)), 1 => q.class(Cmp::Is(v)), 2 => q.subset(Cmp::Is(v)), 3 => q.processor(Cmp::Is(v)), 4 => q.annotator(Cmp::Is(v)), _ => q.confidence(Cmp::Is(num(&v))) };
    let sel = compile(&d, &q);
    same(&d, keys(d.select(sel.clone(), Recursion::Always)), elements(&d, 0, &Recursion::Always, true, &|k| hit(&d, k, &q)));
    reach!("c06.near");
});
pub const ALL: &[H] = &[FEAT_H, CLASS_H, NEAR_H, ENTRY_H, PAIRS_H, TRIPLES_H, UNION_H, WALK_H, SPAN_H, CONV_H, CMP_H, ORPHAN_H, LONG_H];
