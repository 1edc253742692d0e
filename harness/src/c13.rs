//! C13: an element is accepted under a parent exactly when the specification allows it
use crate::sup::*;
use crate::golden::{accepts, in_group, props, ANNOTATIONS};
use crate::{check, fail, harness, reach, H};

fn layertype(t: ElementType) -> Option<ElementType> { t.annotationtype().and_then(|a| ANNOTATIONS.iter().find(|x| x.0 == a).and_then(|x| x.3)) }
/// a sentence with a word, and a parent of the type in it
fn start(parent: ElementType) -> (Document, ElementKey, ElementKey) {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    must(d.annotate(s, elem(ElementType::Word).with_attrib(id("w0"))));
    let p = must(d.add_element_to(s, elem(parent)));
    (d, s, p)
}
/// whether the specification allows a child under a parent in the sentence
fn allowed(parent: ElementType, child: ElementType) -> bool {
    if in_group(ElementGroup::Span, child) && (props(parent).wrefable || in_group(ElementGroup::Structure, parent)) {
        let holder = if props(parent).wrefable { ElementType::Sentence } else { parent };
        match layertype(child) { Some(l) => accepts(holder, l) && accepts(l, child), None => false }
    } else { accepts(parent, child) }
}
const CHUNK: usize = 12;
harness!(PAIR_H, c13_pairs, "C13", quick [(0, 11)], thorough [], reach ["c13.accepted", "c13.refused"],
    "every pair of parent type (chunk of twelve per case, symbolic) and child type (symbolic), except word references as parents, under a parent with or without an element of the type already; span annotations with a set over one word", |case| {
    let t = all_types();
    let i = case as usize * CHUNK + conc(index(CHUNK));
    assume(i < t.len());
    let parent = t[i];
    assume(parent != ElementType::WordReference);
    let child = t[conc(index(t.len()))];
    let (mut d, s, p) = start(parent);
    // whether it has a child of the type, rightly or not
    if child != ElementType::WordReference && flag() { must(d.add_element_to(p, elem(child))); }
    let mut e = elem(child);
    if in_group(ElementGroup::Span, child) { e = e.with_attrib(set("x")).with_span(&["w0"]) }
    if child == ElementType::WordReference { e = e.with_attrib(Attribute::Idref("w0".into())) }
    let mut ok = allowed(parent, child);
    // a word reference belongs in a span
    if child == ElementType::WordReference && !in_group(ElementGroup::Span, parent) { ok = false }
    let before = snap(&d);
    match d.annotate(p, e) {
        Ok(k) => {
            check!(ok, "a child the specification does not list is refused");
            check!(el(&d, k).elementtype() == child, "an accepted child is added");
            let q = el(&d, k).parent_key();
            if in_group(ElementGroup::Span, child) && (props(parent).wrefable || in_group(ElementGroup::Structure, parent)) {
                let q = match q { Some(q) => q, None => fail!("an accepted span is added to its layer") };
                check!(Some(el(&d, q).elementtype()) == layertype(child) && el(&d, q).parent_key() == Some(if props(parent).wrefable { s } else { p }), "an accepted span is added to its layer");
            } else { check!(q == Some(p), "an accepted child is added to its parent") }
            consistent(&d);
            reach!("c13.accepted");
        }
        Err(_) => {
            check!(!ok, "a child the specification lists is accepted");
            check!(before == snap(&d), "a refused annotation leaves the document as it was");
            reach!("c13.refused");
        }
    }
});

harness!(ADDABLE_H, c13_addable, "C13", quick [(0, 11)], thorough [], reach ["c13.addable"],
    "check_element_addable for every pair of parent type (chunk of twelve per case) and child type (symbolic); the parent is empty, has a child of the type already, has one of it and text, or is such a child itself in a parent of its own type", |case| {
    let t = all_types();
    let i = case as usize * CHUNK + choose(CHUNK);
    assume(i < t.len());
    let parent = t[i];
    let mut d = new_doc();
    let mut p = must(d.add_element(elem(parent)));
    let child = t[index(t.len())];
    let ok = accepts(parent, child);
    match if child == ElementType::WordReference { 0 } else { choose(if parent == ElementType::WordReference { 3 } else { 4 }) } {
        1 => { must(d.add_element_to(p, elem(child))); }
        2 => { must(d.add_element_to(p, elem(child).with_attrib(id("h")).with(DataType::Text("t".into())))); must(d.add_element_to(p, elem(child))); }
        3 => { let q = must(d.add_element_to(p, elem(child))); p = must(d.add_element_to(q, elem(parent))); }
        _ => {}
    }
    check!(d.check_element_addable(p, &elem(child)).is_ok() == ok, "an element is addable exactly if the specification lists its type or a group containing it");
    check!(d.check_element_addable(p + 9, &elem(child)).is_err(), "nothing is addable to an element that does not exist");
    reach!("c13.addable");
});

harness!(BAD_H, c13_refused, "C13", quick [(0, 2)], thorough [], reach ["c13.bad"],
    "an annotation that is refused for what it holds, at any of three nesting depths and with other new elements before and after: an identifier in use or used twice, a reference to nothing or outside a span, a feature outside an annotation, a child that does not exist or holds the parent, a parent that does not exist, a span without set or without words; new sets and classes (symbolic) in it", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let p = must(d.annotate(0, elem(ElementType::Paragraph).with_attrib(id("p"))));
    let s = must(d.annotate(p, elem(ElementType::Sentence).with_attrib(id("s"))));
    must(d.annotate(s, elem(ElementType::Word).with_attrib(id("w0"))));
    let before = snap(&d);
    let fresh = |c: &str| elem(ElementType::PosAnnotation).with_attrib(Attribute::Set(c.to_string())).with_attrib(Attribute::Class(c.to_string()));
    let wrap = |x: ElementData, pre: bool, post: bool| {
        let mut e = elem(ElementType::Quote);
        if pre { e = e.add_element(fresh("a")).with(DataType::Text("t".into())) }
        e = e.add_element(x);
        if post { e = e.add_element(fresh("b")) }
        e
    };
    let depth = choose(3);
    let (pre, post) = (flag(), flag());
    let kind = choose(9);
    let c = sstr(1, LETTER);
    let mut bad = match kind {
        0 => elem(ElementType::Sentence).with_attrib(id(["w0", "s", "p"][choose(3)])),
        1 => elem(ElementType::Sentence).with_attrib(Attribute::Id(c.clone())).add_element(elem(ElementType::Word).with_attrib(Attribute::Id(c.clone()))),
        2 => elem(ElementType::Entity).with_attrib(set("x")).with_attrib(Attribute::Class(c.clone())).with_span(&["w0", &format!("n{}", c)]),
        3 => elem(ElementType::Sentence).add_element(elem(ElementType::WordReference).with_attrib(Attribute::Idref("w0".into()))),
        4 => elem(ElementType::Entity).with_attrib(set("x")).add_element(elem(ElementType::WordReference)),
        5 => elem(ElementType::Sentence).with(DataType::Element(77)),
        6 => elem(ElementType::Sentence).with(DataType::Element(if flag() { s } else { p })),
        _ => elem(ElementType::Sentence),
    };
    // the last two are wrong at the outside
    let r = match kind {
        7 => d.annotate(99, fresh(&c)),
        8 => if flag() { d.annotate(s, elem(ElementType::Entity).with_attrib(Attribute::Class(c)).with_span(&["w0"])) } else { d.annotate_span(elem(ElementType::Entity).with_attrib(set("x")).with_attrib(Attribute::Class(c))) },
        _ => {
            if in_group(ElementGroup::Span, bad.elementtype) { bad = if depth == 0 { bad } else { elem(ElementType::EntitiesLayer).add_element(bad) } }
            for _ in 0..depth { bad = wrap(bad, pre, post) }
            if kind == 6 || case == 1 { d.add_element_to(s, bad) } else { d.annotate(s, if depth == 0 && !in_group(ElementGroup::Span, bad.elementtype) { wrap(bad, pre, post) } else { bad }) }
        }
    };
    check!(r.is_err(), "an annotation that cannot be made is refused");
    check!(before == snap(&d), "a refused annotation leaves the document as it was");
    consistent(&d);
    // and the document is as good as ever
    let k = must(d.annotate(s, fresh("a")));
    check!(opt_eq(el(&d, k).class(), Some("a")) && opt_eq(el(&d, k).set(), Some("a")), "after a refused annotation others are made as before");
    reach!("c13.bad");
});

pub const ALL: &[H] = &[PAIR_H, ADDABLE_H, BAD_H];
