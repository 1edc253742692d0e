//! C02: the element tree stays consistent under every editing history
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

/// reference model: parent and data of every element
struct Model { parent: Vec<Option<usize>>, data: Vec<Vec<DataType>> }
impl Model {
    fn below(&self, k: usize, a: usize) -> bool { let mut q = Some(k); while let Some(x) = q { if x == a { return true } q = self.parent[x] } false }
    fn detach(&mut self, c: usize) { if let Some(p) = self.parent[c].take() { self.data[p].retain(|x| *x != DataType::Element(c as ElementKey)) } }
    fn attach(&mut self, p: usize, c: usize) { self.detach(c); self.parent[c] = Some(p); self.data[p].push(DataType::Element(c as ElementKey)) }
    fn add(&mut self, p: Option<usize>, key: ElementKey) { let k = self.parent.len(); check!(key as usize == k, "a new element gets a key of its own"); self.parent.push(None); self.data.push(vec![]); if let Some(p) = p { self.attach(p, k) } }
    fn agree(&self, d: &Document) {
        check!(nelements(d) == self.parent.len(), "no element is lost or invented");
        for k in 0..self.parent.len() {
            let e = el(d, k as ElementKey);
            check!(e.parent_key() == self.parent[k].map(|p| p as ElementKey), "an element has the parent it was given");
            let data = data_of(d, k as ElementKey);
            check!(data.len() == self.data[k].len(), "a parent has exactly the children it was given");
            for (a, b) in data.iter().zip(self.data[k].iter()) { check!(**a == *b, "children keep their order, a moved one comes last") }
            if let Some(p) = self.parent[k] { check!(e.get_index().map(|i| self.data[p][i] == DataType::Element(k as ElementKey)) == Some(true), "an element's index is its place among the children") }
        }
        consistent(d);
    }
}
fn start() -> (Document, Model) { (new_doc(), Model { parent: vec![None], data: vec![vec![]] }) }
/// adds a division with an optional text before it
fn grow(d: &mut Document, m: &mut Model, p: usize) { let k = must(d.add_element_to(p as ElementKey, elem(ElementType::Division))); m.add(Some(p), k) }

/// one arbitrary editing step
fn step(d: &mut Document, m: &mut Model, maxn: usize) {
    let n = m.parent.len();
    match choose(if n < maxn { 5 } else { 3 }) {
        0 | 1 => {
            let (p, c) = (choose(n), choose(n));
            let r = d.attach_element(p as ElementKey, c as ElementKey);
            if m.below(p, c) { check!(r.is_err(), "attaching an element to itself or to its own descendant is refused") }
            else { check!(r.is_ok(), "any other element can be attached"); m.attach(p, c) }
        }
        2 => { let c = choose(n); check!(d.detach_element(c as ElementKey).is_ok(), "an existing element can be detached"); m.detach(c) }
        3 => { let k = must(d.add_element(elem(ElementType::Division))); m.add(None, k) }
        _ => { let p = choose(n); let k = must(d.annotate(p as ElementKey, elem(ElementType::Division))); m.add(Some(p), k) }
    }
}
harness!(HIST_H, c02_history, "C02", quick [(0, 6)], thorough [(6, 24)], reach ["c02.moved"],
    "every tree of three divisions under the body (one tree per case; thorough: of four), then every history of three steps out of attach (any element to any), detach, add an orphan, annotate under any element; at most one element more", |case| {
    let (mut d, mut m) = start();
    let (mut c, n) = if case < 6 { (case as usize, 3) } else { (case as usize - 6, 4) };
    if n == 4 { grow(&mut d, &mut m, 0); c += 6; }
    for i in 0..3 { let w = 1 + i + (n - 3); grow(&mut d, &mut m, c % w); c /= w; }
    for _ in 0..(if n == 3 { 3 } else { 2 }) { step(&mut d, &mut m, n + 2); m.agree(&d); }
    reach!("c02.moved");
});

harness!(MIXED_H, c02_mixed, "C02", quick [(0, 3)], thorough [], reach ["c02.mixed"],
    "a parent whose data mixes text, comments, child elements and references by spans in an arbitrary order of four; any child is moved to another parent, back, or detached and attached again", |case| {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let t = must(d.annotate(0, elem(ElementType::Sentence)));
    let mut items = vec![];
    let mut kids = vec![];
    for _ in 0..(2 + case) {
        let k = choose(3);
        if k == 0 { let x = sstr(1, LETTER); edit(&mut d, s).push(DataType::Text(x.clone())); items.push(DataType::Text(x)) }
        else if k == 1 { edit(&mut d, s).push(DataType::Comment("c".into())); items.push(DataType::Comment("c".into())) }
        else { let w = must(d.annotate(s, elem(ElementType::Word))); items.push(DataType::Element(w)); kids.push(w) }
    }
    assume(!kids.is_empty());
    let w = kids[choose(kids.len())];
    let there = flag();
    let (dest, other) = if there { (t, s) } else { (s, t) };
    if flag() { check!(d.detach_element(w).is_ok(), "an existing element can be detached"); check!(el(&d, w).parent_key().is_none(), "a detached element has no parent"); consistent(&d) }
    check!(d.attach_element(dest, w).is_ok(), "any other element can be attached");
    items.retain(|x| *x != DataType::Element(w));
    let mut want = items.clone();
    if !there { want.push(DataType::Element(w)) }
    let same = |k: ElementKey, want: &Vec<DataType>| { let x = data_of(&d, k); x.len() == want.len() && x.iter().zip(want.iter()).all(|(a, b)| **a == *b) };
    check!(same(s, &want), "moving a child leaves all other data and its order as it was");
    check!(same(other, &if there { items } else { vec![] }), "moving a child leaves all other data and its order as it was");
    if there { check!(same(t, &vec![DataType::Element(w)]), "a moved child comes last under its new parent") }
    consistent(&d);
    reach!("c02.mixed");
});

harness!(SPAN_H, c02_spans, "C02", quick [(0, 2)], thorough [(2, 3)], reach ["c02.spans"],
    "a sentence of three words with one or two span annotations over arbitrary words; then case moves of any element under any other", |case| {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    for i in 0..3 { must(d.annotate(s, elem(ElementType::Word).with_attrib(Attribute::Id(format!("w{}", i))))); }
    let w = ["w0", "w1", "w2"];
    let (a, b) = (choose(3), choose(3));
    must(d.annotate(s, elem(ElementType::Entity).with_attrib(set("x")).with_attrib(class("c")).with_span(&[w[a]])));
    if flag() { must(d.annotate(s, elem(ElementType::Entity).with_attrib(set("x")).with_attrib(class("c")).with_span(&[w[b]]))); }
    consistent(&d);
    let n = nelements(&d);
    for _ in 0..case {
        let (p, c) = (choose(n) as ElementKey, choose(n) as ElementKey);
        let old = (child_keys(&d, p), el(&d, c).parent_key());
        let refs: Vec<Vec<DataType>> = (0..n).map(|k| data_of(&d, k as ElementKey).into_iter().filter(|x| matches!(x, DataType::SpanReference(_))).cloned().collect()).collect();
        if d.attach_element(p, c).is_ok() {
            let mut want: Vec<ElementKey> = old.0.into_iter().filter(|x| *x != c).collect();
            want.push(c);
            check!(child_keys(&d, p) == want, "a moved child comes last under its new parent");
        } else { check!(child_keys(&d, p) == old.0 && el(&d, c).parent_key() == old.1, "a refused move changes nothing") }
        for k in 0..n { let now: Vec<DataType> = data_of(&d, k as ElementKey).into_iter().filter(|x| matches!(x, DataType::SpanReference(_))).cloned().collect(); check!(now == refs[k], "moving an element leaves the references by spans as they were") }
        consistent(&d);
    }
    reach!("c02.spans");
});

harness!(BUILD_H, c02_builders, "C02", quick [(0, 4)], thorough [(4, 5)], reach ["c02.build"],
    "an element built with up to case nested new children and with up to one existing element (of two, one of them the intended parent or below it) as a child", |case| {
    let mut d = new_doc();
    let a = must(d.annotate(0, elem(ElementType::Division)));
    let b = must(d.annotate(if flag() { a } else { 0 }, elem(ElementType::Division)));
    let mut e = elem(ElementType::Division);
    // the shape of the new children: each goes under the last one or beside it
    let mut depth1: Vec<ElementData> = vec![];
    for _ in 0..case { let c = elem(ElementType::Division); if !depth1.is_empty() && flag() { let l = depth1.pop(); if let Some(l) = l { depth1.push(l.add_element(c)) } } else { depth1.push(c) } }
    let total: usize = case as usize + 1;
    for c in depth1 { e = e.add_element(c) }
    let p = [0, a, b][choose(3)];
    let with = choose(3);
    if with > 0 { e = e.with(DataType::Element([a, b][with - 1])) }
    let before = snap(&d);
    let ex = if with > 0 { Some([a, b][with - 1]) } else { None };
    // an existing child must not be the parent or above it
    let bad = match ex { Some(x) => { let mut q = Some(p); let mut r = false; while let Some(y) = q { if y == x { r = true } q = el(&d, y).parent_key() } r } None => false };
    match if flag() { d.annotate(p, e) } else { d.add_element_to(p, e) } {
        Ok(k) => {
            check!(!bad, "an element never becomes its own ancestor");
            check!(nelements(&d) == before.n + total, "every new element is added once");
            check!(el(&d, k).parent_key() == Some(p), "the new element is under the parent asked for");
            check!(child_keys(&d, p).last() == Some(&k), "a new child comes last");
            if let Some(x) = ex { check!(el(&d, x).parent_key() == Some(k), "an existing element given as child moves to the new element") }
        }
        Err(_) => { check!(bad, "an element that can be added is added"); check!(snap(&d) == before, "a refused addition changes nothing") }
    }
    consistent(&d);
    reach!("c02.build");
});

harness!(PARSE_H, c02_parsed, "C02", quick [(0, 3)], thorough [(3, 5)], reach ["c02.parsed"],
    "a parsed document whose body is any properly nested sequence of 2+case divisions, notes and text, then one move of any element", |case| {
    let mut x = String::new();
    let mut depth = 0;
    let mut opened = 0;
    let n = 2 + case as usize;
    // 0 open, 1 close, 2 comment
    for _ in 0..2 * n {
        let k = choose(3);
        if k == 0 && opened < n { x.push_str("<div>"); depth += 1; opened += 1 }
        else if k == 1 && depth > 0 { x.push_str("</div>"); depth -= 1 }
        else if k == 2 && depth > 0 && !x.ends_with("-->") { x.push_str("<!--c-->") }
        else { assume(false) }
        if opened == n && depth == 0 { break }
    }
    for _ in 0..depth { x.push_str("</div>") }
    let mut d = match parse(&folia_xml("", &x)) { Ok(d) => d, Err(_) => fail!("a well-formed document parses") };
    consistent(&d);
    check!(nelements(&d) == opened + 1, "every element of the document is there");
    let c = choose(opened + 1) as ElementKey;
    let p = choose(opened + 1) as ElementKey;
    let _ = d.attach_element(p, c);
    consistent(&d);
    reach!("c02.parsed");
});
harness!(BYID_H, c02_by_id, "C02", quick [(0, 3)], thorough [(3, 5)], reach ["c02.byid", "c02.byid.moved"],
    "three elements under the body (nested or not) with symbolic identifiers; 1+case moves whose operands are looked up by symbolic identifiers; the same history on a model", |case| {
    let (mut d, mut m) = start();
    let mut names: Vec<String> = vec!["doc.text".into()];
    for i in 0..3 {
        let x = sstr(1, LETTER);
        let p = if case % 2 == 0 { 0 } else { i };
        match d.annotate(p as ElementKey, elem(ElementType::Division).with_attrib(Attribute::Id(x.clone()))) {
            Ok(k) => { check!(!names.contains(&x), "an element whose identifier is in use is not added"); m.add(Some(p), k) }
            Err(_) => { check!(names.contains(&x), "an element the document can hold is added"); assume(false) }
        }
        names.push(x);
    }
    let root = match d.get_element_by_id("doc.text") { Some(e) => e.key() == Some(0), None => false };
    for _ in 0..1 + case {
        let (a, b) = (sstr(1, LETTER), sstr(1, LETTER));
        let (p, c) = (d.get_element_key_by_id(&a), d.get_element_key_by_id(&b));
        for (k, q) in [(p, &a), (c, &b)] { match k { Some(k) => check!(names[k as usize] == *q, "an identifier denotes the element that carries it"), None => check!(!names.contains(q), "an identifier denotes the element that carries it") } }
        if let (Some(p), Some(c)) = (p, c) {
            let (p, c) = (p as usize, c as usize);
            let r = d.attach_element(p as ElementKey, c as ElementKey);
            if m.below(p, c) { check!(r.is_err(), "attaching an element to itself or to its own descendant is refused") }
            else { check!(r.is_ok(), "any other element can be attached"); m.attach(p, c); reach!("c02.byid.moved") }
        }
        m.agree(&d);
    }
    let _ = root;
    reach!("c02.byid");
});
harness!(SPAN2_H, c02_span_moves, "C02", quick [(0, 3)], thorough [(3, 4)], reach ["c02.smoves"],
    "a sentence of two words with a span annotation over one or both, and its layer; the span, a reference in it, its layer or a word is attached to any element, and then (case: the same one, another one) attached elsewhere or detached: parents, children and references of every element", |case| {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    for i in 0..2 { must(d.annotate(s, elem(ElementType::Word).with_attrib(Attribute::Id(format!("w{}", i))))); }
    let words: &[&str] = match choose(3) { 0 => &["w0"], 1 => &["w0", "w1"], _ => &["w1", "w0"] };
    must(d.annotate(s, elem(ElementType::Entity).with_attrib(set("x")).with_attrib(class("c")).with_span(words)));
    let n = nelements(&d);
    let mut m = Model { parent: (0..n).map(|k| el(&d, k as ElementKey).parent_key().map(|p| p as usize)).collect(), data: (0..n).map(|k| data_of(&d, k as ElementKey).into_iter().cloned().collect()).collect() };
    m.agree(&d);
    let mut c = 1 + choose(n - 1);
    for i in 0..2 + (case == 3) as usize {
        if i > 0 && case != 0 { c = 1 + choose(n - 1) }
        if i > 0 && case == 2 { check!(d.detach_element(c as ElementKey).is_ok(), "an existing element can be detached"); m.detach(c) }
        else {
            let p = choose(n);
            let r = d.attach_element(p as ElementKey, c as ElementKey);
            if m.below(p, c) { check!(r.is_err(), "attaching an element to itself or to its own descendant is refused") } else { check!(r.is_ok(), "any other element can be attached"); m.attach(p, c) }
        }
        m.agree(&d);
    }
    reach!("c02.smoves");
});
harness!(SIZE_H, c02_sizes, "C02", quick [(0, 10)], thorough [(10, 14)], reach ["c02.sizes"],
    "a chain of 3, 9, 24, 70 or 300 (thorough: 1100) divisions under each other (even cases), or that many beside each other under one (odd cases), and two steps (one, from 70 on) out of attach (any of the first, second, middle, last but one and last to any of them, or to the body) and detach", |case| {
    let (mut d, mut m) = start();
    let n = [3, 9, 24, 70, 300, 150, 1100][case as usize / 2];
    for i in 0..n { let p = if case & 1 == 0 { i } else if i == 0 { 0 } else { 1 }; grow(&mut d, &mut m, p) }
    let any = |what: usize| [1, 2, n / 2 + 1, n - 1, n, 0][choose(what)];
    for _ in 0..(if n < 70 { 2 } else { 1 }) {
        if flag() {
            let (p, c) = (any(6), any(5));
            let r = d.attach_element(p as ElementKey, c as ElementKey);
            if m.below(p, c) { check!(r.is_err(), "attaching an element to itself or to its own descendant is refused") }
            else { check!(r.is_ok(), "any other element can be attached"); m.attach(p, c) }
        } else { let c = any(5); check!(d.detach_element(c as ElementKey).is_ok(), "an existing element can be detached"); m.detach(c) }
        m.agree(&d);
    }
    reach!("c02.sizes");
});
pub const ALL: &[H] = &[SPAN2_H, HIST_H, MIXED_H, SPAN_H, BUILD_H, PARSE_H, BYID_H, SIZE_H];
