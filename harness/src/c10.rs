//! C10: stores hand out stable, unique keys and refuse what cannot be keyed
use crate::model::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};
use std::borrow::Cow;

#[derive(Clone)]
struct Item { name: Option<String>, tag: u32, key: Option<u8>, distinct: bool }
impl Storable<u8> for Item {
    fn maybe_id(&self) -> Option<Cow<'_, str>> { self.name.as_ref().map(|s| Cow::Borrowed(s.as_str())) }
    fn distinct(&self) -> bool { self.distinct }
    fn key(&self) -> Option<u8> { self.key }
    fn assign_key(&mut self, k: u8) { self.key = Some(k) }
}
#[derive(Default)]
struct S { items: Vec<Option<Box<Item>>>, index: HashMap<String, u8> }
impl Store<Item, u8> for S {
    fn items_mut(&mut self) -> &mut Vec<Option<Box<Item>>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, u8> { &mut self.index }
    fn items(&self) -> &Vec<Option<Box<Item>>> { &self.items }
    fn iter(&self) -> std::slice::Iter<'_, Option<Box<Item>>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, u8> { &self.index }
}
#[derive(Default)]
struct T { items: Vec<Option<String>>, index: HashMap<String, u8> }
impl StringStore<u8> for T {
    fn items_mut(&mut self) -> &mut Vec<Option<String>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, u8> { &mut self.index }
    fn items(&self) -> &Vec<Option<String>> { &self.items }
    fn iter(&self) -> std::slice::Iter<'_, Option<String>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, u8> { &self.index }
}
/// reference: (identifier, tag) by key
type R = Vec<(Option<String>, u32)>;
fn find(r: &R, n: &Option<String>) -> Option<usize> { if let Some(n) = n { for (i, (m, _)) in r.iter().enumerate() { if let Some(m) = m { if m == n { return Some(i) } } } } None }
fn agree(s: &mut S, r: &R, from: usize) {
    check!(s.len() == r.len() && s.is_empty() == r.is_empty(), "a store holds exactly what was added");
    for i in from..r.len() {
        let (n, t) = &r[i];
        match s.get(i as u8) { Some(x) => check!(x.tag == *t && x.key == Some(i as u8), "a key retrieves exactly the item it was given for"), None => fail!("a key retrieves exactly the item it was given for") }
        match s.get_mut(i as u8) { Some(x) => check!(x.tag == *t, "a key retrieves exactly the item it was given for"), None => fail!("a key retrieves exactly the item it was given for") }
        if let Some(n) = n {
            check!(s.id_to_key(n) == Some(i as u8), "an identifier resolves to the key of its item");
            check!(s.get_by_id(n).map(|x| x.tag == *t) == Some(true), "an identifier retrieves exactly its item");
            check!(s.get_mut_by_id(n).map(|x| x.tag == *t) == Some(true), "an identifier retrieves exactly its item");
        }
    }
}
fn fill(s: &mut S, r: &mut R, n: usize) { for i in 0..n { let k = s.add(Item { name: None, tag: i as u32, key: None, distinct: false }, None); check!(matches!(k, Ok(k) if k as usize == i), "distinct items get distinct keys"); r.push((None, i as u32)) } }
fn step(s: &mut S, r: &mut R, i: usize, len: usize) {
    let name = if flag() { Some(sstr(len, LETTER)) } else { None };
    let distinct = flag();
    let tag = 1000 + i as u32;
    let old = find(r, &name);
    check!(s.get_key(&Item { name: name.clone(), tag, key: None, distinct }).map(|k| k as usize) == old, "an item's key is that of the item with its identifier");
    match s.add(Item { name: name.clone(), tag, key: None, distinct }, None) {
        Ok(k) => match old {
            Some(o) => check!(!distinct && k as usize == o, "the same identifiable item gets the same key"),
            None => { check!(k as usize == r.len(), "distinct items get distinct keys"); check!(r.len() < 256, "more items than the key type can number are refused"); r.push((name, tag)) }
        },
        Err(_) => check!(old.is_some() && distinct || old.is_none() && r.len() >= 256, "an addition fails only when there is no key or the identifier is taken"),
    }
}
harness!(ADD_H, c10_items, "C10", quick [(2, 5)], thorough [(5, 6)], reach ["c10.items"],
    "2 to 4 (thorough: 5) additions of items with or without an identifier of one symbolic letter, distinct or not, to an empty store", |case| {
    let (mut s, mut r) = (S::default(), vec![]);
    for i in 0..case as usize { step(&mut s, &mut r, i, 1); agree(&mut s, &r, 0) }
    let probe = sstr(1, LETTER);
    check!(s.id_to_key(&probe).map(|k| k as usize) == find(&r, &Some(probe.clone())), "an unknown identifier resolves to nothing");
    check!(s.get(case as u8 + 1).is_none() && s.get_mut(case as u8 + 1).is_none(), "a key that was not handed out retrieves nothing");
    reach!("c10.items");
});
harness!(FULL_H, c10_full, "C10", quick [(252, 258)], thorough [], reach ["c10.full"],
    "a store with eight bit keys that already holds case items (up to its capacity of 256); then three additions with or without identifiers of one symbolic letter", |case| {
    let (mut s, mut r) = (S::default(), vec![]);
    let n = if case > 256 { 256 } else { case as usize };
    fill(&mut s, &mut r, n);
    for i in 0..3 { step(&mut s, &mut r, i, 1); agree(&mut s, &r, n) }
    agree(&mut s, &r, 0);
    reach!("c10.full");
});
fn tagree(s: &mut T, r: &[String], from: usize) {
    check!(s.len() == r.len() && s.is_empty() == r.is_empty(), "a store holds exactly what was added");
    for i in from..r.len() {
        check!(opt_eq(s.get(i as u8), Some(&r[i])), "a key retrieves exactly the string it was given for");
        check!(s.get_mut(i as u8).map(|x| *x == r[i]) == Some(true), "a key retrieves exactly the string it was given for");
        check!(s.get_key(&r[i]) == Some(i as u8), "a string resolves to its key");
    }
}
fn tstep(s: &mut T, r: &mut Vec<String>, len: usize, dom: Dom) {
    let x = sstr(len, dom);
    let mut old = None;
    for (i, y) in r.iter().enumerate() { if *y == x { old = Some(i); break } }
    check!(s.get_key(&x).map(|k| k as usize) == old, "a string resolves to its key");
    let item = if flag() { Cow::Borrowed(x.as_str()) } else { Cow::Owned(x.clone()) };
    match s.add(item) {
        Ok(k) => match old { Some(o) => check!(k as usize == o, "the same string gets the same key"), None => { check!(k as usize == r.len(), "distinct strings get distinct keys"); check!(r.len() < 256, "more items than the key type can number are refused"); r.push(x) } },
        Err(_) => check!(old.is_none() && r.len() >= 256, "an addition fails only when there is no key"),
    }
}
harness!(STR_H, c10_strings, "C10", quick [(2, 6)], thorough [(6, 8)], reach ["c10.str"],
    "3 additions of strings of case symbolic printable characters (case 2: also empty) to an empty string store", |case| {
    let (mut s, mut r) = (T::default(), vec![]);
    for _ in 0..3 { let l = if case == 2 { choose(3) } else { case as usize }; tstep(&mut s, &mut r, l, VISIBLE); tagree(&mut s, &r, 0) }
    check!(s.get(r.len() as u8).is_none() && s.get_mut(r.len() as u8).is_none(), "a key that was not handed out retrieves nothing");
    reach!("c10.str");
});
harness!(STRFULL_H, c10_strings_full, "C10", quick [(253, 258)], thorough [], reach ["c10.strfull"],
    "a string store with eight bit keys that already holds case strings (up to its capacity of 256); then three additions of one symbolic letter, also of a string it holds", |case| {
    let (mut s, mut r) = (T::default(), vec![]);
    let n = if case > 256 { 256 } else { case as usize };
    for i in 0..n { let x = format!("{:03}", i); check!(matches!(s.add(Cow::Borrowed(&x)), Ok(k) if k as usize == i), "distinct strings get distinct keys"); r.push(x) }
    for _ in 0..3 { tstep(&mut s, &mut r, 1, LETTER); tagree(&mut s, &r, n) }
    check!(matches!(s.add(Cow::Borrowed("007")), Ok(7)), "the same string gets the same key");
    tagree(&mut s, &r, 0);
    reach!("c10.strfull");
});
harness!(CLASS_H, c10_declaration, "C10", quick [(0, 4)], thorough [], reach ["c10.class"],
    "a declaration's classes, subsets and feature classes: four additions of one or two symbolic letters to any of the three", |case| {
    let mut d = Declaration::new(AnnotationType::POS, None, None, None);
    let mut r: Vec<Vec<String>> = vec![vec![], vec![], vec![]];
    for i in 0..4 {
        let w = choose(3);
        let x = sstr(1 + ((case as usize) >> (i & 1) & 1), LETTER);
        let mut old = None;
        for (j, y) in r[w].iter().enumerate() { if *y == x { old = Some(j); break } }
        let look = match w { 0 => d.class_key(&x).map(|k| k as usize), 1 => d.subset_key(&x).map(|k| k as usize), _ => d.subclass_key(&x).map(|k| k as usize) };
        check!(look == old, "a string resolves to its key");
        let k = match w { 0 => d.add_class(Cow::Borrowed(&x)).map(|k| k as usize), 1 => d.add_subset(Cow::Borrowed(&x)).map(|k| k as usize), _ => d.add_subclass(Cow::Borrowed(&x)).map(|k| k as usize) };
        match k { Ok(k) => { check!(k == old.unwrap_or(r[w].len()), "the same string gets the same key, another one another"); if old.is_none() { r[w].push(x) } } Err(_) => fail!("a class can be added") }
        for (j, y) in r[0].iter().enumerate() { check!(opt_eq(d.get_class(j as ClassKey), Some(y)), "a key retrieves exactly the class it was given for") }
        for (j, y) in r[1].iter().enumerate() { check!(opt_eq(d.get_subset(j as SubsetKey), Some(y)), "a key retrieves exactly the subset it was given for") }
        for (j, y) in r[2].iter().enumerate() { check!(opt_eq(d.get_subclass(j as ClassKey), Some(y)), "a key retrieves exactly the feature class it was given for") }
    }
    if let Some(t) = &d.subsets { check!(t.iter().count() == r[1].len() && t.iter().zip(r[1].iter()).all(|(a, b)| a.as_ref() == Some(b)), "iterating over a store gives every item once, in the order of their keys") }
    if let Some(t) = &d.classes { check!(t.iter().count() == r[0].len() && t.iter().zip(r[0].iter()).all(|(a, b)| a.as_ref() == Some(b)), "iterating over a store gives every item once, in the order of their keys") }
    reach!("c10.class");
});
harness!(DOC_H, c10_document, "C10", quick [(0, 3)], thorough [], reach ["c10.doc"],
    "the three stores of a document: three additions of elements, declarations and processors in any order, with identifiers (sets) of one symbolic letter or none", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let (mut es, mut ds, mut ps): (Vec<Option<String>>, Vec<Option<String>>, Vec<String>) = (vec![None], vec![], vec![]);
    for i in 0..3 {
        match (choose(3) + case as usize + i) % 3 {
            0 => {
                let n = if flag() { Some(sstr(1, LETTER)) } else { None };
                let mut dup = false;
                if n.is_some() { for m in es.iter() { if opt_eq(m.as_deref(), n.as_deref()) { dup = true; break } } }
                let mut e = elem(ElementType::Note);
                if let Some(n) = &n { e = e.with_attrib(Attribute::Id(n.clone())) }
                match Store::<ElementData, ElementKey>::add(&mut d, e, None) { Ok(k) => { check!(!dup && k as usize == es.len(), "distinct items get distinct keys"); es.push(n) } Err(_) => check!(dup, "an addition fails only when the identifier is taken") }
            }
            1 => {
                let n = if flag() { Some(sstr(1, LETTER)) } else { None };
                let mut old = None;
                for (j, m) in ds.iter().enumerate() { if opt_eq(m.as_deref(), n.as_deref()) { old = Some(j); break } }
                match d.add_declaration(Declaration::new(AnnotationType::POS, n.clone(), None, None)) { Ok(k) => { check!(k as usize == old.unwrap_or(ds.len()), "the same identifiable item gets the same key, another one another"); if old.is_none() { ds.push(n) } } Err(_) => fail!("a declaration can be added") }
            }
            _ => {
                let n = sstr(1, LETTER);
                let mut old = None;
                for (j, m) in ps.iter().enumerate() { if *m == n { old = Some(j); break } }
                match d.add_provenance(Processor::new("n".into()).with_id(n.clone())) { Ok(k) => { check!(k as usize == old.unwrap_or(ps.len()), "the same identifiable item gets the same key, another one another"); if old.is_none() { ps.push(n) } } Err(_) => fail!("a processor can be added") }
            }
        }
        check!(nelements(&d) == es.len() && Store::<Declaration, DecKey>::len(&d) == ds.len() && Store::<Processor, ProcKey>::len(&d) == ps.len(), "a store holds exactly what was added");
        for (j, n) in es.iter().enumerate() { check!(opt_eq(el(&d, j as ElementKey).id(), n.as_deref()), "a key retrieves exactly the item it was given for"); if let Some(n) = n { check!(d.get_element_key_by_id(n) == Some(j as ElementKey), "an identifier resolves to the key of its item") } }
        for (j, n) in ds.iter().enumerate() { match d.get_declaration(j as DecKey) { Some(x) => check!(opt_eq(x.set.as_deref(), n.as_deref()) && x.key == Some(j as DecKey), "a key retrieves exactly the item it was given for"), None => fail!("a key retrieves exactly the item it was given for") } }
        for (j, n) in ps.iter().enumerate() { match d.get_processor(j as ProcKey) { Some(x) => check!(x.id == *n && x.key == Some(j as ProcKey), "a key retrieves exactly the item it was given for"), None => fail!("a key retrieves exactly the item it was given for") } check!(d.get_processor_key_by_id(n) == Some(j as ProcKey), "an identifier resolves to the key of its item") }
    }
    let n: Vec<usize> = vec![Store::<ElementData, ElementKey>::iter(&d).enumerate().filter(|(i, x)| x.as_ref().map(|x| x.key().map(|k| k as usize) == Some(*i)) == Some(true)).count(), Store::<Declaration, DecKey>::iter(&d).enumerate().filter(|(i, x)| x.as_ref().map(|x| x.key.map(|k| k as usize) == Some(*i)) == Some(true)).count(), Store::<Processor, ProcKey>::iter(&d).enumerate().filter(|(i, x)| x.as_ref().map(|x| x.key.map(|k| k as usize) == Some(*i)) == Some(true)).count()];
    check!(n[0] == es.len() && n[1] == ds.len() && n[2] == ps.len(), "iterating over a store gives every item once, in the order of their keys");
    reach!("c10.doc");
});
fn key16(r: Result<u16, FoliaError>) -> u16 { match r { Ok(k) => k, Err(_) => fail!("an item can be added") } }
harness!(CAP_H, c10_capacity, "C10", quick [(0, 4)], thorough [], reach ["c10.capacity"],
    "the stores with sixteen bit keys of a document (case 0: the subsets of a declaration, 1: processors, 2: declarations, 3: subprocessors) filled up to 0 to 2 items below their capacity of 65536; then three additions with names of one symbolic letter", |case| {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let room = choose(3);
    let n = 65536 - room;
    let (mut w, mut p, mut dk) = (0, 0, 0);
    match case {
        0 => {
            w = must(d.annotate(0, elem(ElementType::Word)));
            dk = key16(d.add_declaration(Declaration::new(AnnotationType::POS, Some("s".into()), None, None)));
            let mut t = SubsetStore::default();
            t.items_mut().resize_with(n, || None);
            match d.get_mut_declaration(dk) { Some(x) => x.subsets = Some(t), None => fail!("the declaration is there") }
        }
        2 => { let l = Store::<Declaration, DecKey>::len(&d); Store::<Declaration, DecKey>::items_mut(&mut d).resize_with(n.max(l), || None) }
        _ => { p = key16(d.add_processor(Processor::new("p".into()).with_id("p0".into()))); Store::<Processor, ProcKey>::items_mut(&mut d).resize_with(n, || None) }
    }
    let mut r: Vec<(String, usize)> = vec![];
    for _ in 0..3 {
        let x = sstr(1, LETTER);
        let mut old = None;
        for (y, k) in r.iter() { if *y == x { old = Some(*k); break } }
        let got = match case {
            0 => d.annotate(w, with(elem(ElementType::PosAnnotation), &Some("s".to_string()), &None, &None).add_element(feat(&None, &x, "c"))).map(|k| {
                let fk = child_keys(&d, k);
                check!(fk.len() == 1 && opt_eq(el(&d, fk[0]).subset(), Some(&x)) && opt_eq(el(&d, fk[0]).class(), Some("c")), "what can not be numbered is refused, not dropped");
                match el(&d, fk[0]).subset_key() { Some(k) => k as usize, None => fail!("what can not be numbered is refused, not dropped") }
            }),
            1 => d.add_processor(Processor::new("n".into()).with_id(x.clone())).map(|k| k as usize),
            2 => d.add_declaration(Declaration::new(AnnotationType::POS, Some(x.clone()), None, None)).map(|k| k as usize),
            _ => d.add_subprocessor(p, Processor::new("n".into()).with_id(x.clone())).map(|k| k as usize),
        };
        match got {
            Ok(k) => match old { Some(o) => check!(k == o, "the same identifiable item gets the same key"), None => { check!(k == n + r.len() && k < 65536, "more items than the key type can number are refused"); r.push((x, k)) } },
            Err(_) => check!(old.is_none() && r.len() == room, "an addition fails only when there is no key"),
        }
        let len = match case { 0 => match d.get_declaration(dk).and_then(|x| x.subsets.as_ref()) { Some(t) => t.len(), None => 0 }, 2 => Store::<Declaration, DecKey>::len(&d), _ => Store::<Processor, ProcKey>::len(&d) };
        check!(len == n + r.len(), "a store holds exactly what was added");
        for (y, k) in r.iter() {
            match case {
                0 => match d.get_declaration(dk) { Some(x) => check!(opt_eq(x.get_subset(*k as SubsetKey), Some(y)) && x.subset_key(y).map(|k| k as usize) == Some(*k), "a key retrieves exactly the item it was given for"), None => fail!("the declaration is there") },
                2 => check!(d.get_declaration(*k as DecKey).map(|x| opt_eq(x.set.as_deref(), Some(y))) == Some(true), "a key retrieves exactly the item it was given for"),
                _ => check!(d.get_processor(*k as ProcKey).map(|x| x.id == *y) == Some(true) && d.get_processor_key_by_id(y).map(|k| k as usize) == Some(*k), "a key retrieves exactly the item it was given for"),
            }
        }
        if case == 3 { match d.get_processor(p) { Some(x) => check!(x.processors.len() == r.len() && x.processors.iter().zip(r.iter()).all(|(a, b)| *a as usize == b.1), "a store holds exactly what was added"), None => fail!("the processor is there") } }
        if case == 1 { check!(d.provenancestore.chain.len() == r.len() + 1, "a store holds exactly what was added") }
    }
    if case == 0 { consistent(&d) }
    reach!("c10.capacity");
});
harness!(NEAR_H, c10_near, "C10", quick [(0, 2)], thorough [(2, 4)], reach ["c10.near"],
    "two strings, or items with identifiers (case mod 2), that are alike: one of 1, 4, 9, 20, 40, 130 or 260 (thorough: of any length up to 24) characters, the other with a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or twice the first; then a third like the first", |case| {
    let a = sample(if case < 2 { [1, 4, 9, 20, 40, 130, 260][choose(7)] } else { 1 + choose(24) });
    let l = [a.clone(), near(&a, VISIBLE), near(&a, VISIBLE)];
    let (mut s, mut t, mut r): (S, T, Vec<String>) = (S::default(), T::default(), vec![]);
    for x in l.iter() {
        let mut old = None;
        for (i, y) in r.iter().enumerate() { if y == x { old = Some(i); break } }
        let k = if case & 1 == 0 { check!(t.get_key(x).map(|k| k as usize) == old, "a string resolves to its key"); t.add(Cow::Borrowed(x)) } else { check!(s.id_to_key(x).map(|k| k as usize) == old, "an identifier resolves to the key of its item"); s.add(Item { name: Some(x.clone()), tag: r.len() as u32, key: None, distinct: false }, None) };
        match k { Ok(k) => check!(k as usize == old.unwrap_or(r.len()), "the same string gets the same key, another one another"), Err(_) => fail!("an addition fails only when there is no key") }
        if old.is_none() { r.push(x.clone()) }
    }
    if case & 1 == 0 { tagree(&mut t, &r, 0) } else { let q: R = r.iter().enumerate().map(|(i, x)| (Some(x.clone()), i as u32)).collect(); agree(&mut s, &q, 0) }
    reach!("c10.near");
});
pub const ALL: &[H] = &[NEAR_H, ADD_H, FULL_H, STR_H, STRFULL_H, CLASS_H, DOC_H, CAP_H];
