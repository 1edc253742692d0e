//! C07: ancestors are exactly the chain of parents, common ancestors those all share
use crate::golden::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};
use ElementType as E;

const KINDS: [ElementType; 4] = [E::Division, E::Paragraph, E::Division, E::Note];
/// an element's parents, nearest first, from the lists of children alone
fn chain(d: &Document, k: ElementKey) -> Vec<ElementKey> {
    let n = nelements(d) as ElementKey;
    let up: Vec<Option<ElementKey>> = (0..n).map(|c| (0..n).find(|p| child_keys(d, *p).contains(&c))).collect();
    let mut v = vec![];
    let mut c = k;
    while let Some(p) = up[c as usize] { v.push(p); c = p; if v.len() > 50 { fail!("ancestry ends") } }
    v
}
fn keys(i: AncestorIterator) -> Vec<ElementKey> { let mut v = vec![]; for e in i { match e.key() { Some(k) => v.push(k), None => fail!("an ancestor has a key") } if v.len() > 50 { fail!("ancestry ends") } } v }
fn same(got: &[ElementKey], want: &[ElementKey]) {
    check!(got.len() == want.len(), "every ancestor that satisfies the selection is there once");
    for (a, b) in got.iter().zip(want.iter()) { check!(a == b, "ancestors come nearest first") }
}
/// a document with n further elements under chosen parents; sets of divisions and paragraphs are of one symbolic letter or none
fn tree(n: usize, sets: bool) -> (Document, Vec<Option<String>>) {
    let mut d = new_doc();
    let mut s: Vec<Option<String>> = vec![None];
    for i in 0..n {
        let mut e = elem(KINDS[i % 4]);
        let x = if sets && i % 4 != 3 { Some(sstr(1, Dom::range(b'a', b'c'))) } else { None };
        if let Some(x) = &x { e = e.with_attrib(set(x)) }
        must(d.add_element_to(choose(i + 1) as ElementKey, e));
        s.push(x);
    }
    (d, s)
}
/// every way to ask for ancestors, for one element type or group
fn all_ways(d: &Document, k: ElementKey) { ways(d, k, &[E::Division, E::Paragraph, E::Text, E::Word], &[ElementGroup::Structure, ElementGroup::Span]) }
fn ways(d: &Document, k: ElementKey, types: &[ElementType], groups: &[ElementGroup]) {
    let c = chain(d, k);
    let e = el(d, k);
    same(&keys(e.ancestors(Selector::elements())), &c);
    same(&keys(e.ancestors(Selector::all_data())), &c);
    same(&keys(d.ancestors_by_key(k, Selector::default())), &c);
    check!(e.parent_key() == c.first().cloned() && e.get_parent().and_then(|p| p.key()) == c.first().cloned(), "the parent is the nearest ancestor");
    for t in types.iter() {
        let want: Vec<ElementKey> = c.iter().filter(|x| el(d, **x).elementtype() == *t).cloned().collect();
        same(&keys(e.get_ancestors(*t, Cmp::Any)), &want);
        same(&keys(d.ancestors_by_key(k, Selector::elements().element(Cmp::Is(*t)))), &want);
        check!(e.get_ancestor(*t, Cmp::Any).and_then(|x| x.key()) == want.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
    }
    for g in groups.iter() {
        let want: Vec<ElementKey> = c.iter().filter(|x| in_group(*g, el(d, **x).elementtype())).cloned().collect();
        same(&keys(e.get_ancestors_by_group(*g, Cmp::Any)), &want);
        check!(e.get_ancestor_by_group(*g, Cmp::Any).and_then(|x| x.key()) == want.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
    }
    match c.first() { Some(p) => check!(e.get_index() == data_of(d, *p).iter().position(|x| **x == DataType::Element(k)), "an element's index is its place in its parent"), None => check!(e.get_index().is_none(), "an element's index is its place in its parent") }
}
fn common(d: &Document, s: Selector, test: &dyn Fn(ElementKey) -> bool, l: &[ElementKey]) {
    let cs: Vec<Vec<ElementKey>> = l.iter().map(|k| chain(d, *k)).collect();
    let want: Vec<ElementKey> = if l.is_empty() { vec![] } else { cs[0].iter().filter(|a| test(**a) && cs.iter().all(|c| c.contains(a))).cloned().collect() };
    let got = d.common_ancestors(s, l);
    check!(got.len() == want.len(), "common ancestors are exactly those that all the elements have");
    for (a, b) in got.iter().zip(want.iter()) { check!(a == b, "common ancestors come nearest first") }
}
harness!(ALL_H, c07_ancestors, "C07", quick [(1, 6)], thorough [(6, 7)], reach ["c07.all"],
    "every tree of case (up to 5; thorough: 6) further elements of three types; the ancestors of every element in every way", |case| {
    let (d, _) = tree(case as usize, false);
    for k in 0..nelements(&d) { all_ways(&d, k as ElementKey) }
    reach!("c07.all");
});
harness!(SETS_H, c07_sets, "C07", quick [(2, 5)], thorough [(5, 6)], reach ["c07.sets"],
    "every tree of case (up to 4; thorough: 5) further elements with symbolic sets; ancestors by type or group and set (a symbolic letter, present, absent, none that exists)", |case| {
    let (d, s) = tree(case as usize, true);
    let q = match choose(4) { 0 => Cmp::Is(sstr(1, Dom::range(b'a', b'c'))), 1 => Cmp::Some, 2 => Cmp::None, _ => Cmp::Is("none".to_string()) };
    let ok = |k: ElementKey| match &q { Cmp::Is(x) => s[k as usize].as_ref() == Some(x), Cmp::Some => s[k as usize].is_some(), _ => s[k as usize].is_none() };
    for k in 0..nelements(&d) as ElementKey {
        let c = chain(&d, k);
        let e = el(&d, k);
        for t in [E::Division, E::Paragraph].iter() {
            let want: Vec<ElementKey> = c.iter().filter(|x| el(&d, **x).elementtype() == *t && ok(**x)).cloned().collect();
            same(&keys(e.get_ancestors(*t, q.clone())), &want);
            check!(e.get_ancestor(*t, q.clone()).and_then(|x| x.key()) == want.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
        }
        let want: Vec<ElementKey> = c.iter().filter(|x| in_group(ElementGroup::Structure, el(&d, **x).elementtype()) && ok(**x)).cloned().collect();
        same(&keys(e.get_ancestors_by_group(ElementGroup::Structure, q.clone())), &want);
        check!(e.get_ancestor_by_group(ElementGroup::Structure, q.clone()).and_then(|x| x.key()) == want.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
    }
    reach!("c07.sets");
});
harness!(COMMON_H, c07_common, "C07", quick [(3, 5)], thorough [(5, 7)], reach ["c07.common"],
    "every tree of case (up to 4; thorough: 6) further elements; the common ancestors, of any type, of one type or of one group, of up to three of its elements in any order, the same one twice, one the ancestor of another, or none", |case| {
    let (d, _) = tree(case as usize, false);
    let n = nelements(&d);
    let mut l: Vec<ElementKey> = vec![];
    for _ in 0..choose(4) { l.push(choose(n) as ElementKey) }
    common(&d, Selector::elements(), &|_| true, &l);
    common(&d, Selector::elements().element(Cmp::Is(E::Division)), &|k| el(&d, k).elementtype() == E::Division, &l);
    common(&d, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), &|_| false, &l);
    common(&d, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Structure)), &|k| in_group(ElementGroup::Structure, el(&d, k).elementtype()), &l);
    reach!("c07.common");
});
harness!(MOVE_H, c07_moves, "C07", quick [(2, 4)], thorough [(4, 5)], reach ["c07.moves"],
    "every tree of case (up to 3; thorough: 4) further elements, then two elements detached or attached elsewhere; the ancestors of every element in every way, and the common ancestors of every pair", |case| {
    let (mut d, _) = tree(case as usize, false);
    let n = nelements(&d);
    for _ in 0..2 {
        let c = 1 + choose(n - 1);
        // whether it was allowed is C02
        let _ = if flag() { d.detach_element(c as ElementKey) } else { d.attach_element(choose(n) as ElementKey, c as ElementKey) };
    }
    for k in 0..n { all_ways(&d, k as ElementKey); for m in 0..n { common(&d, Selector::elements(), &|_| true, &[k as ElementKey, m as ElementKey]) } }
    reach!("c07.moves");
});
harness!(DEEP_H, c07_deep, "C07", quick [(8, 12)], thorough [(12, 30)], reach ["c07.deep"],
    "a chain of case elements and a second branch off it at any depth; ancestors and common ancestors of the two ends", |case| {
    let mut d = new_doc();
    let n = case as usize;
    for i in 0..n { must(d.add_element_to(i as ElementKey, elem(KINDS[i % 4]))); }
    let at = choose(n + 1);
    let b = must(d.add_element_to(at as ElementKey, elem(E::Note)));
    let c = must(d.add_element_to(b, elem(E::Paragraph)));
    all_ways(&d, n as ElementKey); all_ways(&d, c);
    common(&d, Selector::elements(), &|_| true, &[n as ElementKey, c]);
    common(&d, Selector::elements(), &|_| true, &[c, b, n as ElementKey]);
    reach!("c07.deep");
});
harness!(PARSE_H, c07_parsed, "C07", quick [(0, 2)], thorough [], reach ["c07.parsed"],
    "a parsed document with a span annotation and its words: ancestors of every element, the common ancestors of two or three of the words or spans", |case| {
    let d = match parse(&folia_xml("", "<div><p><s><w xml:id=\"a\"/><w xml:id=\"b\"/><entities><entity set=\"x\"><wref id=\"a\"/><wref id=\"b\"/></entity></entities></s></p><p><s><w/></s></p></div>")) { Ok(d) => d, Err(_) => fail!("a valid document parses") };
    let n = nelements(&d);
    let (a, b) = (choose(n), choose(n));
    all_ways(&d, a as ElementKey);
    let mut l = vec![a as ElementKey, b as ElementKey];
    if case == 1 { l.push(choose(n) as ElementKey) }
    common(&d, Selector::elements(), &|_| true, &l);
    common(&d, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Structure)), &|k| in_group(ElementGroup::Structure, el(&d, k).elementtype()), &l);
    common(&d, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), &|k| in_group(ElementGroup::Span, el(&d, k).elementtype()), &l);
    reach!("c07.parsed");
});
harness!(TYPES_H, c07_types, "C07", quick [(0, 12)], thorough [(12, 48)], reach ["c07.types"],
    "a chain of four elements below the body, one of them (at depth case mod 4) of any element type, its neighbours of the same type or of any of five others; with a sibling or a text before it (case mod 12 / 4); the ancestors of every element in every way, for all its types and all groups", |case| {
    let all = all_types();
    let t = all[choose(all.len())];
    assume(t != E::WordReference);
    let at = case as usize % 4;
    let mut d = new_doc();
    let mut last: ElementKey = 0;
    let (a, b) = ([t, E::Division, E::Word, E::Correction][choose(4)], if case >= 12 { [t, E::Division, E::Feature, E::Entity][case as usize / 12] } else { [t, E::Division, E::Feature][choose(3)] });
    for i in 0..4 {
        let ty = if i == at { t } else if i == (at + 3) % 4 { a } else if i == (at + 1) % 4 { b } else { E::Sentence };
        match case % 12 / 4 { 0 => {}, 1 => edit(&mut d, last).push(DataType::Text("x".into())), _ => { must(d.add_element_to(last, elem(E::Gap))); } }
        last = must(d.add_element_to(last, elem(ty)));
    }
    let groups = all_groups();
    for k in 0..nelements(&d) { ways(&d, k as ElementKey, &[t, a, b, E::Sentence, E::Text, E::Gap], if at == 3 || case >= 12 { &groups } else { &groups[..3] }) }
    common(&d, Selector::elements(), &|_| true, &[last, last]);
    common(&d, Selector::elements().element(Cmp::Is(t)), &|k| el(&d, k).elementtype() == t, &[last]);
    reach!("c07.types");
});
harness!(PAIRS_H, c07_pairs, "C07", quick [(0, 8)], thorough [], reach ["c07.pairs"],
    "an element of any type (an eighth per case) below one of any type below a sentence, and a word in it: the ancestors of both, by any type, by each type and by each group", |case| {
    let all = all_types();
    let n = (all.len() + 7) / 8;
    let i = case as usize * n + choose(n);
    assume(i < all.len());
    let (t, u) = (all[i], all[choose(all.len())]);
    assume(t != E::WordReference && u != E::WordReference);
    let mut d = new_doc();
    let s = must(d.add_element_to(0, elem(E::Sentence)));
    let a = must(d.add_element_to(s, elem(u)));
    let b = must(d.add_element_to(a, elem(t)));
    let w = must(d.add_element_to(b, elem(E::Word)));
    let g = |d: &Document, k: ElementKey, c: &[ElementKey]| {
        let e = el(d, k);
        same(&keys(e.ancestors(Selector::elements())), c);
        for x in [t, u].iter() { let want: Vec<ElementKey> = c.iter().filter(|k| el(d, **k).elementtype() == *x).cloned().collect(); same(&keys(e.get_ancestors(*x, Cmp::Any)), &want) }
        check!(e.get_ancestor_by_group(ElementGroup::Structure, Cmp::Any).and_then(|x| x.key()) == c.iter().find(|k| in_group(ElementGroup::Structure, el(d, **k).elementtype())).cloned(), "the first ancestor is the nearest that satisfies the selection");
    };
    g(&d, w, &[b, a, s, 0]);
    g(&d, b, &[a, s, 0]);
    g(&d, a, &[s, 0]);
    reach!("c07.pairs");
});
harness!(MANY_H, c07_many, "C07", quick [(0, 8)], thorough [(8, 14)], reach ["c07.many"],
    "a chain of 16, 33, 70 or 150 (thorough: 300, 600, 1000) elements of three types (odd cases: or of one type but for one other at the first, the second, the middle, the last but one, or the last place), and a branch of two more off it at the top, near it, in the middle or near the end; the ancestors of the ends and of the middle, by type, by group, and all; the ancestors two or three of them have in common; the branch moved to another of these places", |case| {
    let mut d = new_doc();
    let n = [16, 33, 70, 150, 300, 600, 1000][case as usize / 2];
    let places = [0, 1, n / 2, n - 2, n - 1];
    let other = if case & 1 == 1 { places[choose(5)] } else { n };
    let ty = |i: usize| if i == 0 { E::Text } else if other < n { if i == other + 1 { E::Note } else { E::Division } } else { KINDS[i % 4] };
    for i in 0..n { must(d.add_element_to(i as ElementKey, elem(ty(i + 1)))); }
    let mut at = places[choose(5)];
    let b = must(d.add_element_to(at as ElementKey, elem(E::Note)));
    let c = must(d.add_element_to(b, elem(E::Paragraph)));
    for step in 0..2 {
        // nearest first
        let main: Vec<ElementKey> = (0..n).rev().map(|k| k as ElementKey).collect();
        let branch: Vec<ElementKey> = (0..at + 1).rev().map(|k| k as ElementKey).collect();
        let mut of_c = vec![b]; of_c.extend(branch.iter());
        let mid = n / 2 + 1;
        for (k, up) in [(n as ElementKey, main.clone()), (c, of_c.clone()), (mid as ElementKey, main[n - mid..].to_vec())].iter() {
            let e = el(&d, *k);
            let all = |i: AncestorIterator| -> Vec<ElementKey> { i.filter_map(|e| e.key()).collect() };
            let is = |k: &ElementKey, t: ElementType| el(&d, *k).elementtype() == t;
            same(&all(e.ancestors(Selector::elements())), up);
            for t in [E::Division, E::Paragraph, E::Note, E::Text, E::Word].iter() {
                let want: Vec<ElementKey> = up.iter().filter(|k| is(k, *t)).cloned().collect();
                same(&all(e.get_ancestors(*t, Cmp::Any)), &want);
                check!(e.get_ancestor(*t, Cmp::Any).and_then(|x| x.key()) == want.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
            }
            same(&all(e.get_ancestors_by_group(ElementGroup::Structure, Cmp::Any)), up);
            same(&all(e.get_ancestors_by_group(ElementGroup::Span, Cmp::Any)), &[]);
            check!(e.get_ancestor_by_group(ElementGroup::Structure, Cmp::Any).and_then(|x| x.key()) == up.first().cloned(), "the first ancestor is the nearest that satisfies the selection");
        }
        let shared: Vec<ElementKey> = branch.iter().filter(|k| (**k as usize) < n).cloned().collect();
        let lists: [&[ElementKey]; 3] = [&[n as ElementKey, c], &[c, n as ElementKey], &[b, n as ElementKey, c]];
        for l in lists.iter() {
            let got = d.common_ancestors(Selector::elements(), l);
            check!(got.len() == shared.len(), "common ancestors are exactly those that all the elements have");
            for (x, y) in got.iter().zip(shared.iter()) { check!(x == y, "common ancestors come nearest first") }
            let got = d.common_ancestors(Selector::elements().element(Cmp::Is(E::Note)), l);
            let want: Vec<ElementKey> = shared.iter().filter(|k| el(&d, **k).elementtype() == E::Note).cloned().collect();
            same(&got, &want);
        }
        if step == 1 { break }
        at = places[choose(5)];
        check!(d.attach_element(at as ElementKey, b).is_ok(), "an element can be moved");
    }
    reach!("c07.many");
});
pub const ALL: &[H] = &[MANY_H, TYPES_H, PAIRS_H, ALL_H, SETS_H, COMMON_H, MOVE_H, DEEP_H, PARSE_H];
