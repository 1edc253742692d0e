//! C03: identifiers resolve to exactly the element that carries them
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

/// (key, identifier, distinguishing type) of every element added
type Ref = Vec<(ElementKey, Option<String>, ElementType)>;
fn lookups(d: &Document, r: &Ref, probe: &str) {
    for (k, i, t) in r.iter() {
        let e = el(d, *k);
        check!(e.key() == Some(*k), "a key keeps denoting the same element");
        check!(e.elementtype() == *t, "a key keeps denoting the same element");
        check!(opt_eq(e.id(), i.as_ref().map(|s| s.as_str())), "an element keeps its identifier");
        if let Some(i) = i {
            check!(d.get_element_key_by_id(i) == Some(*k), "an identifier resolves to the element that carries it");
            match d.get_element_by_id(i) { Some(f) => check!(f.key() == Some(*k), "an identifier resolves to the element that carries it"), None => fail!("an identifier resolves to the element that carries it") }
        }
    }
    // any other string
    match d.get_element_key_by_id(probe) {
        Some(k) => check!(opt_eq(el(d, k).id(), Some(probe)), "looking up an identifier yields an element that carries it"),
        None => for (_, i, _) in r.iter() { if let Some(i) = i { check!(i != probe, "an identifier resolves to the element that carries it") } },
    }
}
const KINDS: [ElementType; 3] = [ElementType::Division, ElementType::Paragraph, ElementType::Note];
fn ids(case: u64, n: usize, len: usize) {
    let mut d = new_doc();
    let mut r: Ref = vec![(0, None, ElementType::Text)];
    let probe = sstr(len, LETTER);
    for i in 0..n {
        let t = KINDS[i % 3];
        let name = if flag() { Some(sstr(len, LETTER)) } else { None };
        let mut e = elem(t);
        if let Some(x) = &name { e = e.with_attrib(Attribute::Id(x.clone())) }
        let before = snap(&d);
        let res = match (case + i as u64) % 4 { 0 => d.annotate(0, e), 1 => d.add_element_to(0, e), 2 => d.add_element(e), _ => d.annotate(0, elem(ElementType::Division).add_element(e)) };
        let mut dup = false;
        if let Some(x) = &name { for (_, y, _) in r.iter() { if let Some(y) = y { if x == y { dup = true; break } } } }
        match res {
            Ok(k) => {
                check!(!dup, "an element whose identifier is in use is not added");
                if (case + i as u64) % 4 == 3 { r.push((k, None, ElementType::Division)); let c = child_keys(&d, k); check!(c.len() == 1, "a nested new element is added"); r.push((c[0], name, t)) } else { r.push((k, name, t)) }
            }
            Err(_) => { check!(dup, "an element whose identifier is not in use is added"); check!(snap(&d) == before, "a refused element changes nothing") }
        }
        lookups(&d, &r, &probe);
    }
}
harness!(IDS_H, c03_identifiers, "C03", quick [(0, 4)], thorough [], reach ["c03.ids"],
    "three elements, each with or without an identifier of one symbolic letter (possibly the same as an earlier one), added by annotate, add_element_to, add_element or inside another new element; then lookup of a symbolic identifier", |case| { ids(case, 3, 1); reach!("c03.ids"); });
harness!(IDS2_H, c03_identifiers2, "C03", quick [(0, 4)], thorough [], reach ["c03.ids2"],
    "two elements with identifiers of two symbolic letters, added by every means; then lookup of a symbolic identifier", |case| { ids(case, 2, 2); reach!("c03.ids2"); });
harness!(IDS4_H, c03_identifiers4, "C03", quick [(0, 4)], thorough [], reach ["c03.ids4"],
    "four elements with identifiers of one symbolic letter", |case| { ids(case, 4, 1); reach!("c03.ids4"); });

harness!(IDSP_H, c03_prefixes, "C03", quick [(0, 4)], thorough [(4, 8)], reach ["c03.prefix"],
    "three elements with identifiers of 1 to 3 symbolic characters out of letters, digits, '.', '-', '_' (one may be a prefix of another); then lookup of a symbolic identifier of any of these lengths", |case| {
    let mut d = new_doc();
    let mut r: Ref = vec![(0, None, ElementType::Text)];
    let dup = |r: &Ref, x: &String| { let mut f = false; for (_, y, _) in r.iter() { if let Some(y) = y { if x == y { f = true; break } } } f };
    for i in 0..3 {
        let l = if case >= 4 { 1 + choose(3) } else { 1 + ((case as usize) + i) % 3 };
        let mut x = sstr(1, LETTER); x.push_str(&sstr(l - 1, NAME));
        let f = dup(&r, &x);
        match d.annotate(0, elem(KINDS[i]).with_attrib(Attribute::Id(x.clone()))) { Ok(k) => { check!(!f, "an element whose identifier is in use is not added"); r.push((k, Some(x), KINDS[i])) } Err(_) => check!(f, "an element whose identifier is not in use is added") }
    }
    let mut p = sstr(1, LETTER); p.push_str(&sstr(choose(3), NAME));
    lookups(&d, &r, &p);
    reach!("c03.prefix");
});
harness!(ANYID_H, c03_any_characters, "C03", quick [(0, 3)], thorough [(3, 5)], reach ["c03.any"],
    "two elements with identifiers of 0, 1 or 2 (thorough: 3, 4) symbolic characters, any printable ASCII, one of them 'a' in addition or not; lookup of either, with one character put before or after it, and of a symbolic string", |case| {
    let mut d = new_doc();
    let mut r: Ref = vec![(0, None, ElementType::Text)];
    let names = [sstr(case as usize, VISIBLE), if flag() { sstr(1, VISIBLE) } else { format!("{}a", sstr(1, VISIBLE)) }];
    for (i, x) in names.iter().enumerate() {
        let f = i == 1 && names[0] == names[1];
        match d.annotate(0, elem(KINDS[i]).with_attrib(Attribute::Id(x.clone()))) { Ok(k) => { check!(!f, "an element whose identifier is in use is not added"); r.push((k, Some(x.clone()), KINDS[i])) } Err(_) => check!(f, "an element whose identifier is not in use is added") }
    }
    let p = match choose(3) { 0 => format!("{}{}", sstr(1, VISIBLE), names[choose(2)]), 1 => format!("{}{}", names[choose(2)], sstr(1, VISIBLE)), _ => sstr(1 + choose(2), VISIBLE) };
    lookups(&d, &r, &p);
    reach!("c03.any");
});
harness!(NEST_H, c03_nested, "C03", quick [(0, 3)], thorough [], reach ["c03.nested"],
    "one new element holding two new elements (siblings or nested) whose identifiers are symbolic and may coincide with each other or with an existing one", |case| {
    let mut d = new_doc();
    let x = sstr(1, LETTER);
    let k0 = must(d.annotate(0, elem(ElementType::Paragraph).with_attrib(Attribute::Id(x.clone()))));
    let (y, z, o) = (sstr(1, LETTER), sstr(1, LETTER), sstr(1, LETTER));
    let (a, b) = (elem(ElementType::Division).with_attrib(Attribute::Id(y.clone())), elem(ElementType::Note).with_attrib(Attribute::Id(z.clone())));
    let mut e = elem(ElementType::Division);
    if case == 2 { e = e.with_attrib(Attribute::Id(o.clone())) }
    let e = if case == 0 { e.add_element(a).add_element(b) } else { e.add_element(a.add_element(b)) };
    let before = snap(&d);
    let dup = x == y || x == z || y == z || (case == 2 && (o == x || o == y || o == z));
    match d.annotate(0, e) {
        Ok(k) => {
            check!(!dup, "an element whose identifier is in use is not added");
            let c1 = child_keys(&d, k)[0];
            let c2 = if case == 0 { child_keys(&d, k)[1] } else { child_keys(&d, c1)[0] };
            let mut r: Ref = vec![(k0, Some(x), ElementType::Paragraph), (c1, Some(y), ElementType::Division), (c2, Some(z), ElementType::Note)];
            r.push((k, if case == 2 { Some(o) } else { None }, ElementType::Division));
            lookups(&d, &r, &sstr(1, LETTER));
        }
        Err(_) => { check!(dup, "an element whose identifier is not in use is added"); check!(snap(&d) == before, "a refused element changes nothing"); check!(d.get_element_key_by_id(&x) == Some(k0), "an identifier in use keeps denoting its element") }
    }
    reach!("c03.nested");
});

harness!(PARSE_H, c03_parsed, "C03", quick [(0, 3)], thorough [(3, 4)], reach ["c03.parsed", "c03.parsed.dup"],
    "a parsed document with 2 (case 2: 3) elements whose identifiers are symbolic letters, siblings or nested; then lookups and an addition", |case| {
    let (x, y, z) = (sstr(1, LETTER), sstr(1, LETTER), sstr(1, LETTER));
    let mut b = String::from("<div xml:id=\""); b.push_str(&x);
    b.push_str(if case == 1 { "\"><p xml:id=\"" } else { "\"></div><p xml:id=\"" }); b.push_str(&y);
    b.push_str("\"></p>");
    if case >= 2 { b.push_str("<note xml:id=\""); b.push_str(&z); b.push_str("\"></note>") }
    if case == 1 { b.push_str("</div>") }
    let dup = x == y || (case >= 2 && (x == z || y == z));
    match parse(&folia_xml("", &b)) {
        Ok(mut d) => {
            check!(!dup, "a document in which an identifier occurs twice is refused");
            check!(nelements(&d) == 3 + (case >= 2) as usize, "every element is there");
            let probe = sstr(1, LETTER);
            let mut r: Ref = vec![(1, Some(x.clone()), ElementType::Division), (2, Some(y), ElementType::Paragraph)];
            if case >= 2 { r.push((3, Some(z), ElementType::Note)) }
            r.push((0, Some("doc.text".into()), ElementType::Text));
            lookups(&d, &r, &probe);
            if case == 3 { let w = sstr(1, LETTER); if let Ok(k) = d.annotate(0, elem(ElementType::Quote).with_attrib(Attribute::Id(w.clone()))) { r.push((k, Some(w), ElementType::Quote)) } lookups(&d, &r, &probe) }
            reach!("c03.parsed");
        }
        Err(_) => { check!(dup, "a document in which every identifier occurs once is accepted"); reach!("c03.parsed.dup") }
    }
});

harness!(KEYS_H, c03_other_keys, "C03", quick [(0, 1)], thorough [], reach ["c03.keys"],
    "processors and declarations: two with symbolic identifiers (sets); each is found by its own identifier and key only", |case| {
    let _ = case;
    let mut d = new_doc();
    let (x, y, z) = (sstr(1, LETTER), sstr(1, LETTER), sstr(1, LETTER));
    let p = |d: &mut Document, i: &str, n: &str| match d.add_processor(Processor::new(n.to_string()).with_id(i.to_string())) { Ok(k) => k, Err(_) => fail!("a processor can be added") };
    let a = p(&mut d, &x, "one");
    let b = p(&mut d, &y, "two");
    check!((a == b) == (x == y), "distinct processors get distinct keys");
    check!(d.get_processor(a).map(|q| q.name == "one" && q.id == x) == Some(true), "a processor's key keeps denoting it");
    check!(d.get_processor_key_by_id(&x) == Some(a) && d.get_processor_key_by_id(&y) == Some(b), "a processor is found by its identifier");
    match d.get_processor_by_id(&z) { Some(q) => check!(q.id == z, "looking up a processor yields the one with that identifier"), None => check!(z != x && z != y, "a processor is found by its identifier") }
    let g = |d: &mut Document, s: &str| match d.declare(AnnotationType::POS, &Some(s.to_string()), &None, &None) { Ok(k) => k, Err(_) => fail!("a declaration can be made") };
    let (m, n) = (g(&mut d, &x), g(&mut d, &y));
    check!((m == n) == (x == y), "distinct declarations get distinct keys");
    for (k, s) in [(m, &x), (n, &y)] { check!(d.get_declaration(k).map(|q| q.set.as_ref() == Some(s) && q.annotationtype == AnnotationType::POS) == Some(true), "a declaration's key keeps denoting it") }
    reach!("c03.keys");
});
harness!(MANY_H, c03_many, "C03", quick [(0, 4)], thorough [(4, 6)], reach ["c03.many", "c03.many.dup"],
    "a document with 10, 40, 110 or 260 (thorough: 1100, 2200) elements, every one with an identifier that ends in its number, or every second one; then another one with an identifier of the same form and one to four symbolic digits: refused exactly if it is in use; and lookup of all of the form", |case| {
    let mut d = new_doc();
    let n = [10usize, 40, 110, 260, 1100, 2200][case as usize];
    let by = 1 + choose(2);
    let s = must(d.add_element_to(0, elem(ElementType::Sentence)));
    for i in 0..n { let mut e = elem(ElementType::Word); if i % by == 0 { e = e.with_attrib(Attribute::Id(format!("w.{}", i))) } must(d.add_element_to(s, e)); }
    let digits = sstr(1 + choose(if n > 999 { 4 } else { 3 }), Dom::range(b'0', b'9'));
    let name = format!("w.{}", digits);
    let v = digits.bytes().fold(0usize, |a, b| a * 10 + (b - b'0') as usize);
    let used = v < n && v % by == 0 && (digits.len() == 1 || digits.as_bytes()[0] != b'0');
    check!(d.get_element_key_by_id(&name) == if used { Some(s + 1 + v as ElementKey) } else { None }, "an identifier resolves to the element that carries it");
    match d.annotate(s, elem(ElementType::Word).with_attrib(Attribute::Id(name.clone()))) {
        Ok(k) => { check!(!used, "an element whose identifier is in use is not added"); check!(d.get_element_key_by_id(&name) == Some(k) && k as usize == n + s as usize + 1, "an identifier resolves to the element that carries it"); reach!("c03.many") }
        Err(_) => { check!(used, "an element whose identifier is not in use is added"); check!(d.get_element_key_by_id(&name) == Some(s + 1 + v as ElementKey) && nelements(&d) == n + s as usize + 1, "a refused element changes nothing"); reach!("c03.many.dup") }
    }
    for i in (0..n).step_by(by * 7) { match d.get_element_by_id(&format!("w.{}", i)) { Some(e) => check!(e.key() == Some(s + 1 + i as ElementKey), "an identifier resolves to the element that carries it"), None => fail!("an identifier resolves to the element that carries it") } }
});
harness!(UNIID_H, c03_unicode, "C03", quick [(0, 2)], thorough [(2, 3)], reach ["c03.unicode"],
    "two elements with identifiers of up to two (case 0: one; thorough: three) symbolic characters of one to four bytes, added or parsed; lookup of either and of another such string", |case| {
    let n = 1 + case as usize;
    let (x, y, z) = (schars(n), schars(n), schars(1));
    let mut d = new_doc();
    let mut r: Ref = vec![(0, None, ElementType::Text)];
    for (i, s) in [&x, &y].iter().enumerate() {
        match d.annotate(0, elem(KINDS[i]).with_attrib(Attribute::Id(s.to_string()))) { Ok(k) => { check!(i == 0 || x != y, "an element whose identifier is in use is not added"); r.push((k, Some(s.to_string()), KINDS[i])) } Err(_) => check!(i == 1 && x == y, "an element whose identifier is not in use is added") }
    }
    lookups(&d, &r, &z);
    reach!("c03.unicode");
});
harness!(TREES_H, c03_new_trees, "C03", quick [(0, 10)], thorough [(10, 14)], reach ["c03.trees", "c03.trees.dup"],
    "one new element holding three (thorough: four) new ones, in any shape, added to a document with an element, by any of two means (case mod 2); every one with an identifier of one symbolic letter but one, or all (case / 2): refused, with nothing changed, exactly if an identifier is there twice", |case| {
    let n = if case < 10 { 4 } else { 5 };
    let mut d = new_doc();
    let x = sstr(1, LETTER);
    let k0 = must(d.annotate(0, elem(ElementType::Paragraph).with_attrib(Attribute::Id(x.clone()))));
    let mut names: Vec<Option<String>> = vec![];
    let mut r: Ref = vec![(0, None, ElementType::Text), (k0, Some(x.clone()), ElementType::Paragraph)];
    // in the order in which they are written, each below the last or one of its ancestors
    let mut stack: Vec<ElementData> = vec![];
    let mut dup = false;
    for i in 0..n {
        let name = if i == if case >= 10 { case as usize - 10 } else { case as usize / 2 } { None } else { Some(sstr(1, LETTER)) };
        if let Some(a) = &name { if *a == x { dup = true } for b in names.iter() { if let Some(b) = b { if a == b { dup = true } } } }
        let mut e = elem(KINDS[i % 3]);
        if let Some(a) = &name { e = e.with_attrib(Attribute::Id(a.clone())) }
        if i > 0 { let up = choose(stack.len()); for _ in 0..up { let c = match stack.pop() { Some(c) => c, None => return }; let p = match stack.pop() { Some(p) => p, None => return }; stack.push(p.add_element(c)) } }
        stack.push(e);
        names.push(name);
    }
    while stack.len() > 1 { let c = match stack.pop() { Some(c) => c, None => return }; let p = match stack.pop() { Some(p) => p, None => return }; stack.push(p.add_element(c)) }
    let e = match stack.pop() { Some(e) => e, None => return };
    let before = snap(&d);
    let res = if case & 1 == 0 { d.annotate(0, e) } else { d.add_element_to(k0, e) };
    match res {
        Ok(k) => {
            check!(!dup, "an element whose identifier is in use is not added");
            check!(nelements(&d) == before.n + n && k as usize >= before.n, "every new element is added");
            // depth first
            let (mut todo, mut i) = (vec![k], 0);
            while let Some(k) = todo.pop() { r.push((k, names[i].clone(), KINDS[i % 3])); i += 1; let mut c = child_keys(&d, k); c.reverse(); todo.extend(c) }
            check!(i == n, "every new element is added");
            lookups(&d, &r, &sstr(1, LETTER));
            reach!("c03.trees");
        }
        Err(_) => { check!(dup, "an element whose identifier is not in use is added"); check!(snap(&d) == before, "a refused element changes nothing"); lookups(&d, &r, &sstr(1, LETTER)); reach!("c03.trees.dup") }
    }
});
harness!(NEARID_H, c03_near, "C03", quick [(0, 12)], thorough [(12, 13)], reach ["c03.near"],
    "two elements whose identifiers are alike: one is a string of 1, 4, 9, 20 or 40 characters (case; case 5: of any of twelve lengths up to 257; cases 6-11: of six as they occur in documents, URLs, numbers, dates, escaped characters and the like, then at any position; thorough: of any length up to 24), the other has a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or is it twice (with a symbolic character between or not); lookup of both and of a third that is like the first", |case| {
    let mut d = new_doc();
    let a = sample(match case { 0..=4 => [1, 4, 9, 20, 40][case as usize], 5 => LENGTHS[choose(LENGTHS.len())], _ => 1 + choose(24) });
    let real = case >= 6 && case < 12;
    let a = if real { REAL[case as usize - 6].to_string() } else { a };
    let b = if real { near_any(&a, VISIBLE) } else { near(&a, VISIBLE) };
    let mut r: Ref = vec![(0, None, ElementType::Text)];
    for (i, x) in [&a, &b].iter().enumerate() {
        let f = i == 1 && a == b;
        match d.annotate(0, elem(KINDS[i]).with_attrib(Attribute::Id(x.to_string()))) { Ok(k) => { check!(!f, "an element whose identifier is in use is not added"); r.push((k, Some(x.to_string()), KINDS[i])) } Err(_) => check!(f, "an element whose identifier is not in use is added") }
    }
    let p = if real { a[..a.len() / 2].to_string() } else { near(&a, VISIBLE) };
    lookups(&d, &r, &p);
    reach!("c03.near");
});
pub const ALL: &[H] = &[NEARID_H, TREES_H, MANY_H, UNIID_H, IDS_H, IDS2_H, IDS4_H, IDSP_H, ANYID_H, NEST_H, PARSE_H, KEYS_H];
