//! C12: span annotations live in one layer per set and are reachable from every word
use crate::sup::*;
use crate::golden::{accepts, in_group, props, ANNOTATIONS};
use crate::{check, fail, harness, reach, H};

struct Span { key: ElementKey, layer: usize, words: Vec<usize> }
struct Layer { key: ElementKey, under: ElementKey, ty: ElementType, set: String }
/// reference: the words, the layers and the spans in the order in which they were made
#[derive(Default)]
struct Ref { names: Vec<String>, words: Vec<ElementKey>, holders: Vec<ElementKey>, layers: Vec<Layer>, spans: Vec<Span>, sets: Vec<(AnnotationType, String)>, heads: usize }
fn layertype(a: AnnotationType) -> ElementType { match ANNOTATIONS.iter().find(|x| x.0 == a).and_then(|x| x.3) { Some(t) => t, None => fail!("a span annotation has a layer") } }
fn annotype(t: ElementType) -> AnnotationType { match t.annotationtype() { Some(a) => a, None => fail!("a span annotation has an annotation type") } }
impl Ref {
    fn default_set(&self, a: AnnotationType) -> Option<String> { let s: Vec<&String> = self.sets.iter().filter(|x| x.0 == a).map(|x| &x.1).collect(); if s.len() == 1 { Some(s[0].clone()) } else { None } }
    fn agree(&self, d: &Document) {
        // the layers under every element, with their spans
        for h in self.holders.iter() {
            let found: Vec<ElementKey> = child_keys(d, *h).into_iter().filter(|k| in_group(ElementGroup::Layer, el(d, *k).elementtype())).collect();
            let want: Vec<&Layer> = self.layers.iter().filter(|l| l.under == *h).collect();
            check!(found.len() == want.len(), "an element has one layer per annotation type and set of the spans under it");
            for (k, l) in found.iter().zip(want.iter()) {
                let e = el(d, *k);
                check!(*k == l.key && e.elementtype() == l.ty, "a layer is of the type of its spans");
                check!(opt_eq(e.set(), Some(&l.set)), "a layer has the set of its spans");
            }
        }
        for (i, l) in self.layers.iter().enumerate() {
            let want: Vec<ElementKey> = self.spans.iter().filter(|s| s.layer == i).map(|s| s.key).collect();
            check!(child_keys(d, l.key) == want, "a span is placed in the layer of its type and set, in order");
            for k in want.iter() { let e = el(d, *k); check!(opt_eq(e.set(), Some(&l.set)) && layertype(annotype(e.elementtype())) == l.ty, "a span is placed in the layer of its type and set, in order") }
        }
        // a span refers to the words it was given, in order
        for s in self.spans.iter() {
            let mut refs = vec![];
            fn rec(d: &Document, k: ElementKey, refs: &mut Vec<String>) { for c in child_keys(d, k) { let e = el(d, c); if e.elementtype() == ElementType::WordReference { match e.attrib(AttribType::IDREF) { Some(Attribute::Idref(i)) => refs.push(i.clone()), _ => fail!("a reference names its word") } } else { rec(d, c, refs) } } }
            rec(d, s.key, &mut refs);
            check!(refs.len() == s.words.len() && refs.iter().zip(s.words.iter()).all(|(r, w)| opt_eq(el(d, self.words[*w]).id(), Some(r))), "a span keeps the words it refers to, in order");
        }
        // from every word, its spans and no others
        for (i, w) in self.words.iter().enumerate() {
            let want: Vec<ElementKey> = self.spans.iter().filter(|s| s.words.contains(&i)).map(|s| s.key).collect();
            let sel = Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span));
            let e = el(d, *w);
            let got: Vec<ElementKey> = e.select(sel, Recursion::No).filter_map(|x| x.element.key()).collect();
            check!(got == want, "a word yields every span that refers to it, once, and no other");
            for t in [AnnotationType::ENTITY, AnnotationType::CHUNKING, AnnotationType::DEPENDENCY] {
                let got: Vec<ElementKey> = e.get_annotations(t, Cmp::Any, Recursion::No).filter_map(|x| x.element.key()).collect();
                let want: Vec<ElementKey> = self.spans.iter().filter(|s| s.words.contains(&i) && self.layers[s.layer].ty == layertype(t)).map(|s| s.key).collect();
                check!(got == want, "a word yields every annotation of a type that refers to it, once, and no other");
            }
        }
        consistent(d);
    }
    /// the element under which a span comes to live
    fn place(&self, d: &Document, words: &[usize], lt: ElementType) -> Option<ElementKey> {
        let chain = |w: usize| { let mut v = vec![]; let mut q = el(d, self.words[w]).parent_key(); while let Some(k) = q { v.push(k); q = el(d, k).parent_key() } v };
        let first = chain(words[0]);
        first.into_iter().find(|k| words.iter().all(|w| chain(*w).contains(k)) && in_group(ElementGroup::Structure, el(d, *k).elementtype()) && accepts(el(d, *k).elementtype(), lt))
    }
    /// adds one span annotation, by the real code and here
    fn annotate(&mut self, d: &mut Document, ty: ElementType, set: Option<String>, words: Vec<usize>, how: usize) {
        let mut e = elem(ty).with_attrib(class("c"));
        if let Some(s) = &set { e.set_attrib(Attribute::Set(s.clone())) }
        let ids: Vec<&str> = self.names.iter().map(|s| s.as_str()).collect();
        if ty == ElementType::Dependency {
            // the first word (or as many as asked for) in the one role, the rest in the other
            let w: Vec<&str> = words.iter().map(|w| ids[*w]).collect();
            let h = if self.heads == 0 { 1 } else { self.heads };
            e = e.add_element(elem(ElementType::Headspan).with_span(&w[..h]));
            if words.len() > h { e = e.add_element(elem(ElementType::DependencyDependent).with_span(&w[h..])) }
        } else { let w: Vec<&str> = words.iter().map(|w| ids[*w]).collect(); e = e.with_span(&w) }
        let a = annotype(ty);
        let set = match set { Some(s) => Some(s), None => self.default_set(a) };
        let lt = layertype(a);
        let before = snap(d);
        // how: under one of the holders, or from a word, or by the span itself
        let (r, under) = if how < self.holders.len() { let h = self.holders[how]; (d.annotate(h, e), if accepts(el(d, h).elementtype(), lt) { Some(h) } else { None }) }
            else if how == self.holders.len() { let under = self.place(d, &words, lt); (d.annotate(self.words[words[0]], e), under) }
            else { let under = self.place(d, &words, lt); (d.annotate_span(e), under) };
        match (r, set, under) {
            (Ok(key), Some(set), Some(under)) => {
                let i = match self.layers.iter().position(|l| l.under == under && l.ty == lt && l.set == set) { Some(i) => i, None => {
                    let key = match el(d, key).parent_key() { Some(k) => k, None => fail!("a span is placed in the layer of its type and set, in order") };
                    check!(key as usize >= before.n, "a layer is made when there is none yet");
                    self.layers.push(Layer { key, under, ty: lt, set: set.clone() });
                    self.layers.len() - 1
                } };
                if !self.sets.iter().any(|x| x.0 == a && x.1 == set) { self.sets.push((a, set)) }
                self.spans.push(Span { key, layer: i, words });
            }
            (Err(_), Some(_), Some(_)) => fail!("a span annotation with a set is accepted where its layer is"),
            (Ok(_), _, _) => fail!("a span annotation without any set, or without any place for its layer, is refused"),
            (Err(_), _, _) => check!(before == snap(d), "a refused span annotation leaves the document as it was"),
        }
    }
}
/// body > paragraph > sentences of two words and one word, and a sentence outside the paragraph
fn start() -> (Document, Ref) { start_with(["w0", "w1", "w2", "w3"].iter().map(|s| s.to_string()).collect()) }
fn start_with(names: Vec<String>) -> (Document, Ref) {
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let mut r = Ref::default();
    let p = must(d.annotate(0, elem(ElementType::Paragraph)));
    let s = must(d.annotate(p, elem(ElementType::Sentence)));
    let t = must(d.annotate(p, elem(ElementType::Sentence)));
    let u = must(d.annotate(0, elem(ElementType::Sentence)));
    r.holders = vec![s, t, p, 0];
    for (i, k) in [(0, s), (1, s), (2, t), (3, u)] { r.words.push(must(d.annotate(k, elem(ElementType::Word).with_attrib(Attribute::Id(names[i].clone()))))) }
    r.names = names;
    r.holders.push(u);
    (d, r)
}
fn words(n: usize) -> Vec<usize> { let mut w = vec![choose(4)]; if n > 1 && flag() { w.push(choose(4)) } w }

harness!(SETS_H, c12_sets, "C12", quick [(0, 5)], thorough [(5, 6)], reach ["c12.sets"],
    "three (thorough: four) span annotations under one sentence, entities or chunks, each with a set of one symbolic letter or without, over one word each; by the sentence or from the word", |case| {
    let (mut d, mut r) = start();
    let how = match case % 3 { 0 => 0, 1 => r.holders.len(), _ => r.holders.len() + 1 };
    for i in 0..if case < 3 { 3 } else { 4 } {
        let ty = if flag() { ElementType::Entity } else { ElementType::Chunk };
        let set = if flag() { Some(sstr(1, LETTER)) } else { None };
        r.annotate(&mut d, ty, set, vec![if i < 2 { 0 } else { 1 }], how);
        r.agree(&d);
    }
    reach!("c12.sets");
});

harness!(WORDS_H, c12_words, "C12", quick [(0, 3)], thorough [(3, 6)], reach ["c12.words"],
    "two span annotations of one type (entity, chunk, dependency with head and dependent: case) and one set over one or two of four words in three sentences (any, also the same twice), each under any of five structure elements, from the word, or by itself", |case| {
    let (mut d, mut r) = start();
    let ty = [ElementType::Entity, ElementType::Chunk, ElementType::Dependency][case as usize % 3];
    for i in 0..2 {
        let how = choose(r.holders.len() + 2);
        if i == 0 && case < 3 { assume(how != 1 && how != 4) }
        let w = words(if case < 3 && i == 0 { 1 } else { 2 });
        r.annotate(&mut d, ty, Some("x".into()), w, how);
        r.agree(&d);
    }
    reach!("c12.words");
});

harness!(KINDS_H, c12_types, "C12", quick [(0, 1)], thorough [], reach ["c12.types"],
    "two span annotations of any two span types of the specification, over any of two words, with the same or different sets", |case| {
    let _ = case;
    let (mut d, mut r) = start();
    let types: Vec<ElementType> = all_types().into_iter().filter(|t| in_group(ElementGroup::Span, *t)).collect();
    let a = types[choose(types.len())];
    let b = types[choose(types.len())];
    r.annotate(&mut d, a, Some("x".into()), vec![0], 0);
    r.annotate(&mut d, b, Some(if flag() { "x".into() } else { "y".into() }), vec![choose(2)], 0);
    r.agree(&d);
    reach!("c12.types");
});

harness!(EXIST_H, c12_existing_layers, "C12", quick [(0, 2)], thorough [], reach ["c12.existing"],
    "a sentence that already has layers, added by hand or parsed, with a set of one symbolic letter or inheriting it from their spans, of the same or another type and also inside another element; then a span annotation with a set of one symbolic letter", |case| {
    let (s1, s2) = (sstr(1, LETTER), sstr(1, LETTER));
    let inherit = flag();
    let other = flag();
    let lt = if other { ElementType::ChunkingLayer } else { ElementType::EntitiesLayer };
    let st = if other { ElementType::Chunk } else { ElementType::Entity };
    let mut d;
    if case == 0 {
        d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
        let s = must(d.annotate(0, elem(ElementType::Sentence).with_attrib(id("s"))));
        must(d.annotate(s, elem(ElementType::Word).with_attrib(id("w0"))));
        let mut l = elem(lt);
        if !inherit { l.set_attrib(Attribute::Set(s1.clone())) }
        must(d.annotate(s, l.add_element(elem(st).with_attrib(id("e")).with_attrib(Attribute::Set(s1.clone())).with_attrib(class("c")).with_span(&["w0"]))));
    } else {
        let (lx, sx) = if other { ("chunking", "chunk") } else { ("entities", "entity") };
        let set = if inherit { String::new() } else { format!(" set=\"{}\"", s1) };
        let body = format!("<s xml:id=\"s\"><w xml:id=\"w0\"/><{}{}><{} xml:id=\"e\" set=\"{}\" class=\"c\"><wref id=\"w0\"/></{}></{}></s>", lx, set, sx, s1, sx, lx);
        d = match parse_plain(&folia_xml("", &body)) { Ok(d) => d, Err(_) => fail!("a document with a span annotation is accepted") };
    }
    let s = match d.get_element_key_by_id("s") { Some(k) => k, None => fail!("identifier") };
    let w = match d.get_element_key_by_id("w0") { Some(k) => k, None => fail!("identifier") };
    let first = match d.get_element_key_by_id("e") { Some(k) => k, None => fail!("identifier") };
    let layers = |d: &Document| -> Vec<ElementKey> { child_keys(d, s).into_iter().filter(|k| in_group(ElementGroup::Layer, el(d, *k).elementtype())).collect() };
    let before = layers(&d);
    check!(before.len() == 1 && el(&d, before[0]).elementtype() == lt, "a layer is kept as it is");
    check!(opt_eq(el(&d, before[0]).set(), Some(&s1)), "a layer has the set it was given, or that of its spans");
    check!(el(&d, first).parent_key() == Some(before[0]), "a span is placed in its layer");
    let k = must(d.annotate(s, elem(ElementType::Entity).with_attrib(Attribute::Set(s2.clone())).with_attrib(class("d")).with_span(&["w0"])));
    let after = layers(&d);
    let p = el(&d, k).parent_key();
    if !other && s1 == s2 { check!(after == before && p == Some(before[0]), "a layer of the same type and set is used again") }
    else {
        check!(after.len() == 2 && after[0] == before[0] && p == Some(after[1]), "a layer is made when there is none of the type and set");
        check!(el(&d, after[1]).elementtype() == ElementType::EntitiesLayer && opt_eq(el(&d, after[1]).set(), Some(&s2)), "a layer is of the type and set of its spans");
    }
    let got: Vec<ElementKey> = el(&d, w).select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::No).filter_map(|x| x.element.key()).collect();
    check!(got == vec![first, k], "a word yields every span that refers to it, once, and no other");
    reach!("c12.existing");
});

harness!(PARSED_H, c12_parsed, "C12", quick [(0, 2)], thorough [(2, 4)], reach ["c12.parsed"],
    "a parsed sentence of three words with two (thorough: three) spans in one or two layers, each over any one or two words; entities or dependencies with head and dependent (case mod 2); all references and sets symbolic or chosen", |case| {
    let dep = case % 2 == 1;
    let (lx, sx) = if dep { ("dependencies", "dependency") } else { ("entities", "entity") };
    let sets = [sstr(1, LETTER), sstr(1, LETTER)];
    let two = flag();
    let mut body = String::from("<s xml:id=\"s\"><w xml:id=\"w0\"/><w xml:id=\"w1\"/><w xml:id=\"w2\"/>");
    let mut refs: Vec<Vec<usize>> = vec![];
    let n = if case < 2 { 2 } else { 3 };
    body.push_str(&format!("<{} set=\"{}\">", lx, sets[0]));
    for i in 0..n {
        if i == 1 && two { body.push_str(&format!("</{}><{} set=\"{}\">", lx, lx, sets[1])) }
        let a = choose(3);
        let b = choose(4);
        let mut w = vec![a];
        if b < 3 { w.push(b) }
        let set = if i == 0 || !two { &sets[0] } else { &sets[1] };
        body.push_str(&format!("<{} xml:id=\"e{}\" set=\"{}\" class=\"c\">", sx, i, set));
        for (j, x) in w.iter().enumerate() {
            let role = if j == 0 { "hd" } else { "dep" };
            if dep { body.push_str(&format!("<{}><wref id=\"w{}\"/></{}>", role, x, role)) } else { body.push_str(&format!("<wref id=\"w{}\" t=\"x\"/>", x)) }
        }
        body.push_str(&format!("</{}>", sx));
        refs.push(w);
    }
    body.push_str(&format!("</{}></s>", lx));
    let d = match parse_plain(&folia_xml("", &body)) { Ok(d) => d, Err(_) => fail!("a document with span annotations is accepted") };
    let key = |s: String| match d.get_element_key_by_id(&s) { Some(k) => k, None => fail!("identifier") };
    let spans: Vec<ElementKey> = (0..n).map(|i| key(format!("e{}", i))).collect();
    for w in 0..3 {
        let want: Vec<ElementKey> = (0..n).filter(|i| refs[*i].contains(&w)).map(|i| spans[i]).collect();
        let e = el(&d, key(format!("w{}", w)));
        let got: Vec<ElementKey> = e.select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::No).filter_map(|x| x.element.key()).collect();
        check!(got == want, "a word yields every span that refers to it, once, and no other");
        // by set
        let got: Vec<ElementKey> = e.get_annotations(if dep { AnnotationType::DEPENDENCY } else { AnnotationType::ENTITY }, Cmp::Is(sets[1].clone()), Recursion::No).filter_map(|x| x.element.key()).collect();
        let want: Vec<ElementKey> = (0..n).filter(|i| refs[*i].contains(&w) && (if *i == 0 || !two { &sets[0] } else { &sets[1] }) == &sets[1]).map(|i| spans[i]).collect();
        check!(got == want, "a word yields every span of a set that refers to it, once, and no other");
    }
    // from the sentence, every span once
    let s = el(&d, key("s".into()));
    let got: Vec<ElementKey> = s.select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::Always).filter_map(|x| x.element.key()).collect();
    check!(got.len() == n && spans.iter().all(|k| got.contains(k)), "a sentence yields every span under it once");
    consistent(&d);
    reach!("c12.parsed");
});

harness!(NEST_H, c12_nested, "C12", quick [(0, 2)], thorough [], reach ["c12.nested"],
    "a span inside a span (syntactic units) over any of three words each, built at once or added later (case): every word yields the span that refers to it directly", |case| {
    let mut d = new_doc();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let w: Vec<ElementKey> = (0..3).map(|i| must(d.annotate(s, elem(ElementType::Word).with_attrib(Attribute::Id(format!("w{}", i)))))).collect();
    let ids = ["w0", "w1", "w2"];
    let su = |i: usize, c: &str| elem(ElementType::SyntacticUnit).with_attrib(set("x")).with_attrib(class(c)).with_span(&[ids[i]]);
    let (a, b, c) = (choose(3), choose(3), choose(3));
    let (outer, inner, last);
    if case == 0 {
        outer = must(d.annotate(s, su(a, "o").add_element(su(b, "i"))));
        inner = match child_keys(&d, outer).last() { Some(k) => *k, None => fail!("nested span") };
        last = must(d.annotate(outer, su(c, "l")));
    } else {
        outer = must(d.annotate(s, su(a, "o")));
        inner = must(d.annotate(outer, su(b, "i")));
        last = must(d.annotate(inner, su(c, "l")));
    }
    check!(el(&d, inner).parent_key() == Some(outer) && el(&d, last).parent_key() == Some(if case == 0 { outer } else { inner }), "a span inside a span is placed there");
    for i in 0..3 {
        let got: Vec<ElementKey> = el(&d, w[i]).select(Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span)), Recursion::No).filter_map(|x| x.element.key()).collect();
        let want: Vec<ElementKey> = [(a, outer), (b, inner), (c, last)].iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        check!(got == want, "a word yields every span that refers to it, once, and no other");
    }
    check!(props(ElementType::Word).wrefable, "words can be referred to");
    consistent(&d);
    reach!("c12.nested");
});

harness!(ROLES_H, c12_roles, "C12", quick [(0, 9)], thorough [(9, 12)], reach ["c12.roles"],
    "a dependency whose head and dependent are spans of one to three (of three, thorough: four in all) of four words in three sentences each, in any order: under any of five structure elements, from the word, or by itself (case / 3); then another one over one word", |case| {
    let (mut d, mut r) = start();
    r.heads = if case < 9 { 1 + case as usize % 3 } else { 2 };
    let how = match case / 3 % 3 { 0 => r.holders.len() + 1, 1 => r.holders.len(), _ => choose(r.holders.len()) };
    let w = (0..if case < 9 { 3 } else { 4 }).map(|_| choose(4)).collect();
    r.annotate(&mut d, ElementType::Dependency, Some("x".into()), w, how);
    r.agree(&d);
    r.heads = 0;
    let w = choose(4);
    r.annotate(&mut d, ElementType::Dependency, Some("x".into()), vec![w], how);
    r.agree(&d);
    reach!("c12.roles");
});
harness!(THREE_H, c12_three_words, "C12", quick [(0, 9)], thorough [(9, 15)], reach ["c12.three"],
    "a span annotation of one of three types (case mod 3) over any three (thorough: four) of four words in three sentences, in any order, also the same twice: by itself, from the word, or under any structure element (case / 3); then another one of the same type and set over any word", |case| {
    let (mut d, mut r) = start();
    let ty = [ElementType::Entity, ElementType::Chunk, ElementType::SyntacticUnit][case as usize % 3];
    let how = match case / 3 % 3 { 0 => r.holders.len() + 1, 1 => r.holders.len(), _ => choose(r.holders.len()) };
    let w = (0..if case < 9 { 3 } else { 4 }).map(|_| choose(4)).collect();
    r.annotate(&mut d, ty, Some("x".into()), w, how);
    r.agree(&d);
    let w = choose(4);
    r.annotate(&mut d, ty, Some("x".into()), vec![w, 0], how);
    r.agree(&d);
    reach!("c12.three");
});

/// what a layer may hold already
struct Item { key: ElementKey, ty: ElementType, set: Option<usize> }
harness!(LAYERS_H, c12_layers, "C12", quick [(0, 8)], thorough [(8, 16)], reach ["c12.layers"],
    "a sentence (case mod 2: parsed or built) with one (case / 8: two) layers of entities or chunks, each with a set of its own (of two), or without one, and holding nothing or one or two of: an entity or chunk of either set, one in a correction or in an alternative, a text or description; then an entity and a chunk of any of the two sets: a layer has its own set or else that of the first span of its type below it; spans go to a layer of their type and set, and only if there is none a layer is made", |case| {
    let sets = ["x", "y"];
    let parsed = case & 1 == 1;
    let own = case as usize / 2 % 2 == 1;
    let two = case >= 8;
    let mut body = String::from("<s xml:id=\"s\"><w xml:id=\"w0\"/>");
    let mut d = match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") };
    let s0 = if parsed { 0 } else { let s = must(d.annotate(0, elem(ElementType::Sentence).with_attrib(id("s")))); must(d.annotate(s, elem(ElementType::Word).with_attrib(id("w0")))); s };
    let mut want: Vec<(ElementType, Option<usize>)> = vec![];
    for i in 0..1 + two as usize {
        let lt = if if i == 0 { case as usize / 4 % 2 == 0 } else { flag() } { ElementType::EntitiesLayer } else { ElementType::ChunkingLayer };
        let mut set = if if i == 0 { own } else { flag() } { Some(choose(2)) } else { None };
        let mut l = elem(lt);
        body.push_str("<"); body.push_str(lt.as_str());
        if let Some(i) = set { l.set_attrib(Attribute::Set(sets[i].to_string())); body.push_str(&format!(" set=\"{}\"", sets[i])) }
        body.push_str(">");
        let given = set.is_some();
        for _ in 0..choose(3) {
            let (st, k) = (if flag() { ElementType::Entity } else { ElementType::Chunk }, choose(2));
            let span = elem(st).with_attrib(Attribute::Set(sets[k].to_string())).with_attrib(class("c")).with_span(&["w0"]);
            let sx = format!("<{} set=\"{}\" class=\"c\"><wref id=\"w0\"/></{}>", st.as_str(), sets[k], st.as_str());
            let (e, x, span_there) = match choose(if two { 2 } else { 4 }) {
                0 => (span, sx, true),
                1 => (elem(ElementType::Correction).with_attrib(set_of("cs")).with_attrib(class("c")).add_element(elem(ElementType::New).add_element(span)), format!("<correction set=\"cs\" class=\"c\"><new>{}</new></correction>", sx), true),
                2 => (elem(ElementType::Correction).with_attrib(set_of("cs")).with_attrib(class("c")).add_element(elem(ElementType::Original).add_element(span)), format!("<correction set=\"cs\" class=\"c\"><original>{}</original></correction>", sx), true),
                _ => (elem(ElementType::Description), "<desc/>".to_string(), false),
            };
            if span_there && !given && set.is_none() && layertype(annotype(st)) == lt { set = Some(k) }
            l = l.add_element(e);
            body.push_str(&x);
        }
        body.push_str(&format!("</{}>", lt.as_str()));
        // not what the specification allows: not asked here
        if !parsed { let b = snap(&d); match d.annotate(s0, l) { Ok(_) => {}, Err(_) => { check!(b == snap(&d), "a refused annotation leaves the document as it was"); assume(false) } } }
        want.push((lt, set));
    }
    body.push_str("</s>");
    if parsed { d = match parse_plain(&folia_xml("", &body)) { Ok(d) => d, Err(_) => fail!("a document with layers is accepted") } }
    let s = match d.get_element_key_by_id("s") { Some(k) => k, None => fail!("identifier") };
    let layers = |d: &Document| -> Vec<ElementKey> { child_keys(d, s).into_iter().filter(|k| in_group(ElementGroup::Layer, el(d, *k).elementtype())).collect() };
    let agree = |d: &Document, want: &Vec<(ElementType, Option<usize>)>| -> Vec<ElementKey> {
        let l = layers(d);
        check!(l.len() == want.len(), "a layer is made only when there is none of the type and set");
        for (k, (t, set)) in l.iter().zip(want.iter()) { let e = el(d, *k); check!(e.elementtype() == *t, "a layer is of the type of its spans"); check!(opt_eq(e.set(), set.map(|i| sets[i])), "a layer has the set it was given, or that of its spans") }
        l
    };
    agree(&d, &want);
    let both = [ElementType::Entity, ElementType::Chunk];
    let mut added: Vec<Item> = vec![];
    for i in 0..2 {
        let (st, k) = (both[i], choose(2));
        let key = must(d.annotate(s, elem(st).with_attrib(Attribute::Set(sets[k].to_string())).with_attrib(class("d")).with_span(&["w0"])));
        let lt = layertype(annotype(st));
        let at = match want.iter().position(|l| l.0 == lt && l.1 == Some(k)) { Some(i) => i, None => { want.push((lt, Some(k))); want.len() - 1 } };
        let l = agree(&d, &want);
        // with more than one such layer, in any of them
        let at = match l.iter().position(|k| el(&d, key).parent_key() == Some(*k)) { Some(i) if want[i].0 == want[at].0 && want[i].1 == want[at].1 => i, _ => fail!("a span is placed in a layer of its type and set") };
        check!(child_keys(&d, l[at]).last() == Some(&key), "a span is placed in a layer of its type and set, at its end");
        added.push(Item { key, ty: st, set: Some(k) });
    }
    let w = match d.get_element_key_by_id("w0") { Some(k) => k, None => fail!("identifier") };
    for i in added.iter() {
        let n = el(&d, w).select(Selector::elements().element(Cmp::Is(i.ty)), Recursion::No).filter(|x| x.element.key() == Some(i.key)).count();
        check!(n == 1 && opt_eq(el(&d, i.key).set(), i.set.map(|i| sets[i])), "a word yields every span that refers to it, once, and no other");
    }
    consistent(&d);
    reach!("c12.layers");
});
fn set_of(s: &str) -> Attribute { Attribute::Set(s.to_string()) }

harness!(NEST2_H, c12_parsed_nesting, "C12", quick [(0, 12)], thorough [(12, 24)], reach ["c12.pnest"],
    "a parsed layer of one of six kinds with a span in a span (thorough: in a span), possibly inside a role (head, dependent, target...), with the references of the inner one before, after or around those of the outer one, all over any of three words; every word yields the innermost span its reference is in, and the spans keep their parents", |case| {
    // layer, outer span, inner span; the inner one in a role or not
    let kinds = [("semroles", "predicate", "semrole", ""), ("syntax", "su", "su", ""), ("coreferences", "coreferencechain", "coreferencelink", ""), ("dependencies", "dependency", "", "hd"), ("sentiments", "sentiment", "", "target"), ("statements", "statement", "", "rel")];
    let (l, o, i, role) = kinds[case as usize % 6];
    let deep = case >= 12;
    let w = |k: usize| format!("<wref id=\"w{}\"/>", k);
    let (a, b, c) = (choose(3), choose(3), choose(3));
    let inner = if i.is_empty() { format!("<{} xml:id=\"i\">{}{}</{}>", role, w(a), if deep { w(c) } else { String::new() }, role) }
        else if deep && i == "su" { format!("<su xml:id=\"i\" class=\"c\">{}<su xml:id=\"j\" class=\"c\">{}</su></su>", w(a), w(c)) }
        else { format!("<{} xml:id=\"i\"{}>{}</{}>", i, if i == "coreferencelink" { "" } else { " class=\"c\"" }, w(a), i) };
    let bare_outer = o == "coreferencechain" || o == "dependency" || o == "sentiment" || o == "statement";
    let body = if bare_outer || case / 6 % 2 == 0 && flag() { inner.clone() } else if flag() { format!("{}{}", w(b), inner) } else { format!("{}{}", inner, w(b)) };
    let outer_ref = body.len() != inner.len();
    let x = format!("<s xml:id=\"s\"><w xml:id=\"w0\"/><w xml:id=\"w1\"/><w xml:id=\"w2\"/><{} set=\"x\"><{} xml:id=\"o\" class=\"c\">{}</{}></{}></s>", l, o, body, o, l);
    let d = match parse_plain(&folia_xml("", &x)) { Ok(d) => d, Err(_) => fail!("a document with span annotations is accepted") };
    let key = |s: &str| match d.get_element_key_by_id(s) { Some(k) => k, None => fail!("identifier") };
    let (ko, ki) = (key("o"), key("i"));
    check!(el(&d, ki).parent_key() == Some(ko), "a span inside a span is placed there");
    // a role is a span of its own in FoLiA
    let inner_is_span = in_group(ElementGroup::Span, el(&d, ki).elementtype());
    for n in 0..3 {
        let mut want: Vec<ElementKey> = vec![];
        let at = if inner_is_span { ki } else { ko };
        let before = body.starts_with("<wref");
        if outer_ref && before && b == n { want.push(ko) }
        if a == n { want.push(at) }
        if deep && i == "su" && c == n { want.push(key("j")) }
        if deep && i.is_empty() && c == n { want.push(at) }
        if outer_ref && !before && b == n { want.push(ko) }
        let e = el(&d, key(["w0", "w1", "w2"][n]));
        let got: Vec<ElementKey> = e.select(Selector::elements(), Recursion::No).filter_map(|x| x.element.key()).collect();
        let refs: Vec<ElementKey> = data_of(&d, key(["w0", "w1", "w2"][n])).iter().filter_map(|x| if let DataType::SpanReference(k) = x { Some(*k) } else { None }).collect();
        check!(refs.len() == want.len() && refs.iter().all(|k| want.contains(k)), "a word refers back to the innermost span its reference is in");
        for k in want.iter() { check!(got.contains(k), "a word yields every span that refers to it") }
        check!(got.iter().all(|k| want.contains(k)), "a word yields no span that does not refer to it");
    }
    consistent(&d);
    reach!("c12.pnest");
});

harness!(NEAR_H, c12_near, "C12", quick [(0, 4)], thorough [(4, 8)], reach ["c12.near"],
    "words whose identifiers are alike, or (odd cases) span annotations whose sets are: a string of 1, 4, 9, 20, 40, 130 or 260 (thorough: of any length up to 24) characters, another with a symbolic character more, in place of one, or one fewer, at the beginning, in the middle or at the end, or the first one twice; three entities, or (case / 2 odd) dependencies, over one or two of these, by the sentence or the word", |case| {
    let a = sample(if case < 4 { [1, 4, 9, 20, 40, 130, 260][choose(7)] } else { 1 + choose(24) });
    let b = near(&a, VISIBLE);
    assume(a != b && b != "" && b != "-" && b != "-k");
    let ids = case & 1 == 0;
    let (mut d, mut r) = if ids { start_with(vec![a.clone(), b.clone(), "-".into(), "-k".into()]) } else { start() };
    let ty = if case & 2 == 2 { ElementType::Dependency } else { ElementType::Entity };
    let how = [0, 5][choose(2)];
    for (i, x) in [&a, &b, &a].iter().enumerate() {
        let set = if ids { "s".to_string() } else { x.to_string() };
        let w = if ids { match i { 0 => vec![0], 1 => vec![1], _ => vec![choose(2), choose(2)] } } else { vec![choose(2)] };
        r.annotate(&mut d, ty, Some(set), w, how);
    }
    r.agree(&d);
    reach!("c12.near");
});
harness!(MANY_H, c12_many, "C12", quick [(0, 20)], thorough [], reach ["c12.many"],
    "a sentence of 5, 20, 60, 150 or 300 words with (case mod 4) one entity over all words, in order, backwards or every other one; an entity over each word, in one set; an entity over each word, in a set of its own; as many entities as words, all over one word, the first, one in the middle or the last, in alternating sets; then one more over the first and the last word in the first or the last of the sets or a new one; layers and spans are as given, and every word yields its spans", |case| {
    let n = [5usize, 20, 60, 150, 300][case as usize / 4];
    let mut d = crate::model::bare();
    let s = must(d.annotate(0, elem(ElementType::Sentence)));
    let names: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let words: Vec<ElementKey> = names.iter().map(|i| must(d.annotate(s, elem(ElementType::Word).with_attrib(Attribute::Id(i.clone()))))).collect();
    let how = choose(3);
    let mut want: Vec<(String, Vec<usize>)> = match case & 3 {
        0 => vec![("s".to_string(), match how { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).filter(|i| i % 2 == 0).collect() })],
        1 => (0..n).map(|i| ("s".to_string(), vec![i])).collect(),
        2 => (0..n).map(|i| (format!("s{}", i), vec![i])).collect(),
        _ => { let at = [0, n / 2, n - 1][how]; (0..n).map(|i| (["s", "z"][i & 1].to_string(), vec![at])).collect() }
    };
    let last = match choose(3) { 0 => want[0].0.clone(), 1 => want[want.len() - 1].0.clone(), _ => "new".to_string() };
    want.push((last, vec![0, n - 1]));
    let from = if case & 3 == 0 { choose(3) } else { how };
    let mut keys: Vec<ElementKey> = vec![];
    for (set, ws) in want.iter() {
        let w: Vec<&str> = ws.iter().map(|i| names[*i].as_str()).collect();
        let e = elem(ElementType::Entity).with_attrib(Attribute::Set(set.clone())).with_attrib(class("c")).with_span(&w);
        keys.push(must(match from { 0 => d.annotate(s, e), 1 => d.annotate(words[ws[0]], e), _ => d.annotate_span(e) }));
    }
    let mut sets: Vec<&String> = vec![];
    for (x, _) in want.iter() { if !sets.contains(&x) { sets.push(x) } }
    let layers: Vec<ElementKey> = child_keys(&d, s).into_iter().filter(|k| in_group(ElementGroup::Layer, el(&d, *k).elementtype())).collect();
    check!(layers.len() == sets.len(), "an element has one layer per annotation type and set of the spans under it");
    for (l, x) in layers.iter().zip(sets.iter()) {
        check!(el(&d, *l).elementtype() == ElementType::EntitiesLayer && opt_eq(el(&d, *l).set(), Some(x)), "a layer has the set of its spans");
        let mine: Vec<ElementKey> = want.iter().zip(keys.iter()).filter(|(w, _)| w.0 == **x).map(|(_, k)| *k).collect();
        check!(child_keys(&d, *l) == mine, "a span is placed in the layer of its type and set, in order");
    }
    for ((_, ws), k) in want.iter().zip(keys.iter()) {
        let refs: Vec<&str> = child_keys(&d, *k).iter().map(|c| match el(&d, *c).attrib(AttribType::IDREF) { Some(Attribute::Idref(i)) => match names.iter().find(|n| *n == i) { Some(n) => n.as_str(), None => fail!("a reference names its word") }, _ => fail!("a reference names its word") }).collect();
        check!(refs.len() == ws.len() && refs.iter().zip(ws.iter()).all(|(r, w)| *r == names[*w]), "a span keeps the words it refers to, in order");
    }
    for (i, w) in words.iter().enumerate() {
        let mine: Vec<ElementKey> = want.iter().zip(keys.iter()).filter(|(x, _)| x.1.contains(&i)).map(|(_, k)| *k).collect();
        let got: Vec<ElementKey> = el(&d, *w).get_annotations(AnnotationType::ENTITY, Cmp::Any, Recursion::No).filter_map(|x| x.element.key()).collect();
        check!(got == mine, "a word yields every span that refers to it, once, and no other");
    }
    if n <= 60 { consistent(&d) }
    reach!("c12.many");
});
pub const ALL: &[H] = &[ROLES_H, MANY_H, NEAR_H, THREE_H, LAYERS_H, NEST2_H, SETS_H, WORDS_H, KINDS_H, EXIST_H, PARSED_H, NEST_H];
