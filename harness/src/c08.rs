//! C08: the specification tables agree with each other for every type
use crate::golden::*;
use crate::sup::*;
use crate::{check, fail, harness, reach, H};
use std::str::FromStr;

const TAG: Dom = Dom::range(b'a', b'z').or(Dom::of(b"-"));
harness!(TAG_H, c08_tag_strings, "C08", quick [(0, 20)], thorough [(20, 24)], reach ["c08.tag"],
    "every string of case bytes out of a-z and '-': it is read as an element type exactly if that type is written so, and no two types are written so", |case| {
    let s = sstr(case as usize, TAG);
    let all = all_types();
    match ElementType::from_str(&s) {
        Ok(t) => {
            check!(t.as_str() == s.as_str(), "the tag an element type is read from is the tag it is written with");
            let mut n = 0;
            for u in all.iter() { if u.as_str() == s.as_str() { n += 1; check!(*u == t, "no two element types share a tag") } }
            check!(n == 1, "no two element types share a tag");
        }
        Err(_) => for u in all.iter() { check!(u.as_str() != s.as_str(), "the tag an element type is written with is read back") },
    }
    reach!("c08.tag");
});
harness!(NAME_H, c08_annotation_strings, "C08", quick [(0, 18)], thorough [(18, 22)], reach ["c08.name"],
    "every string of case bytes out of a-z and '-': it is read as an annotation type exactly if that type is written so", |case| {
    let s = sstr(case as usize, TAG);
    let all = all_annotypes();
    match AnnotationType::from_str(&s) {
        Some(t) => {
            check!(t.as_str() == s.as_str(), "the name an annotation type is read from is the name it is written with");
            for u in all.iter() { check!((u.as_str() == s.as_str()) == (*u == t), "no two annotation types share a name") }
        }
        None => for u in all.iter() { check!(u.as_str() != s.as_str(), "the name an annotation type is written with is read back") },
    }
    reach!("c08.name");
});
harness!(ANY_H, c08_tag_bytes, "C08", quick [(1, 8)], thorough [(8, 12)], reach ["c08.any"],
    "every string of case printable ASCII bytes (any case, digits, punctuation): only the exact tags are accepted", |case| {
    let s = sstr(case as usize, TEXT);
    match ElementType::from_str(&s) { Ok(t) => check!(t.as_str() == s.as_str(), "the tag an element type is read from is the tag it is written with"), Err(_) => for u in all_types().iter() { check!(u.as_str() != s.as_str(), "the tag an element type is written with is read back") } }
    match AnnotationType::from_str(&s) { Some(t) => check!(t.as_str() == s.as_str(), "the name an annotation type is read from is the name it is written with"), None => for u in all_annotypes().iter() { check!(u.as_str() != s.as_str(), "the name an annotation type is written with is read back") } }
    reach!("c08.any");
});
fn pick(all: &[ElementType]) -> ElementType { all[choose(all.len())] }
harness!(ELEM_H, c08_elements, "C08", quick [(0, 1)], thorough [], reach ["c08.elem"],
    "every element type: tag, annotation type, properties, groups, the FoLiA specification's tag and annotation type", |case| {
    let _ = case;
    let all = all_types();
    check!(all.len() == ELEMENTS.len(), "there are as many element types as in the specification");
    let t = pick(&all);
    let p = Properties::new(t);
    let a = t.annotationtype();
    let g = match ELEMENTS.iter().find(|g| g.0 == t) { Some(g) => g, None => fail!("every element type is one of the specification") };
    check!(t.as_str() == g.1, "an element type is written with the tag the specification gives it");
    check!(a == g.2, "an element type belongs to the annotation type the specification gives it");
    check!(matches!(ElementType::from_str(t.as_str()), Ok(u) if u == t), "the tag an element type is written with is read back");
    let s: &str = t.into();
    check!(s == t.as_str(), "an element type converts to its tag");
    check!(p.annotationtype == a, "properties name the annotation type of the element type");
    let feature = ElementGroup::Feature.contains(t);
    check!(p.xmltag == if feature { "" } else { t.as_str() }, "properties name the tag of the element type");
    match p.subset { Some(s) => check!(feature && (s == t.as_str() || t == ElementType::HeadFeature), "a feature's subset is its tag"), None => check!(!feature, "a feature's subset is its tag") }
    let gp = props(t);
    check!(p.printable == gp.printable && p.hidden == gp.hidden && p.textcontainer == gp.textcontainer && p.textdelimiter == gp.delimiter, "the properties about text are those of the specification");
    check!(p.wrefable == gp.wrefable && p.subset == gp.subset && p.optional_attribs.contains(&AttribType::SPACE) == gp.space, "an element type's properties are those of the specification");
    let r = match REST.iter().find(|r| r.0 == t) { Some(r) => r, None => fail!("every element type is one of the specification") };
    check!(p.required_data.len() == r.1.len() && p.required_data.iter().all(|x| r.1.contains(x)) && p.required_attribs.len() == r.2.len() && p.required_attribs.iter().all(|x| r.2.contains(x)), "an element type requires the data and attributes the specification lists for it");
    check!(p.optional_attribs.len() == r.3.len() && p.optional_attribs.iter().all(|x| r.3.contains(x)), "an element type has the optional attributes the specification lists for it");
    check!(p.occurrences == r.4 && p.occurrences_per_set == r.5, "an element type occurs as often as the specification says");
    check!([p.speakable, p.xlink, p.phoncontainer, p.auth, p.primaryelement, p.auto_generate_id, p.setonly] == r.6 && p.label == r.7, "an element type's properties are those of the specification");
    for u in all.iter() { check!(p.accepted_data.iter().any(|x| match x { AcceptedData::AcceptElementType(v) => v == u, AcceptedData::AcceptElementGroup(g) => g.contains(*u) }) == accepts(t, *u), "an element type accepts the types the specification lists for it") }
    for grp in all_groups() {
        check!(grp.contains(t) == in_group(grp, t), "a group holds the element types the specification lists for it");
        let mut n = 0;
        for u in grp.elementtypes() { if *u == t { n += 1 } }
        check!(n <= 1, "a group lists an element type at most once");
        check!((n == 1) == grp.contains(t) && grp.contains(t) == t.is_in_group(grp), "membership of a group is the same however it is asked");
    }
    if let Some(a) = a {
        check!(a.elementtype().annotationtype() == Some(a), "the primary element type of an annotation type belongs to it");
        // FoLiA 2.5 leaves horizontal space and hyphenation unmarked
        check!(a == AnnotationType::HSPACE || a == AnnotationType::HYPHENATION || Properties::new(a.elementtype()).primaryelement, "the primary element type of an annotation type is marked so");
    }
    if ElementGroup::Layer.contains(t) { match a { Some(a) => check!(a.layertype() == Some(t), "a layer is the layer type of its annotation type"), None => fail!("a layer has an annotation type") } }
    if ElementGroup::Span.contains(t) {
        let l = match a { Some(a) => a.layertype(), None => fail!("a span annotation has an annotation type") };
        let l = match l { Some(l) => l, None => fail!("a span annotation has a layer type") };
        check!(ElementGroup::Layer.contains(l), "layer types are in the layer group");
        check!(Properties::new(l).accepted_data.iter().any(|x| match x { AcceptedData::AcceptElementType(u) => *u == t, AcceptedData::AcceptElementGroup(g) => g.contains(t) }), "a layer accepts the span annotations of its annotation type");
    }
    if ElementGroup::TextMarkup.contains(t) { check!(p.textcontainer && p.printable, "text markup carries text") }
    if ElementGroup::Inline.contains(t) { check!(!p.printable, "inline annotation carries no text") }
    check!(!(ElementGroup::Inline.contains(t) && ElementGroup::Structure.contains(t)) && !(ElementGroup::Span.contains(t) && ElementGroup::Structure.contains(t)) && !(ElementGroup::Layer.contains(t) && ElementGroup::Span.contains(t)), "structure, inline, span and layer are different groups");
    reach!("c08.elem");
});
harness!(ANN_H, c08_annotations, "C08", quick [(0, 1)], thorough [], reach ["c08.ann"],
    "every annotation type: name, primary element type, tag, layer type", |case| {
    let _ = case;
    let all = all_annotypes();
    check!(all.len() == ANNOTATIONS.len(), "there are as many annotation types as in the specification");
    let a = all[choose(all.len())];
    let g = match ANNOTATIONS.iter().find(|g| g.0 == a) { Some(g) => g, None => fail!("every annotation type is one of the specification") };
    check!(a.as_str() == g.1, "an annotation type has the name the specification gives it");
    check!(a.elementtype() == g.2, "an annotation type has the primary element type the specification gives it");
    check!(a.layertype() == g.3, "an annotation type has the layer type the specification gives it");
    check!(AnnotationType::from_str(a.as_str()) == Some(a), "the name of an annotation type maps back to it");
    let s: &str = a.into();
    check!(s == a.as_str(), "an annotation type converts to its name");
    let e: ElementType = a.into();
    check!(e == a.elementtype(), "an annotation type converts to its primary element type");
    check!(a.as_element_str() == e.as_str(), "an annotation type's tag is that of its primary element type");
    check!(e.annotationtype() == Some(a), "the primary element type of an annotation type belongs to it");
    let p = Properties::new(e);
    check!(p.annotationtype == Some(a) && (p.primaryelement || a == AnnotationType::HSPACE || a == AnnotationType::HYPHENATION), "the primary element type of an annotation type is marked so");
    if let Some(l) = a.layertype() {
        check!(ElementGroup::Layer.contains(l), "layer types are in the layer group");
        // predicates live in the layer of the semantic roles
        check!(l.annotationtype() == Some(if a == AnnotationType::PREDICATE { AnnotationType::SEMROLE } else { a }), "a layer belongs to the annotation type it is the layer of");
        check!(Properties::new(l).accepted_data.iter().any(|x| match x { AcceptedData::AcceptElementType(u) => *u == e, AcceptedData::AcceptElementGroup(g) => g.contains(e) }), "a layer accepts the primary element type of its annotation type");
    } else { check!(!ElementGroup::Span.contains(e), "a span annotation has a layer type") }
    // the declaration element is read back as the same annotation type
    let mut x = String::from("<"); x.push_str(a.as_str()); x.push_str("-annotation set=\"s\"/>");
    let d = match parse_plain(&folia_xml(&x, "")) { Ok(d) => d, Err(_) => fail!("a declaration of any annotation type parses") };
    check!(d.get_declaration(0).map(|x| x.annotationtype == a) == Some(true), "a declaration is read back as the same annotation type");
    reach!("c08.ann");
});
harness!(DOC_H, c08_in_documents, "C08", quick [(0, 4)], thorough [], reach ["c08.doc"],
    "every element type in XML (a quarter per case): written with its tag, read back as itself; properties of a document are those of the type", |case| {
    let all = all_types();
    let n = (all.len() + 3) / 4;
    let i = case as usize * n + choose(n);
    assume(i < all.len());
    let t = all[i];
    let d = new_doc();
    let p = Properties::new(t);
    let q = d.props(t);
    check!(p.xmltag == q.xmltag && p.annotationtype == q.annotationtype && p.textdelimiter == q.textdelimiter && p.accepted_data == q.accepted_data && p.printable == q.printable && p.wrefable == q.wrefable && p.subset == q.subset && p.textcontainer == q.textcontainer && p.hidden == q.hidden && p.speakable == q.speakable, "a document uses the specification's properties for each element type");
    let s = Specification::default();
    let q = s.get(t);
    check!(p.xmltag == q.xmltag && p.annotationtype == q.annotationtype && p.textdelimiter == q.textdelimiter && p.accepted_data == q.accepted_data && p.printable == q.printable && p.wrefable == q.wrefable && p.subset == q.subset && p.textcontainer == q.textcontainer && p.hidden == q.hidden && p.speakable == q.speakable, "the specification holds each element type's own properties");
    let mut x = String::from("<"); x.push_str(t.as_str());
    // a word reference without a target is refused
    if t == ElementType::WordReference { check!(parse(&folia_xml("", "<wref/>")).is_err(), "a reference to nothing is refused"); return }
    x.push_str("/>");
    match parse(&folia_xml("", &x)) { Ok(d) => { check!(nelements(&d) == 2 && el(&d, 1).elementtype() == t, "an element is read back as the type its tag stands for"); let y = xml_of(&d); let mut f = String::from("<"); f.push_str(t.as_str()); check!(y.windows(f.len()).any(|w| w == f.as_bytes()), "an element is written with the tag of its type") } Err(_) => fail!("an element of any type parses") }
    reach!("c08.doc");
});
pub const ALL: &[H] = &[TAG_H, NAME_H, ANY_H, ELEM_H, ANN_H, DOC_H];
