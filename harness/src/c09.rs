//! C09: attributes hold one value per kind and survive their text form
use crate::sup::*;
use crate::golden;
use crate::{check, fail, harness, reach, H};

/// the names of FoLiA's attributes and the kinds that hold them
const NAMES: [(&str, AttribType); 31] = [
    ("xml:id", AttribType::ID), ("set", AttribType::SET), ("class", AttribType::CLASS), ("annotator", AttribType::ANNOTATOR), ("annotatortype", AttribType::ANNOTATORTYPE),
    ("confidence", AttribType::CONFIDENCE), ("n", AttribType::N), ("datetime", AttribType::DATETIME), ("begintime", AttribType::BEGINTIME), ("endtime", AttribType::ENDTIME),
    ("src", AttribType::SRC), ("speaker", AttribType::SPEAKER), ("textclass", AttribType::TEXTCLASS), ("metadata", AttribType::METADATA), ("id", AttribType::IDREF),
    ("space", AttribType::SPACE), ("processor", AttribType::PROCESSOR), ("xlink:href", AttribType::HREF), ("format", AttribType::FORMAT), ("subset", AttribType::SUBSET),
    ("t", AttribType::TEXT), ("type", AttribType::TYPE), ("auth", AttribType::AUTH), ("offset", AttribType::OFFSET), ("ref", AttribType::REF), ("original", AttribType::ORIGINAL),
    ("linenr", AttribType::LINENR), ("pagenr", AttribType::PAGENR), ("newpage", AttribType::NEWPAGE), ("xlink:type", AttribType::XLINKTYPE), ("tag", AttribType::TAG),
];
fn kind(t: AttribType) -> usize { let mut i = 0; while i < NAMES.len() { if NAMES[i].1 == t { return i } i += 1 } fail!("every attribute kind is one of FoLiA's") }
fn dt(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> Option<chrono::NaiveDateTime> { chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|x| x.and_hms_opt(h, mi, s)) }
/// the attribute of a kind that holds a value; v is used by the kinds that hold text
fn make(k: usize, v: &str, n: u16) -> Attribute {
    let s = v.to_string();
    match NAMES[k].1 {
        AttribType::ID => Attribute::Id(s), AttribType::SET => Attribute::Set(s), AttribType::CLASS => Attribute::Class(s), AttribType::ANNOTATOR => Attribute::Annotator(s),
        AttribType::ANNOTATORTYPE => Attribute::AnnotatorType([ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource][n as usize & 3]),
        AttribType::CONFIDENCE => Attribute::Confidence(if n & 1 == 0 { 0.5 } else { 0.25 }), AttribType::N => Attribute::N(s),
        AttribType::DATETIME => Attribute::DateTime(match dt(2000, 1, 1, 0, 0, n as u32 & 31) { Some(d) => d, None => fail!("date") }),
        AttribType::BEGINTIME => Attribute::BeginTime(s), AttribType::ENDTIME => Attribute::EndTime(s), AttribType::SRC => Attribute::Src(s), AttribType::SPEAKER => Attribute::Speaker(s),
        AttribType::TEXTCLASS => Attribute::Textclass(s), AttribType::METADATA => Attribute::Metadata(s), AttribType::IDREF => Attribute::Idref(s), AttribType::SPACE => Attribute::Space(n & 1 == 0),
        AttribType::PROCESSOR => Attribute::Processor(s), AttribType::HREF => Attribute::Href(s), AttribType::FORMAT => Attribute::Format(s), AttribType::SUBSET => Attribute::Subset(s),
        AttribType::TEXT => Attribute::Text(s), AttribType::TYPE => Attribute::Type(s), AttribType::AUTH => Attribute::Auth(s), AttribType::OFFSET => Attribute::Offset(n), AttribType::REF => Attribute::Ref(s),
        AttribType::ORIGINAL => Attribute::Original(s), AttribType::LINENR => Attribute::LineNr(n), AttribType::PAGENR => Attribute::PageNr(s), AttribType::NEWPAGE => Attribute::NewPage(n & 1 == 0),
        _ => Attribute::XLinkType(s),
    }
}
/// number of kinds the library can hold (all but the last of the table)
const K: usize = 30;
/// the document's text form of one attribute
fn text_of(a: &Attribute) -> String { match a.to_string() { Ok(s) => s, Err(_) => fail!("an attribute that is not encoded has a text form") } }

/// a part of speech annotation with one attribute, as XML
fn pos(name: &str, value: &str) -> String {
    let mut s = String::from("<s xml:id=\"s\"><w xml:id=\"w\"><pos class=\"c\" ");
    s.push_str(name); s.push_str("=\""); s.push_str(value); s.push_str("\"/></w></s>");
    folia_xml("<pos-annotation/>", &s)
}
/// the only element of a type in a document
fn only(d: &Document, t: ElementType) -> Element<'_> {
    let mut found = None;
    for k in 0..nelements(d) { let e = el(d, k as ElementKey); if e.elementtype() == t { check!(found.is_none(), "no element is invented"); found = Some(e) } }
    match found { Some(e) => e, None => fail!("an element with a valid attribute is kept") }
}
/// parses an attribute; None if the document is refused
fn read(name: &str, value: &str, t: AttribType) -> Option<Attribute> {
    match parse_plain(&pos(name, value)) {
        Ok(d) => match only(&d, ElementType::PosAnnotation).attrib(t) { Some(a) => Some(a.clone()), None => fail!("an accepted attribute is kept") },
        Err(_) => None,
    }
}

harness!(TEXT_H, c09_text_values, "C09", quick [(0, 27)], thorough [(27, 81)], reach ["c09.text"],
    "an element parsed from XML with one attribute of each kind that holds free text (case mod 27), its value 1 (thorough: 2, 3) symbolic visible characters", |case| {
    let texts: Vec<usize> = (0..K).filter(|k| !matches!(NAMES[*k].1, AttribType::ANNOTATORTYPE | AttribType::CONFIDENCE | AttribType::DATETIME | AttribType::SPACE | AttribType::OFFSET | AttribType::LINENR | AttribType::NEWPAGE)).collect();
    let i = case as usize % 27;
    reach!("c09.text");
    if i >= texts.len() { return }
    let k = texts[i];
    let (name, t) = NAMES[k];
    let v = sstr(1 + case as usize / 27, VISIBLE.without(Dom::of(b"\"<&")));
    if t == AttribType::CLASS || t == AttribType::SUBSET || t == AttribType::SET || t == AttribType::PROCESSOR {
        let xml = match t {
            AttribType::CLASS => format!("<s xml:id=\"s\"><pos class=\"{}\"/></s>", v),
            AttribType::SET => format!("<s xml:id=\"s\"><pos class=\"c\" set=\"{}\"/></s>", v),
            AttribType::SUBSET => format!("<s xml:id=\"s\"><pos class=\"c\"><feat subset=\"{}\" class=\"x\"/></pos></s>", v),
            _ => format!("<s xml:id=\"s\"><pos class=\"c\" processor=\"{}\"/></s>", v),
        };
        let xml = folia_xml("", &xml).replacen("</annotations>", &format!("</annotations><provenance><processor xml:id=\"{}\" name=\"p\"/></provenance>", if t == AttribType::PROCESSOR { &v } else { "p" }), 1);
        let d = match parse_plain(&xml) { Ok(d) => d, Err(_) => fail!("any text is a valid value of a free text attribute") };
        let e = only(&d, if t == AttribType::SUBSET { ElementType::Feature } else { ElementType::PosAnnotation });
        let x = match t { AttribType::CLASS => e.class(), AttribType::SET => e.set(), AttribType::SUBSET => e.subset(), _ => e.processor() };
        check!(opt_eq(x, Some(&v)), "an attribute value is parsed as what it says");
    } else {
        if t == AttribType::ID { assume(v != "s" && v != "w") }
        match read(name, &v, t) { Some(a) => check!(a == make(k, &v, 0), "an attribute value is parsed as what it says"), None => fail!("any text is a valid value of a free text attribute") }
    }
});

harness!(BOOL_H, c09_booleans, "C09", quick [(0, 12)], thorough [(12, 16)], reach ["c09.bool"],
    "attributes space and newpage (case mod 2) parsed from values of 0-5 (thorough: 6, 7) symbolic lower case letters, digits and dashes", |case| {
    let v = sstr(case as usize / 2, Dom::range(b'a', b'z').or(Dom::range(b'0', b'9')).or(Dom::of(b"-")));
    let want = if v == "yes" || v == "true" { Some(true) } else if v == "no" || v == "false" { Some(false) } else { None };
    let (name, t) = if case % 2 == 0 { ("space", AttribType::SPACE) } else { ("newpage", AttribType::NEWPAGE) };
    let got = read(name, &v, t);
    match (want, got) {
        (None, None) => (),
        (Some(b), Some(Attribute::Space(c))) => check!(case % 2 == 0 && b == c, "a yes/no attribute is parsed as what it says"),
        (Some(b), Some(Attribute::NewPage(c))) => check!(case % 2 == 1 && b == c, "a yes/no attribute is parsed as what it says"),
        (None, Some(_)) => fail!("a yes/no attribute with another value is refused"),
        _ => fail!("a yes/no attribute with a valid value is accepted"),
    }
    reach!("c09.bool");
});

harness!(AT_H, c09_annotatortype, "C09", quick [(0, 13)], thorough [], reach ["c09.at"],
    "attribute annotatortype parsed from values of `case` (0-12) symbolic letters", |case| {
    let v = sstr(case as usize, LETTER);
    let want = match v.as_str() { "auto" => Some(ProcessorType::Auto), "manual" => Some(ProcessorType::Manual), "generator" => Some(ProcessorType::Generator), "datasource" => Some(ProcessorType::DataSource), _ => None };
    match (want, read("annotatortype", &v, AttribType::ANNOTATORTYPE)) {
        (None, None) => (),
        (Some(p), Some(Attribute::AnnotatorType(q))) => check!(p == q, "an annotator type is parsed as what it says"),
        (None, _) => fail!("an annotator type FoLiA does not have is refused"),
        _ => fail!("an annotator type FoLiA has is accepted"),
    }
    reach!("c09.at");
});

/// an unsigned decimal number of 16 bits
fn number(v: &str) -> Option<u16> {
    let b = v.as_bytes();
    let b = if b.len() > 0 && b[0] == b'+' { &b[1..] } else { b };
    if b.is_empty() { return None }
    let mut n = 0u32;
    for c in b { if *c < b'0' || *c > b'9' { return None } n = n * 10 + (*c - b'0') as u32; if n > 65535 { return None } }
    Some(n as u16)
}
harness!(NUM_H, c09_numbers, "C09", quick [(0, 12)], thorough [(12, 14)], reach ["c09.num"],
    "attributes offset and linenr (case mod 2) parsed from values of 0-5 (thorough: 6) symbolic characters: digits, sign, point, letter", |case| {
    let v = sstr(case as usize / 2, Dom::range(b'0', b'9').or(Dom::of(b"+-.x")));
    let (name, t) = if case % 2 == 0 { ("offset", AttribType::OFFSET) } else { ("linenr", AttribType::LINENR) };
    match (number(&v), read(name, &v, t)) {
        (None, None) => (),
        (Some(n), Some(Attribute::Offset(m))) => check!(case % 2 == 0 && n == m, "a number is parsed as what it says"),
        (Some(n), Some(Attribute::LineNr(m))) => check!(case % 2 == 1 && n == m, "a number is parsed as what it says"),
        (None, _) => fail!("what is no number of 16 bits is refused"),
        _ => fail!("a number of 16 bits is accepted"),
    }
    reach!("c09.num");
});
harness!(NUMW_H, c09_numbers_written, "C09", quick [(0, 2)], thorough [(2, 4)], reach ["c09.numw"],
    "attributes offset and linenr (case mod 2) with any number whose high byte is 0, 1, 3, 39 or 255 (thorough: with every 16 bit number): its text form is the number again", |case| {
    let n = if case < 2 { [0u16, 256, 768, 0x2700, 0xff00][choose(5)] | sbyte(ANY) as u16 } else { (sbyte(ANY) as u16) << 8 | sbyte(ANY) as u16 };
    let a = if case % 2 == 0 { Attribute::Offset(n) } else { Attribute::LineNr(n) };
    check!(number(&text_of(&a)) == Some(n), "a number is written as what it is");
    reach!("c09.numw");
});

harness!(CONF_H, c09_confidence, "C09", quick [(0, 5)], thorough [(5, 6)], reach ["c09.conf"],
    "attribute confidence: 12 decimal values in their usual spellings; values of 1-4 (thorough: 5) symbolic letters, which are no numbers (other than inf and nan)", |case| {
    if case == 0 {
        let t: [(&str, f64); 12] = [("0", 0.0), ("1", 1.0), ("1.0", 1.0), ("0.5", 0.5), (".25", 0.25), ("0.1", 0.1), ("0.99999", 0.99999), ("1e-3", 0.001), ("-1", -1.0), ("100", 100.0), ("0.123456789", 0.123456789), ("+0.75", 0.75)];
        let (s, f) = t[choose(12)];
        match read("confidence", s, AttribType::CONFIDENCE) { Some(Attribute::Confidence(g)) => check!(f == g, "a confidence is parsed as what it says"), _ => fail!("a confidence that is a number is accepted") }
    } else {
        let v = sstr(case as usize, LETTER);
        let l = v.to_ascii_lowercase();
        assume(l != "inf" && l != "nan");
        check!(read("confidence", &v, AttribType::CONFIDENCE).is_none(), "a confidence that is no number is refused");
    }
    reach!("c09.conf");
});

fn days(y: i32, m: u32) -> u32 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, _ => 0 } }
harness!(DT_H, c09_datetime, "C09", quick [(0, 5)], thorough [(5, 9)], reach ["c09.datetime"],
    "attribute datetime, two symbolic digits in turn for month, day, hour, minute, second (case), of a date in a leap year, a common year, a century and a year divisible by 400", |case| {
    let y = if case == 1 { [2020, 2019][choose(2)] } else if case < 5 { 2020 } else { [2000, 1900, 2023, 1600][case as usize - 5] };
    let field = if case < 5 { case as usize } else { 1 };
    let v = sstr(2, Dom::range(b'0', b'9'));
    let n = (v.as_bytes()[0] - b'0') as u32 * 10 + (v.as_bytes()[1] - b'0') as u32;
    let month = if field == 1 { [2, 4, 12][choose(3)] } else { 1 };
    let f = |i: usize, other: u32| if i == field { v.clone() } else { format!("{}{}", other / 10, other % 10) };
    let s = format!("{}-{}-{}T{}:{}:{}", y, f(0, month), f(1, 29), f(2, 1), f(3, 2), f(4, 3));
    let d = |i: usize, other: u32| if i == field { n } else { other };
    let (mo, da, h, mi, se) = (d(0, month), d(1, 29), d(2, 1), d(3, 2), d(4, 3));
    let valid = mo >= 1 && mo <= 12 && da >= 1 && da <= days(y, mo) && h < 24 && mi < 60 && se <= 60;
    assume(se != 60);
    match read("datetime", &s, AttribType::DATETIME) {
        Some(a) => {
            check!(valid, "a date that does not exist is refused");
            check!(text_of(&a) == s, "a datetime is parsed as what it says");
            match a { Attribute::DateTime(a) => check!(Some(a) == dt(y, mo, da, h, mi, se), "a datetime is parsed as what it says"), _ => fail!("a datetime is parsed as what it says") }
        }
        None => check!(!valid, "a date that exists is accepted"),
    }
    reach!("c09.datetime");
});

harness!(DTB_H, c09_datetime_form, "C09", quick [(0, 1)], thorough [], reach ["c09.datetimeform"],
    "attribute datetime with one character, at any of its 20 positions, left out, or replaced by a letter or other visible character (no digit, sign or white space)", |case| {
    let _ = case;
    let good = "2021-10-22T11:12:13";
    let i = choose(20);
    let v = if i == 19 { format!("{}{}", good, sstr(1, LETTER)) } else if flag() { format!("{}{}", &good[..i], &good[i + 1..]) } else { let c = sstr(1, VISIBLE.without(Dom::of(b"+-0123456789\"<&"))); assume(c.as_bytes()[0] != good.as_bytes()[i]); format!("{}{}{}", &good[..i], c, &good[i + 1..]) };
    // a number may have fewer digits
    let shorter = v.len() == 18 && good.as_bytes()[i].is_ascii_digit();
    match read("datetime", &v, AttribType::DATETIME) { Some(_) => check!(shorter, "a datetime in another form is refused"), None => () }
    reach!("c09.datetimeform");
});

harness!(NAME_H, c09_names, "C09", quick [(1, 14)], thorough [(14, 16)], reach ["c09.names"],
    "an attribute with a name of `case` (1-13, thorough: 15) symbolic lower case letters and colons and a value of one letter, on a part of speech annotation", |case| {
    let n = sstr(case as usize, Dom::range(b'a', b'z').or(Dom::of(b":")));
    assume(n != "class");
    // name space declarations are for the XML reader, and an attribute in an undeclared name space is foreign as well
    assume(!n.starts_with("xmlns") && !n.starts_with("xml:"));
    let v = sstr(1, LETTER);
    let mut known = None;
    for k in 0..K { if NAMES[k].0 == n { known = Some(k) } }
    let r = parse_plain(&pos(&n, &v));
    if let Some(k) = known {
        let t = NAMES[k].1;
        match r {
            Ok(d) => {
                let e = only(&d, ElementType::PosAnnotation);
                match t {
                    AttribType::SET => check!(opt_eq(e.set(), Some(&v)), "an attribute is parsed under its name"),
                    AttribType::PROCESSOR | AttribType::SUBSET => (),
                    _ => match e.attrib(t) { Some(a) => check!(*a == make(k, &v, 0), "an attribute is parsed under its name"), None => fail!("an attribute is parsed under its name") },
                }
            }
            Err(_) => check!(matches!(t, AttribType::ANNOTATORTYPE | AttribType::CONFIDENCE | AttribType::DATETIME | AttribType::SPACE | AttribType::OFFSET | AttribType::LINENR | AttribType::NEWPAGE), "an attribute of a known name is accepted"),
        }
    } else if n == "typegroup" || n.contains(':') {
        let d = match r { Ok(d) => d, Err(_) => fail!("attributes of other name spaces are ignored") };
        let e = only(&d, ElementType::PosAnnotation);
        check!(opt_eq(e.class(), Some("c")) && data_of(&d, e.key().unwrap_or(0)).is_empty(), "attributes of other name spaces are ignored");
        check!(e.set().is_none() && e.id().is_none() && e.processor().is_none() && e.subset().is_none() && e.attribs().iter().all(|a| *a == Attribute::Ignore || matches!(a.attribtype(), AttribType::CLASS | AttribType::SET)) && nelements(&d) == 4, "attributes of other name spaces are ignored");
    } else if n == "head" {
        let d = match r { Ok(d) => d, Err(_) => fail!("a subset the element type has is accepted as attribute") };
        let e = only(&d, ElementType::Feature);
        check!(e.parent_key() == only(&d, ElementType::PosAnnotation).key(), "a subset given as attribute becomes a feature");
        check!(opt_eq(e.subset(), Some("head")) && opt_eq(e.class(), Some(&v)), "a subset given as attribute becomes a feature");
    } else { check!(r.is_err(), "an unknown attribute is refused") }
    reach!("c09.names");
});

harness!(FOREIGN_H, c09_foreign, "C09", quick [(0, 6)], thorough [(6, 12)], reach ["c09.foreign"],
    "one attribute of another name space (its prefix one symbolic letter, declared there or on the root element), with the name of any of FoLiA's attributes or feature types, with or without one of FoLiA with that name on the same element, before or after it, on any of six types of element (case); the document reads as it does without", |case| {
    let at = case as usize % 6;
    let local: Vec<&str> = NAMES[..K].iter().map(|n| match n.0.find(':') { Some(i) => &n.0[i + 1..], None => n.0 }).chain(vec!["head", "polarity", "lang", "base", "foo"].into_iter()).collect();
    let i = choose(local.len());
    let p = sstr(1, LETTER);
    let value = match NAMES[if i < K { i } else { 0 }].1 { AttribType::SPACE => "no", AttribType::NEWPAGE => "yes", AttribType::OFFSET | AttribType::LINENR => "1", AttribType::CONFIDENCE => "0.5", AttribType::ANNOTATORTYPE => "auto", AttribType::DATETIME => "2000-01-01T00:00:00", _ => "w0" };
    let shown = if case >= 6 { sstr(2, LETTER) } else { "w0".to_string() };
    let foreign = format!(" {}:{}=\"{}\"", p, local[i], shown);
    // with the one of FoLiA next to it, or not; what identifies or refers is there anyway
    let own = if i < K && !["xml:id", "id", "class", "set", "processor", "subset", "xlink:href", "xlink:type"].contains(&NAMES[i].0) && flag() { format!(" {}=\"{}\"", NAMES[i].0, value) } else { String::new() };
    let (before, here) = (flag(), flag());
    let ns = format!(" xmlns:{}=\"other\"", p);
    let make = |there: bool| {
        let a = |k: usize, mine: &str| {
            if k != at { return format!(" {}", mine) }
            let x = format!(" {}{}", mine, own);
            if !there { return x }
            let f = if here { format!("{}{}", ns, foreign) } else { foreign.clone() };
            if before { format!("{}{}", f, x) } else { format!("{}{}", x, f) }
        };
        let mut s = folia_xml("<pos-annotation set=\"ps\"/><token-annotation/><entity-annotation set=\"es\"/>", &format!("<s{}><w{}><t{}>x<t-str{}>y</t-str></t><pos{}/></w><w xml:id=\"w0\"/><entities><entity{}><wref id=\"w\"/></entity></entities></s>", a(0, "xml:id=\"s\""), a(1, "xml:id=\"w\""), a(2, ""), a(3, ""), a(4, "class=\"c\""), a(5, "class=\"d\"")));
        if there && !here { s = s.replace("<FoLiA ", &format!("<FoLiA{} ", ns)) }
        s
    };
    let (d, e) = match (parse_plain(&make(false)), parse_plain(&make(true))) { (Ok(d), Ok(e)) => (d, e), (Err(_), Err(_)) => return, _ => fail!("attributes of other name spaces are ignored") };
    check!(nelements(&d) == nelements(&e), "attributes of other name spaces are ignored");
    same_tree(&d, 0, &e, 0);
    for n in ["s", "w", "w0", "doc.text"].iter() { check!(d.get_element_key_by_id(n) == e.get_element_key_by_id(n), "attributes of other name spaces are ignored") }
    check!(e.get_declaration_key_by_id("") == d.get_declaration_key_by_id("") && Store::<Declaration, DecKey>::len(&d) == Store::<Declaration, DecKey>::len(&e), "attributes of other name spaces are ignored");
    reach!("c09.foreign");
});
harness!(SHORT_H, c09_subset_attributes, "C09", quick [(0, 1)], thorough [], reach ["c09.short"],
    "an element of any type (symbolic) with a subset of any feature type as attribute: accepted, and turned into a feature, exactly if the element type accepts that feature type", |case| {
    let _ = case;
    let t = all_types();
    let feats: Vec<ElementType> = t.iter().copied().filter(|x| golden::props(*x).subset.is_some()).collect();
    let ty = t[conc(index(t.len()))];
    let f = feats[choose(feats.len())];
    assume(!feats.contains(&ty) && ty != ElementType::WordReference);
    let subset = match golden::props(f).subset { Some(s) => s, None => fail!("feature") };
    assume(!NAMES.iter().any(|n| n.0 == subset));
    let tag = match golden::ELEMENTS.iter().find(|e| e.0 == ty) { Some(e) => e.1, None => fail!("tag") };
    let v = sstr(1, LETTER);
    let ok = golden::props(ty).types.contains(&f);
    // features are attributed to the declaration of the element they are in
    let body = format!("<s xml:id=\"s\" set=\"x\"><{} xml:id=\"e\" class=\"c\" {}=\"{}\"/></s>", tag, subset, v);
    match parse_plain(&folia_xml("", &body)) {
        Ok(d) => {
            check!(ok, "a subset the element type does not have is refused");
            let e = only(&d, ElementType::Feature);
            check!(opt_eq(e.subset(), Some(subset)) && opt_eq(e.class(), Some(&v)), "a subset given as attribute becomes a feature");
            check!(e.get_parent().map(|p| opt_eq(p.id(), Some("e"))) == Some(true), "a subset given as attribute becomes a feature");
        }
        Err(_) => check!(!ok, "a subset the element type has is accepted as attribute"),
    }
    reach!("c09.short");
});

/// every attribute, encoded ones included
fn any(k: usize, v: &str, n: u16) -> Attribute { match k { 30 => Attribute::DeclarationRef(n), 31 => Attribute::ClassRef(n as ClassKey), 32 => Attribute::ProcessorRef(n), 33 => Attribute::SubsetRef(n as SubsetKey), _ => make(k, v, n) } }
/// the kind an attribute counts as: encoded ones share that of what they encode
fn kind_of(k: usize) -> usize { match k { 30 => kind(AttribType::SET), 31 => kind(AttribType::CLASS), 32 => kind(AttribType::PROCESSOR), 33 => kind(AttribType::SUBSET), _ => k } }
fn agree(e: &ElementData, r: &[(usize, Attribute)]) {
    check!(e.attribs().len() == r.len(), "an element holds one attribute per kind that was set");
    for (k, a) in r.iter() {
        check!(e.attrib(NAMES[*k].1) == Some(a), "an attribute reads back as it was set last");
        check!(e.attribs().iter().filter(|b| *b == a).count() == 1, "an attribute is held once");
    }
    for k in 0..K {
        let has = r.iter().any(|(l, _)| *l == k);
        check!(e.has_attrib(NAMES[k].1) == has && e.attrib(NAMES[k].1).is_some() == has, "an element has exactly the attributes that were set");
    }
    check!(opt_eq(e.id(), r.iter().find(|(k, _)| *k == 0).and_then(|(_, a)| a.as_str().ok())), "the identifier is that of the attribute");
    check!(opt_eq(e.idref(), r.iter().find(|(k, _)| *k == 14).and_then(|(_, a)| a.as_str().ok())), "the reference is that of the attribute");
    check!(e.confidence() == r.iter().find(|(k, _)| *k == 5).and_then(|(_, a)| if let Attribute::Confidence(f) = a { Some(*f) } else { None }), "the confidence is that of the attribute");
}
harness!(HIST_H, c09_history, "C09", quick [(1, 3)], thorough [(3, 4)], reach ["c09.history"],
    "`case` (up to 2, thorough: 3) operations on an element that has a set, a class and a number: set an attribute of any kind (34, encoded ones included) or delete any kind", |case| {
    let mut e = elem(ElementType::Word);
    let mut r: Vec<(usize, Attribute)> = vec![];
    for k in [1usize, 2, 6] { e.set_attrib(make(k, "a", 0)); r.push((k, make(k, "a", 0))) }
    agree(&e, &r);
    for i in 0..case as u16 {
        let k = choose(34);
        let t = kind_of(k);
        if k < K && flag() {
            let old = e.del_attrib(NAMES[t].1);
            let p = r.iter().position(|(l, _)| *l == t);
            check!(old == p.map(|p| r[p].1.clone()), "deleting an attribute returns the one that was set");
            if let Some(p) = p { r.remove(p); }
        } else {
            let a = any(k, &sstr(1, LETTER), i);
            if flag() { e.set_attrib(a.clone()) } else { e = e.with_attrib(a.clone()) }
            r.retain(|(l, _)| *l != t);
            r.push((t, a));
        }
        agree(&e, &r);
    }
    // all at once
    let f = elem(ElementType::Word).with_attribs(r.iter().map(|x| x.1.clone()).collect());
    agree(&f, &r);
    reach!("c09.history");
});

harness!(KINDS_H, c09_kinds, "C09", quick [(0, 1)], thorough [], reach ["c09.kinds"],
    "any two attributes of any of the 34 kinds (symbolic), with values of one symbolic character or number", |case| {
    let _ = case;
    let (k, l) = (choose(34), choose(34));
    let (v, n) = (sstr(1, VISIBLE), sbyte(ANY) as u16);
    let (a, b) = (any(k, &v, n), any(l, "b", 1));
    check!(a.attribtype() == NAMES[kind_of(k)].1, "an attribute is of its kind");
    check!(a.sametype(&b) == (kind_of(k) == kind_of(l)), "attributes are of the same type exactly if of the same kind");
    let name: &str = a.attribtype().into();
    check!(name == NAMES[kind_of(k)].0, "a kind has the name of the attribute in FoLiA");
    check!(a.attribtype().to_string() == name, "a kind is displayed by its name");
    check!(a.decodable() == (k >= 30), "the encoded forms, and only those, can be decoded");
    check!(a.encodable() == [1, 2, 16, 19].contains(&k), "set, class, subset and processor, and only those, can be encoded");
    let class = match NAMES[kind_of(k)].1 { AttribType::SET => AttribType::CLASS, AttribType::PROCESSOR | AttribType::ANNOTATORTYPE => AttribType::ANNOTATOR, t => t };
    check!(a.attribtypeclass() == class, "set and class, and annotator, annotator type and processor go together");
    if k >= 30 { check!(a.as_str().is_err() && a.to_string().is_err(), "an encoded attribute has no text form") }
    else if k != 5 && k != 7 { check!(Attribute::to_string(&a).is_ok(), "an attribute that is not encoded has a text form"); check!(format!("{}", a) == text_of(&a), "an attribute is displayed as its text form"); }
    if k < K { if let Ok(s) = a.as_str() { check!(s == text_of(&a), "both text forms of an attribute agree"); if !matches!(a, Attribute::AnnotatorType(_) | Attribute::Space(_) | Attribute::NewPage(_)) { check!(s == v, "the text form of a free text attribute is its value") } } }
    reach!("c09.kinds");
});

/// quotients, for decimals are exact as quotients of whole numbers: n / 10^k is the number nearest to the decimal
const QUOTIENTS: [(f64, f64); 40] = [(1.0, 3.0), (2.0, 3.0), (1.0, 7.0), (6.0, 7.0), (1.0, 9.0), (8.0, 9.0), (1.0, 11.0), (22.0, 7.0), (355.0, 113.0), (3.0, 10.0), (30000000000000004.0, 100000000000000000.0), (1.0, 1024.0), (1.0, 65536.0), (1023.0, 1024.0), (1.0, 1e6), (1.0, 1e9), (1.0, 1e12), (1.0, 1e15), (1.0, 1e20), (1.0, 1e100), (1.0, 1e300),
    (99999.0, 100000.0), (9999999.0, 10000000.0), (999999999999.0, 1000000000000.0), (123456789012345.0, 1000000000000000.0), (1.0, 1.0), (2.0, 1.0), (10.0, 1.0), (100.0, 1.0), (1e15, 1.0), (1e16, 1.0), (1e21, 1.0), (123456789.0, 8.0), (16777217.0, 1.0), (9007199254740993.0, 1.0), (-1.0, 3.0), (-0.5, 1.0), (5.0, 1e17), (1.0, 49.0), (97.0, 99.0)];
harness!(CONFW_H, c09_confidence_written, "C09", quick [(0, 3)], thorough [(3, 4)], reach ["c09.confw"],
    "confidences: 40 quotients (case 0), the number after or before one of them with any of the lower 52 bits flipped (case 1), or n/1000 for every n up to 1009 (case 2; thorough: n/10000 up to 10099), written in a document and read again: the same number; its text form is a number that is the same; a decimal is the number it says", |case| {
    let q = |i: usize| QUOTIENTS[i].0 / QUOTIENTS[i].1;
    let f = match case {
        0 => q(choose(QUOTIENTS.len())),
        1 => f64::from_bits(q([0, 3, 10, 25, 21][choose(5)]).to_bits() ^ 1u64 << choose(52)),
        _ => {
            let (n, k) = if case == 2 { (choose(101) * 10 + choose(10), 3) } else { (choose(101) * 100 + choose(100), 4) };
            let m = if k == 3 { 1000 } else { 10000 };
            let s = if k == 3 { format!("{}.{:03}", n / m, n % m) } else { format!("{}.{:04}", n / m, n % m) };
            let f = n as f64 / m as f64;
            match read("confidence", &s, AttribType::CONFIDENCE) { Some(Attribute::Confidence(g)) => check!(f == g, "a confidence is parsed as what it says"), _ => fail!("a confidence that is a number is accepted") }
            f
        }
    };
    let a = Attribute::Confidence(f);
    check!(matches!(text_of(&a).parse::<f64>(), Ok(g) if g == f), "a confidence is written as what it is");
    match read("confidence", &text_of(&a), AttribType::CONFIDENCE) { Some(Attribute::Confidence(g)) => check!(f == g, "a confidence is parsed as what it says"), _ => fail!("a confidence that is a number is accepted") }
    let mut d = new_doc();
    must(d.annotate(0, elem(ElementType::Sentence).with_attrib(a)));
    let e = reparse(&xml_of(&d));
    check!(el(&e, child_keys(&e, 0)[0]).attrib(AttribType::CONFIDENCE) == Some(&Attribute::Confidence(f)), "a confidence survives writing and reading");
    reach!("c09.confw");
});
harness!(WRITTEN_H, c09_written, "C09", quick [(0, 6)], thorough [(6, 12)], reach ["c09.written"],
    "an element of one of six types (case mod 6) with an attribute of any kind and one of two other kinds (thorough: of any), or none, in any order, with values of one symbolic character (thorough: two), any of both booleans, four types of annotator, eleven numbers, and sixteen times, written in a document and read again: the same attributes with the same values, and no others", |case| {
    let ty = [ElementType::Sentence, ElementType::Word, ElementType::Linebreak, ElementType::PosAnnotation, ElementType::TextMarkupStyle, ElementType::Description][case as usize % 6];
    let v = sstr(1 + case as usize / 6, VISIBLE);
    let kinds: Vec<usize> = (0..K).filter(|k| ![1, 2, 16, 19].contains(k)).collect();
    let value = |k: usize, i: usize| match NAMES[k].1 {
        AttribType::SPACE | AttribType::NEWPAGE | AttribType::CONFIDENCE => if i == 0 { choose(2) as u16 } else { 1 },
        AttribType::ANNOTATORTYPE => if i == 0 { choose(4) as u16 } else { 3 },
        AttribType::OFFSET | AttribType::LINENR => if i == 0 { [0u16, 1, 7, 10, 99, 100, 255, 256, 999, 10000, 65535][choose(11)] } else { 12 },
        AttribType::DATETIME => if i == 0 { choose(16) as u16 } else { 17 },
        _ => 0,
    };
    let i = choose(kinds.len());
    let k = kinds[i];
    let mut attribs = vec![make(k, &v, value(k, 0))];
    let n = kinds.len();
    let l = if case >= 6 { choose(n + 1) } else { match choose(3) { 0 => n, 1 => (i + 1) % n, _ => (i + 4 + case as usize) % n } };
    if l < kinds.len() {
        assume(kinds[l] != k);
        let b = make(kinds[l], "b", value(kinds[l], 1));
        if flag() { attribs.push(b) } else { attribs.insert(0, b) }
    }
    let mut d = new_doc();
    let key = must(d.add_element_to(0, elem(ty).with_attribs(attribs.clone())));
    let e = reparse(&xml_of(&d));
    for d in [&d, &e].iter() {
        let x = el(d, child_keys(d, 0)[0]);
        check!(x.key() == Some(key) && x.elementtype() == ty, "an element with a valid attribute is kept");
        // an annotation belongs to a declaration
        let n = x.attribs().iter().filter(|a| !a.decodable()).count();
        check!(n == attribs.len(), "no attribute is lost or invented");
        for a in attribs.iter() { check!(x.attrib(a.attribtype()) == Some(a), "an attribute that is written is read with the same value") }
    }
    reach!("c09.written");
});
harness!(FULL_H, c09_full, "C09", quick [(0, 4)], thorough [(4, 8)], reach ["c09.full"],
    "an element with an attribute of every kind but any one or two (thorough: three), in one of 26 orders or backwards (odd cases), one of them set again or deleted; each kind is there once with its last value, and so it is written and read", |case| {
    let kinds: Vec<usize> = (0..K).filter(|k| ![1, 2, 16, 19].contains(k)).collect();
    let n = kinds.len();
    let without = [choose(n), (case as usize / 2 % 2) * 7 % n, if case >= 4 { choose(n) } else { 0 }];
    let from = choose(n);
    let mut r: Vec<(usize, Attribute)> = vec![];
    for i in 0..n {
        let j = (if case & 1 == 1 { 2 * n - i } else { i } + from) % n;
        if !without.contains(&j) { r.push((kinds[j], make(kinds[j], "a", 3))) }
    }
    let mut e = elem(ElementType::Sentence).with_attribs(r.iter().map(|x| x.1.clone()).collect());
    agree(&e, &r);
    let k = kinds[(without[0] + 1 + (from & 1) * 3) % n];
    let p = r.iter().position(|x| x.0 == k);
    if from & 2 == 2 {
        check!(e.del_attrib(NAMES[k].1) == p.map(|p| r[p].1.clone()), "deleting an attribute returns the one that was set");
        if let Some(p) = p { r.remove(p); }
    } else { e.set_attrib(make(k, "b", 4)); if let Some(p) = p { r.remove(p); } r.push((k, make(k, "b", 4))) }
    agree(&e, &r);
    let mut d = new_doc();
    must(d.add_element_to(0, e));
    let f = reparse(&xml_of(&d));
    for d in [&d, &f].iter() {
        let x = el(d, child_keys(d, 0)[0]);
        check!(x.attribs().iter().filter(|a| !a.decodable()).count() == r.len(), "no attribute is lost or invented");
        for a in r.iter() { check!(x.attrib(a.1.attribtype()) == Some(&a.1), "an attribute that is written is read with the same value") }
    }
    reach!("c09.full");
});
pub const ALL: &[H] = &[FOREIGN_H, FULL_H, CONFW_H, TEXT_H, BOOL_H, AT_H, NUM_H, NUMW_H, CONF_H, DT_H, DTB_H, NAME_H, SHORT_H, HIST_H, KINDS_H, WRITTEN_H];
