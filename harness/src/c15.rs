//! C15: reading any input ends with a document or an error
//! A panic, an abort, a hang (an instruction budget far beyond what any of these inputs takes) or undefined
//! behaviour on any path is reported by the engine; the harnesses only feed the parser.
use crate::sup::*;
use crate::{check, fail, harness, reach, H};

pub const HEAD: &str = "<?xml version=\"1.0\"?>\n<!DOCTYPE x>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\" version=\"2.5\" a='b'><metadata type=\"native\" src=\"x\">\n<annotations><pos-annotation set=\"s\" alias=\"a\" format=\"f\"><annotator processor=\"p\"/></pos-annotation><w-annotation/></annotations><provenance><processor xml:id=\"p\" name=\"n\" type=\"auto\" begindatetime=\"2020-01-02T03:04:05\" enddatetime=\"2020-01-02T03:04:06\" version=\"1\"><processor xml:id=\"q\" name=\"m\" type=\"manual\"><meta id=\"k\">v</meta></processor></processor></provenance><meta id=\"k\">v&amp;<!--c--><![CDATA[d]]></meta><submetadata xml:id=\"s\" type=\"t\" src=\"u\"><meta id=\"i\">w</meta></submetadata></metadata><text xml:id=\"t\"/></FoLiA>";
pub const BODY: &str = "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><metadata/><text><s xml:id=\"s\"><w xml:id=\"w\" class=\"x\"><t>a&lt;<t-str n='1'>b</t-str><!--c--><![CDATA[d]]></t><pos class=\"N\" head=\"q\" confidence=\"0.5\" datetime=\"2020-01-02T03:04:05\"><feat subset=\"u\" class=\"v\"/></pos></w><entities><entity class=\"e\"><wref id=\"w\" t=\"a\"/></entity></entities><correction><new><t>&#233;</t></new></correction></s><x:y xmlns:x=\"z\" x:w=\"1\"/></text></FoLiA>";

fn outcome(r: Result<Document, FoliaError>) {
    match r { Ok(d) => { log(nelements(&d) as u64); check!(nelements(&d) >= 1, "reading ends with a document, which has a body, or an error") } Err(e) => { let s: String = e.into(); log_str(&s); check!(s.len() < 1000000, "reading ends with a document or an error, which can be shown") } }
}
/// the outcome of reading a file of these bytes
fn read(b: &[u8]) { outcome(Document::from_file(&file(b), DocumentProperties::default())) }
fn window(template: &str, chunk: usize, width: usize) -> (usize, Vec<u8>) {
    let b = template.as_bytes();
    let at = chunk * 8 + choose(8);
    assume(at < b.len());
    let end = if at + width > b.len() { b.len() } else { at + width };
    let mut v = b[..at].to_vec();
    let kind = choose(3);
    match kind { 0 => {} _ => v.extend(sbytes(width, ANY)) }
    if kind < 2 { v.extend(&b[end..]) } else { v.extend(&b[at..]) }
    (at, v)
}
const NH: u64 = (HEAD.len() as u64 + 7) / 8;
const NB: u64 = (BODY.len() as u64 + 7) / 8;
harness!(HEAD_H, c15_header, "C15", quick [(0, 2 * NH)], thorough [(2 * NH, 3 * NH)], reach ["c15.header"],
    "a file with a document whose header uses every construct (prolog, declarations, annotators, provenance, metadata, submetadata, CDATA, entities), in which one or two (thorough: three) bytes at any position (8 positions per case) are left out, replaced by any bytes, or preceded by any bytes", |case| {
    let (_, v) = window(HEAD, (case % NH) as usize, 1 + (case / NH) as usize);
    read(&v);
    reach!("c15.header");
});
harness!(BODY_H, c15_body, "C15", quick [(0, 2 * NB)], thorough [(2 * NB, 3 * NB)], reach ["c15.body"],
    "a file with a document whose body has structure, text with markup, entities, CDATA and comments, annotation with attributes of several kinds and features, a span annotation with a word reference, a correction and a foreign element, in which one or two (thorough: three) bytes at any position (8 positions per case) are left out, replaced by any bytes, or preceded by any bytes", |case| {
    let (_, v) = window(BODY, (case % NB) as usize, 1 + (case / NB) as usize);
    read(&v);
    reach!("c15.body");
});

harness!(RAW_H, c15_raw, "C15", quick [(0, 6)], thorough [(6, 8)], reach ["c15.raw"],
    "a file of `case` (0-5, thorough: 7) arbitrary bytes", |case| {
    read(&sbytes(case as usize, ANY));
    reach!("c15.raw");
});

/// (before, after) the window
const STARTS: &[(&str, &str)] = &[
    ("<", ">"), ("<!", ">"), ("<!--", ">"), ("<![CDATA[", ">"), ("<!DOCTYPE", ">"), ("<?", ">"), ("</", ">"),
    ("<?xml ", "?><FoLiA/>"), ("<?xml encoding=", "?><FoLiA/>"), ("<FoLiA ", "/>"), ("<FoLiA xmlns", "=\"http://ilk.uvt.nl/folia\"/>"), ("<FoLiA xmlns=", "/>"), ("<FoLiA xmlns:", "=\"\"/>"),
];
harness!(START_H, c15_starts, "C15", quick [(0, 39)], thorough [(39, 52)], reach ["c15.start"],
    "a file that begins with the start of a construct (case mod 13: tag, declaration, comment, CDATA, doctype, processing instruction, end tag, XML declaration, attributes, namespaces), then 1-3 (thorough: 4) arbitrary bytes, then the end of the construct or nothing", |case| {
    let (a, z) = STARTS[case as usize % 13];
    let mut v = a.as_bytes().to_vec();
    v.extend(sbytes(1 + case as usize / 13, ANY));
    if flag() { v.extend(z.as_bytes()) }
    read(&v);
    reach!("c15.start");
});

/// places in a document where a few characters can stand
const PLACES: &[(&str, &str, &str)] = &[
    // declarations
    ("<metadata><annotations>", "", "</annotations></metadata><text/>"), ("<metadata><annotations><", "", "/></annotations></metadata><text/>"), ("<metadata><annotations><pos-annotation", "", "/></annotations></metadata><text/>"),
    ("<metadata><annotations><pos-annotation set=\"", "", "\"/></annotations></metadata><text/>"), ("<metadata><annotations><pos-annotation><annotator ", "", "/></pos-annotation></annotations></metadata><text/>"),
    // provenance
    ("<metadata><provenance>", "", "</provenance></metadata><text/>"), ("<metadata><provenance><processor ", "", "/></provenance></metadata><text/>"), ("<metadata><provenance><processor type=\"", "auto", "\"/></provenance></metadata><text/>"),
    // metadata
    ("<", "metadata", "/><text/>"), ("<metadata><meta ", "", "/></metadata><text/>"), ("<metadata><meta>&", "", ";</meta></metadata><text/>"), ("<metadata><meta id=\"k\">", "", "</meta></metadata><text/>"), ("<metadata><submetadata ", "", "/></metadata><text/>"),
    // body
    ("<metadata/>", "", "<text/>"), ("<metadata/><text", "", "/>"), ("<metadata/><text>", "", "</text>"), ("<metadata/><text><", "", "/></text>"), ("<metadata/><text><w ", "", "/></text>"), ("<metadata/><text><w n=", "", "/></text>"),
    ("<metadata/><text><w n=\"", "", "\"/></text>"), ("<metadata/><text><w xml:id=\"", "", "\"/></text>"), ("<metadata/><text><w><t>", "", "</t></w></text>"), ("<metadata/><text><w><t>&", "", ";</t></w></text>"), ("<metadata/><text><w><t>&#", "", ";</t></w></text>"), ("<metadata/><text><w><t><!--", "", "--></t></w></text>"),
    ("<metadata/><text><w><t><![CDATA[", "", "]]></t></w></text>"), ("<metadata/><text></", "", ">"), ("<metadata/><text/>", "", ""),
];
const NP: u64 = PLACES.len() as u64;
harness!(PLACE_H, c15_places, "C15", quick [(0, 2 * NP)], thorough [(2 * NP, 3 * NP)], reach ["c15.place"],
    "a document with 1 or 2 (thorough: 3) arbitrary bytes at one of 28 places (case): inside, between and in the names, attributes and values of declarations, annotators, processors, metadata, body, elements, character references, comments, CDATA and end tags", |case| {
    let (a, m, z) = PLACES[(case % NP) as usize];
    let mut v = b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">".to_vec();
    v.extend(a.as_bytes());
    v.extend(m.as_bytes());
    v.extend(sbytes(1 + (case / NP) as usize, ANY));
    v.extend(z.as_bytes());
    v.extend(b"</FoLiA>");
    read(&v);
    reach!("c15.place");
});

harness!(REF_H, c15_references, "C15", quick [(1, 7)], thorough [(7, 9)], reach ["c15.ref"],
    "a character reference (&# or &#x) of `case` (1-6, thorough: 8) symbolic digits, or hexadecimal digits, or the same after leading Fs or nines, in an attribute value or in text", |case| {
    let digits = Dom::range(b'0', b'9');
    let hex = flag();
    let r = format!("&#{}{}{};", if hex { "x" } else { "" }, if case < 4 { "" } else if hex { "F" } else { "9" }, sstr(if case < 4 { case as usize } else { case as usize - 3 }, if hex { digits.or(Dom::range(b'a', b'f')) } else { digits }));
    let b = if flag() { format!("<w><t>{}</t></w>", r) } else { format!("<w n=\"{}\"/>", r) };
    outcome(parse(&folia_xml("", &b)));
    reach!("c15.ref");
});

const NAMES: &[&str] = &["xml:id", "id", "set", "class", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "idref", "space", "processor", "original", "ref", "linenr", "pagenr", "newpage", "auth", "offset", "format", "subset", "t", "xlink:href", "xlink:type", "tag", "typegroup", "head", "synset", "xml:space"];
const ON: &[&str] = &["w", "pos", "t", "wref", "feat", "br", "note", "entity", "speech"];
const NN: u64 = NAMES.len() as u64;
harness!(ATTR_H, c15_attributes, "C15", quick [(0, 3 * NN)], thorough [(3 * NN, 4 * NN)], reach ["c15.attr"],
    "an element of one of nine types with any of 35 attributes (case), its value 0-2 (thorough: 3) arbitrary bytes, given once or twice", |case| {
    let name = NAMES[(case % NN) as usize];
    let on = ON[choose(ON.len())];
    let mut v = format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"l\"><metadata/><text><{} {}=\"", on, name).into_bytes();
    v.extend(sbytes((case / NN) as usize, ANY));
    v.extend(b"\"");
    if flag() { v.extend(format!(" {}=\"1\"", name).as_bytes()) }
    v.extend(b"/></text></FoLiA>");
    read(&v);
    reach!("c15.attr");
});

/// what may be opened next in a body, (tag, attributes)
const OPEN: &[(&str, &str)] = &[("s", " xml:id=\"a\""), ("w", " xml:id=\"b\""), ("t", ""), ("pos", " class=\"c\" set=\"s\""), ("feat", " subset=\"u\" class=\"c\""), ("entities", ""), ("entity", " class=\"c\""), ("wref", " id=\"b\""), ("wref", " id=\"a\""),
    ("correction", ""), ("new", ""), ("alt", " auth=\"no\""), ("complexalignments", ""), ("relation", ""), ("xref", " id=\"b\""), ("layer", ""), ("spanrelation", ""), ("text", ""), ("FoLiA", ""), ("metadata", "")];
harness!(TOKENS_H, c15_tokens, "C15", quick [(20, 80)], thorough [(80, 100)], reach ["c15.tokens"],
    "every body of case / 20 (up to 3, thorough: 4) tags from 20 kinds (structure, text, annotation, features, layers and spans, word references to elements before, after, inside or missing, corrections, alternatives, unknown elements, elements of the header), duplicate identifiers included, nested or in sequence", |case| {
    let mut body = String::new();
    let mut open: Vec<&str> = vec![];
    let (case, first) = (case / OPEN.len() as u64, case as usize % OPEN.len());
    for i in 0..case {
        let (t, a) = OPEN[if i == 0 { first } else { choose(OPEN.len()) }];
        body.push_str(&format!("<{}{}>", t, a));
        open.push(t);
        if i + 1 < case { for _ in 0..choose(open.len() + 1) { if let Some(t) = open.pop() { body.push_str(&format!("</{}>", t)) } } }
    }
    while let Some(t) = open.pop() { body.push_str(&format!("</{}>", t)) }
    outcome(parse(&folia_xml("<entity-annotation set=\"e\"/>", &body)));
    reach!("c15.tokens");
});

/// what may stand in a header, start tag and end tag
const HOPEN: &[(&str, &str)] = &[("annotations", ""), ("pos-annotation", " set=\"s\""), ("annotator", " processor=\"p\""), ("provenance", ""), ("processor", " xml:id=\"p\" name=\"n\""), ("processor", ""), ("meta", " id=\"k\""), ("meta", ""), ("submetadata", " xml:id=\"s\""), ("submetadata", ""), ("metadata", ""), ("FoLiA", ""), ("text", ""), ("w", "")];
harness!(HTOKENS_H, c15_header_tokens, "C15", quick [(14, 56)], thorough [(56, 70)], reach ["c15.htokens"],
    "every header of case / 14 (up to 3, thorough: 4) tags from 14 kinds (annotations, declarations, annotators, provenance, processors, meta, submetadata, nested metadata, elements of the body), with the attributes they need or without, nested or in sequence, each with text", |case| {
    let mut x = String::from("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><metadata>");
    let mut open: Vec<&str> = vec![];
    let (case, first) = (case / HOPEN.len() as u64, case as usize % HOPEN.len());
    for i in 0..case {
        let (t, a) = HOPEN[if i == 0 { first } else { choose(HOPEN.len()) }];
        x.push_str(&format!("<{}{}>x", t, a));
        open.push(t);
        if i + 1 < case { for _ in 0..choose(open.len() + 1) { if let Some(t) = open.pop() { x.push_str(&format!("</{}>", t)) } } }
    }
    while let Some(t) = open.pop() { x.push_str(&format!("</{}>", t)) }
    x.push_str("</metadata><text/></FoLiA>");
    let r = parse(&x);
    if let Ok(d) = &r { let _ = xml_of(d); }
    outcome(r);
    reach!("c15.htokens");
});

const FORM: &[u8] = b"2020-12-28T23:59:58";
harness!(TIME_H, c15_times, "C15", quick [(0, 19)], thorough [(19, 37)], reach ["c15.time"],
    "a begin or end time of a processor, or a datetime attribute, that has one arbitrary byte (thorough: two) in place of the one at any position (case), or before it, or ends after it", |case| {
    let (at, w) = (case as usize % 19, 1 + case as usize / 19);
    let mut t = FORM[..at].to_vec();
    t.extend(sbytes(w, ANY));
    match choose(3) { 0 => {} 1 => t.extend(&FORM[at + w..]), _ => t.extend(&FORM[at..]) }
    let mut v = b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><metadata>".to_vec();
    let p = choose(3);
    if p > 0 { v.extend(b"<provenance><processor xml:id=\"p\" "); v.extend(if p == 1 { &b"begin"[..] } else { &b"end"[..] }); v.extend(b"datetime=\""); v.extend(&t); v.extend(b"\"/></provenance>"); }
    v.extend(b"</metadata><text>");
    if p == 0 { v.extend(b"<w datetime=\""); v.extend(&t); v.extend(b"\"/>"); }
    v.extend(b"</text></FoLiA>");
    read(&v);
    reach!("c15.time");
});

harness!(NOFILE_H, c15_utf8, "C15", quick [(0, 28)], thorough [], reach ["c15.utf8"],
    "a string with a symbolic two byte character, alone or before a symbolic ASCII character, at one of the 28 places (case), read from a string", |case| {
    let (a, m, z) = PLACES[case as usize];
    let c = if flag() { sstr_utf8(1, Dom::range(1, 0x7f)) } else { sstr_utf8(0, TEXT) };
    outcome(parse(&format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">{}{}{}{}</FoLiA>", a, m, c, z)));
    reach!("c15.utf8");
});

harness!(DEEP_H, c15_depth, "C15", quick [(0, 4)], thorough [], reach ["c15.depth"],
    "nesting of 40 levels of a division, an element with 40 attributes, 40 children, 40 features (case), serialised and walked afterwards", |case| {
    let n = 40;
    let b = match case { 0 => format!("{}{}", "<div>".repeat(n), "</div>".repeat(n)), 1 => format!("<w {}/>", (0..n).map(|i| format!("a{}=\"1\" ", i)).collect::<String>()), 2 => "<w/>".repeat(n), _ => format!("<w>{}</w>", "<feat subset=\"a\" class=\"b\"/>".repeat(n)) };
    match parse(&folia_xml("", &b)) { Ok(d) => { check!(case != 1, "unknown attributes are refused"); check!(nelements(&d) == n + 1 + (case == 3) as usize, "every element is read"); let _ = xml_of(&d); } Err(_) => check!(case == 1, "a valid document is accepted") }
    if case > 9 { fail!("no such case") }
    reach!("c15.depth");
});

harness!(TIMEU_H, c15_times_utf8, "C15", quick [(0, 19)], thorough [], reach ["c15.timeu"],
    "a begin or end time of a processor, or a datetime attribute, with a symbolic character of two, three or four bytes at any position (case), in place of a character or before it, or at the end; read from a string", |case| {
    let at = case as usize;
    let f = "2020-12-28T23:59:58";
    let c = schar(2 + choose(3));
    let t = match choose(3) { 0 => format!("{}{}{}", &f[..at], c, &f[at + 1..]), 1 => format!("{}{}{}", &f[..at], c, &f[at..]), _ => format!("{}{}{}", f, &f[..at], c) };
    let (h, b) = match choose(3) { 0 => (String::new(), format!("<w datetime=\"{}\"/>", t)), k => (format!("<provenance><processor xml:id=\"p\" {}datetime=\"{}\"/></provenance>", ["begin", "end"][k - 1], t), String::new()) };
    outcome(parse(&format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><metadata>{}</metadata><text>{}</text></FoLiA>", h, b)));
    reach!("c15.timeu");
});
harness!(WIDE_H, c15_wide, "C15", quick [(0, NH + NB)], thorough [], reach ["c15.wide"],
    "a document whose header or body (case) uses every construct, with a character of two, three or four bytes of which the last is symbolic in place of any one, or before it (8 positions per case); read from a string", |case| {
    let (t, c) = if case < NH { (HEAD, case as usize) } else { (BODY, (case - NH) as usize) };
    let at = c * 8 + choose(8);
    assume(at < t.len());
    let c = sbyte(Dom::range(0x80, 0xbf));
    let ch = match choose(3) { 0 => vec![0xc3, c], 1 => vec![0xe3, 0x81, c], _ => vec![0xf0, 0x9f, 0x98, c] };
    let ch = unsafe { String::from_utf8_unchecked(ch) };
    outcome(parse(&format!("{}{}{}", &t[..at], ch, &t[at + choose(2)..])));
    reach!("c15.wide");
});
/// the attributes of the header's elements, by the text before and after the value
const HATTRS: &[(&str, &str)] = &[("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"", "\"><text/></FoLiA>"), ("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" version=\"", "\"><text/></FoLiA>"), ("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" generator=\"", "\"><text/></FoLiA>"), ("<FoLiA xmlns=\"", "\"><text/></FoLiA>"),
    ("<?xml version=\"", "\"?><FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text/></FoLiA>"), ("<?xml version=\"1.0\" encoding=\"", "\"?><FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text/></FoLiA>"), ("<?", "?><FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text/></FoLiA>"), ("<!DOCTYPE ", "><FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text/></FoLiA>"), ("<!--", "--><FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text/></FoLiA>"), ("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\"><text xml:id=\"", "\"/></FoLiA>")];
const MATTRS: &[(&str, &[&str], &str)] = &[("<metadata ", &["type", "src"], "/>"), ("<metadata><meta ", &["id"], "/></metadata>"), ("<metadata><submetadata ", &["xml:id", "type", "src"], "/></metadata>"), ("<metadata><annotations><pos-annotation ", &["set", "alias", "format"], "/></annotations></metadata>"), ("<metadata><annotations><pos-annotation><annotator ", &["processor"], "/></pos-annotation></annotations></metadata>"),
    ("<metadata><provenance><processor ", &["xml:id", "name", "type", "version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink", "begindatetime", "enddatetime"], "/></provenance></metadata>")];
/// a string of many characters of two or three bytes, so that no position within it is where a character begins in all of them
fn filled(n: usize) -> String { let (lead, c) = [(0, "\u{e9}"), (1, "\u{e9}"), (0, "\u{3042}"), (1, "\u{3042}"), (2, "\u{3042}")][choose(5)]; let mut s = sstr(lead, LETTER); for _ in 0..n { s.push_str(c) } s.push_str(&sstr(1, LETTER)); s }
harness!(FILL_H, c15_long, "C15", quick [(0, 6)], thorough [(6, 12)], reach ["c15.long"],
    "a document with a string of 24 or 180 (thorough: 2200) characters of two or three bytes, with none, one or two ASCII letters before it and a symbolic one after it, in one of the 28 places, as any of 35 attributes of an element of one of nine types, or any of the header's attributes, prolog, or (case mod 6) as an attribute's or element's name; read from a string, and written when it could be", |case| {
    let s = filled(if case < 6 { [24, 180][choose(2)] } else { 2200 });
    let x = match case % 6 {
        0 => { let (a, m, z) = PLACES[choose(PLACES.len())]; format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">{}{}{}{}</FoLiA>", a, m, s, z) }
        1 => format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"l\"><metadata/><text><{} {}=\"{}\"/></text></FoLiA>", ON[choose(ON.len())], NAMES[choose(NAMES.len())], s),
        2 => { let (a, z) = HATTRS[choose(HATTRS.len())]; format!("{}{}{}", a, s, z) }
        3 => { let (a, l, z) = MATTRS[choose(MATTRS.len())]; format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">{}{}=\"{}\"{}<text/></FoLiA>", a, l[choose(l.len())], s, z) }
        4 => { let (a, _, z) = MATTRS[choose(MATTRS.len())]; format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">{}{}=\"\"{}<text/></FoLiA>", a, s, z) }
        _ => { let (a, z) = [("<", "/>"), ("<w ", "=\"\"/>"), ("<w><t class=\"", "\">a</t></w>"), ("<pos class=\"a\" set=\"", "\"/>"), ("<pos class=\"a\"><feat subset=\"", "\" class=\"b\"/></pos>"), ("<pos class=\"a\"><feat subset=\"u\" class=\"", "\"/></pos>"), ("<w xmlns:x=\"", "\"/>"), ("<w xmlns:", "=\"l\"/>"), ("<x:", " xmlns:x=\"l\"/>"), ("<foreign-data><a>", "</a></foreign-data>"), ("<entities><entity><wref id=\"", "\"/></entity></entities>"), ("<desc>", "</desc>"), ("<comment>", "</comment>")][choose(13)]; folia_xml("", &format!("{}{}{}", a, s, z)) }
    };
    let r = parse(&x);
    if let Ok(d) = &r { let y = xml_of(d); log(y.len() as u64); }
    outcome(r);
    reach!("c15.long");
});
pub const ALL: &[H] = &[FILL_H, TIMEU_H, WIDE_H, HEAD_H, BODY_H, RAW_H, START_H, PLACE_H, REF_H, ATTR_H, TOKENS_H, HTOKENS_H, TIME_H, NOFILE_H, DEEP_H];
