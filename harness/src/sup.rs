//! Interface to the symbolic engine, symbolic data and the reference helpers shared by the harnesses.
pub use folia::*;
pub use std::collections::HashMap;
pub use strum::IntoEnumIterator;

extern "C-unwind" {
    fn vs_sym(p: *mut u8, n: usize, set: *const u64);
    fn vs_choose(n: u64) -> u64;
    fn vs_conc(n: u64) -> u64;
    fn vs_assume(b: bool);
    fn vs_assert(b: bool, id: u64, m: *const u8, l: usize);
    fn vs_fail(id: u64, m: *const u8, l: usize) -> !;
    fn vs_reach(id: u64, m: *const u8, l: usize);
    fn vs_log(v: u64);
    fn vs_file(p: *const u8, n: usize, path: *mut u8, max: usize) -> usize;
}

pub const fn fnv(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < b.len() { h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3); i += 1; }
    h >> 1
}
#[inline(always)]
pub fn raw_check(b: bool, id: u64, m: &'static str) { unsafe { vs_assert(b, id, m.as_ptr(), m.len()) } }
#[inline(always)]
pub fn raw_fail(id: u64, m: &'static str) -> ! { unsafe { vs_fail(id, m.as_ptr(), m.len()) } }
#[inline(always)]
pub fn raw_reach(id: u64, m: &'static str) { unsafe { vs_reach(id, m.as_ptr(), m.len()) } }
#[macro_export]
macro_rules! check { ($c:expr, $m:expr) => {{ const M: &str = $m; const ID: u64 = $crate::sup::fnv(M); $crate::sup::raw_check($c, ID, M) }} }
#[macro_export]
macro_rules! fail { ($m:expr) => {{ const M: &str = $m; const ID: u64 = $crate::sup::fnv(M); $crate::sup::raw_fail(ID, M) }} }
#[macro_export]
macro_rules! reach { ($m:expr) => {{ const M: &str = $m; const ID: u64 = $crate::sup::fnv(M); $crate::sup::raw_reach(ID, M) }} }

pub fn assume(b: bool) { unsafe { vs_assume(b) } }
/// one of 0..n, one path each
pub fn choose(n: usize) -> usize { unsafe { vs_choose(n as u64) as usize } }
pub fn flag() -> bool { choose(2) == 1 }
/// forces a symbolic value to be concrete on each path
pub fn conc(n: usize) -> usize { unsafe { vs_conc(n as u64) as usize } }
pub fn log(v: u64) { unsafe { vs_log(v) } }
pub fn log_str(s: &str) { log(s.len() as u64); for b in s.bytes() { log(b as u64) } }

/// a set of byte values
#[derive(Clone, Copy)]
pub struct Dom(pub [u64; 4]);
impl Dom {
    pub const fn range(a: u8, b: u8) -> Dom { let mut s = [0u64; 4]; let mut i = a as usize; while i <= b as usize { s[i >> 6] |= 1 << (i & 63); i += 1 } Dom(s) }
    pub const fn of(b: &[u8]) -> Dom { let mut s = [0u64; 4]; let mut i = 0; while i < b.len() { s[(b[i] >> 6) as usize] |= 1 << (b[i] & 63); i += 1 } Dom(s) }
    pub const fn or(self, o: Dom) -> Dom { Dom([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) }
    pub const fn without(self, o: Dom) -> Dom { Dom([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]]) }
}
/// printable ASCII and space, tab, newline: every ASCII character XML 1.0 can carry unchanged
pub const TEXT: Dom = Dom::range(0x20, 0x7e).or(Dom::of(b"\t\n"));
/// printable ASCII other than white space
pub const VISIBLE: Dom = Dom::range(0x21, 0x7e);
pub const ANY: Dom = Dom::range(0, 255);
pub const LETTER: Dom = Dom::range(b'a', b'z').or(Dom::range(b'A', b'Z'));
pub const NAME: Dom = LETTER.or(Dom::range(b'0', b'9')).or(Dom::of(b"_.-"));

pub fn sbytes(n: usize, d: Dom) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { vs_sym(v.as_mut_ptr(), n, d.0.as_ptr()) } } v }
pub fn sbyte(d: Dom) -> u8 { let mut v = [0u8; 1]; unsafe { vs_sym(v.as_mut_ptr(), 1, d.0.as_ptr()) } v[0] }
/// a symbolic ASCII string of exactly n bytes
pub fn sstr(n: usize, d: Dom) -> String { unsafe { String::from_utf8_unchecked(sbytes(n, d)) } }
/// symbolic string whose first character is a symbolic two byte UTF-8 sequence
pub fn sstr_utf8(n: usize, d: Dom) -> String {
    let mut v = vec![sbyte(Dom::range(0xc3, 0xdf)), sbyte(Dom::range(0x80, 0xbf))];
    v.extend(sbytes(n, d));
    unsafe { String::from_utf8_unchecked(v) }
}
/// a symbolic character of one, two, three or four bytes (one of printable ASCII; no white space among the others)
pub fn schar(bytes: usize) -> String {
    let c = |a: u8, b: u8| sbyte(Dom::range(a, b));
    let v = match bytes {
        1 => vec![sbyte(VISIBLE)],
        2 => vec![c(0xc3, 0xdf), c(0x80, 0xbf)],
        3 => vec![c(0xe3, 0xec), c(0x81, 0xbf), c(0x80, 0xbf)],
        _ => vec![c(0xf1, 0xf3), c(0x80, 0xbf), c(0x80, 0xbf), c(0x80, 0xbf)],
    };
    unsafe { String::from_utf8_unchecked(v) }
}
/// up to n symbolic characters of any length in bytes
pub fn schars(n: usize) -> String { let mut s = String::new(); for _ in 0..n { let k = choose(5); if k == 0 { break } s.push_str(&schar(k)) } s }
/// `n` characters, all filler but for a symbolic one at the beginning, in the middle or at the end
pub fn slong(n: usize, filler: &str) -> String { let at = [0, n / 2, n - 1][choose(3)]; let mut s = String::with_capacity(n * filler.len()); for i in 0..n { if i == at { s.push_str(&sstr(1, VISIBLE)) } else { s.push_str(filler) } } s }
/// a string close to another one: with a symbolic character put in, in place of one, or one left out, at the beginning, in the middle or at the end; or twice, with a symbolic character between or not
pub fn near(s: &str, c: Dom) -> String {
    let b = s.as_bytes();
    let k = choose(11);
    if k == 9 { return format!("{}{}", s, s) }
    if k == 10 { let mut v = b.to_vec(); v.push(sbyte(c)); v.extend_from_slice(b); return unsafe { String::from_utf8_unchecked(v) } }
    let at = |n: usize| [0, n / 2, n][k % 3];
    let mut v = b.to_vec();
    if k < 3 { v.insert(at(b.len()), sbyte(c)) } else if b.len() == 0 { return String::new() } else if k < 6 { v[at(b.len() - 1)] = sbyte(c) } else { v.remove(at(b.len() - 1)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// strings as they occur in documents, with parts that programs tend to take for something else
pub const REAL: [&str; 6] = ["http://www.a.org/b/c.foliaset.xml#d.1", "doc-1.p.02.s.3.w.4_ext.tar.xml", "N(soort,ev,basis)|LET() - 007.50", "&lt;b&gt;&amp;&#65;&#x41;]]><!--", "User@host:C:\\x.ttl#y?z=%20&q=+1e5", "2020-01-02T03:04:05.000+01:00 true"];
/// a string close to another one: as near, but at any position
pub fn near_any(s: &str, c: Dom) -> String {
    let mut v = s.as_bytes().to_vec();
    let at = choose(v.len() + 1);
    match choose(3) { 0 => v.insert(at, sbyte(c)), 1 if at < v.len() => v[at] = sbyte(c), 2 if at < v.len() => { v.remove(at); } _ => assume(false) }
    unsafe { String::from_utf8_unchecked(v) }
}
/// lower and upper case letters and a few others
pub fn sample(n: usize) -> String { "aB.c-D_e0F:gH/i9jKlMnOpQrStUvWxYzABCDEFGHIJKLMNO".chars().cycle().take(n).collect() }
pub const LENGTHS: [usize; 12] = [8, 15, 16, 17, 31, 33, 64, 100, 127, 128, 255, 257];
pub const LONG_LENGTHS: [usize; 7] = [500, 512, 1000, 1025, 4096, 5000, 66000];
/// a symbolic index below n, not forked on
pub fn index(n: usize) -> usize { sbyte(Dom::range(0, (n - 1) as u8)) as usize }
pub fn sbool() -> bool { sbyte(Dom::range(0, 1)) != 0 }

pub fn all_types() -> Vec<ElementType> { ElementType::iter().collect() }
pub fn all_annotypes() -> Vec<AnnotationType> { AnnotationType::iter().collect() }
pub fn all_groups() -> Vec<ElementGroup> { ElementGroup::iter().collect() }

pub fn new_doc() -> Document { match Document::new("doc", DocumentProperties::default()) { Ok(d) => d, Err(_) => fail!("a new document can be made") } }
pub fn reparse(xml: &[u8]) -> Document {
    let s = unsafe { std::str::from_utf8_unchecked(xml) };
    match Document::from_str(s, DocumentProperties::default()) { Ok(d) => d, Err(_) => fail!("a serialised document parses again") }
}
pub fn xml_of(d: &Document) -> Vec<u8> { match d.xml(0, 0) { Ok(x) => x, Err(_) => fail!("a document can be serialised") } }
pub fn el<'a>(d: &'a Document, k: ElementKey) -> Element<'a> { match d.get_element(k) { Some(e) => e, None => fail!("an element that was added can be retrieved by its key") } }
pub fn data_of(d: &Document, k: ElementKey) -> Vec<&DataType> {
    let e: Element = el(d, k);
    let mut v = vec![];
    // the public accessors of ElementData
    let ed: &ElementData = unsafe { &*(ReadElement::elementdata(&e) as *const ElementData) };
    for i in 0..ed.len() { if let Some(x) = ed.get_data_at(i) { v.push(x) } }
    v
}
pub fn child_keys(d: &Document, k: ElementKey) -> Vec<ElementKey> { data_of(d, k).iter().filter_map(|x| if let DataType::Element(k) = x { Some(*k) } else { None }).collect() }

/// compares two optional strings without assuming anything
pub fn opt_eq(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a == b, _ => false } }

/// Asserts that the trees under ka and kb are the same as far as serialisation is concerned.
pub fn same_tree(a: &Document, ka: ElementKey, b: &Document, kb: ElementKey) {
    let (x, y) = (el(a, ka), el(b, kb));
    check!(x.elementtype() == y.elementtype(), "round trip: element type is kept");
    check!(opt_eq(x.id(), y.id()), "round trip: identifier is kept");
    check!(opt_eq(x.set(), y.set()), "round trip: set is kept");
    check!(opt_eq(x.class(), y.class()), "round trip: class is kept");
    check!(opt_eq(x.subset(), y.subset()), "round trip: subset is kept");
    // an element without a processor cannot be told apart, in XML, from one with the sole processor of its declaration
    let sole = x.processor().is_none() && y.processor_key().is_some() && match y.get_declaration() { Some(d) => d.processors.len() == 1 && Some(d.processors[0]) == y.processor_key(), None => false };
    check!(sole || opt_eq(x.processor(), y.processor()), "round trip: processor is kept");
    // the remaining attributes, in any order
    let plain = |e: &Element| -> Vec<Attribute> { e.attribs().iter().filter(|t| !t.decodable() && !t.encodable() && **t != Attribute::Ignore).cloned().collect() };
    let (p, q) = (plain(&x), plain(&y));
    check!(p.len() == q.len(), "round trip: no attribute is lost or invented");
    for t in p.iter() {
        let mut same = false;
        for u in q.iter() { if u.sametype(t) { same = u == t; break } }
        check!(same, "round trip: attribute value is kept");
    }
    let keep = |d: &&DataType| !matches!(**d, DataType::SpanReference(_));
    let (m, n): (Vec<&DataType>, Vec<&DataType>) = (data_of(a, ka).into_iter().filter(keep).collect(), data_of(b, kb).into_iter().filter(keep).collect());
    check!(m.len() == n.len(), "round trip: same number of data items");
    for (s, t) in m.iter().zip(n.iter()) {
        match (s, t) {
            (DataType::Text(s), DataType::Text(t)) => check!(s == t, "round trip: text is kept character for character"),
            (DataType::Comment(s), DataType::Comment(t)) => check!(s == t, "round trip: comment is kept character for character"),
            (DataType::Element(s), DataType::Element(t)) => same_tree(a, *s, b, *t),
            _ => fail!("round trip: kind and order of data items is kept"),
        }
    }
}
/// the whole round trip of a document
pub fn round_trip(d: &Document) -> Document {
    let x = xml_of(d);
    let e = reparse(&x);
    same_tree(d, 0, &e, 0);
    let y = xml_of(&e);
    check!(x == y, "round trip: serialising the re-parsed document gives the same XML");
    log(x.len() as u64);
    e
}

pub fn must(r: Result<ElementKey, FoliaError>) -> ElementKey { match r { Ok(k) => k, Err(_) => fail!("an element the document can hold is added") } }
pub fn id(s: &str) -> Attribute { Attribute::Id(s.to_string()) }
pub fn set(s: &str) -> Attribute { Attribute::Set(s.to_string()) }
pub fn class(s: &str) -> Attribute { Attribute::Class(s.to_string()) }
pub fn elem(t: ElementType) -> ElementData { ElementData::new(t) }
pub fn parse(xml: &str) -> Result<Document, FoliaError> { Document::from_str(xml, DocumentProperties::default()) }
/// puts bytes in a file (a modelled one, natively a scratch file) and gives its path
pub fn file(b: &[u8]) -> String { let mut p = vec![0u8; 200]; let n = unsafe { vs_file(b.as_ptr(), b.len(), p.as_mut_ptr(), p.len()) }; p.truncate(n); unsafe { String::from_utf8_unchecked(p) } }
/// parses without the declarations the default properties add
pub fn parse_plain(xml: &str) -> Result<Document, FoliaError> { Document::from_str(xml, DocumentProperties { declare: vec![], ..DocumentProperties::default() }) }
/// the same from a file
pub fn parse_file(xml: &str) -> Result<Document, FoliaError> { Document::from_file(&file(xml.as_bytes()), DocumentProperties { declare: vec![], ..DocumentProperties::default() }) }
pub fn parse_either(xml: &str, from_file: bool) -> Result<Document, FoliaError> { if from_file { parse_file(xml) } else { parse_plain(xml) } }
/// a whole FoLiA document around a body
pub fn folia_xml(declarations: &str, body: &str) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.5.1\" generator=\"x\"><metadata type=\"native\"><annotations>");
    s.push_str(declarations);
    s.push_str("</annotations></metadata><text xml:id=\"doc.text\">");
    s.push_str(body);
    s.push_str("</text></FoLiA>");
    s
}
pub fn nelements(d: &Document) -> usize { Store::<ElementData, ElementKey>::len(d) }
/// every element's parent lists it exactly once and nobody else does; every listed child names its parent; no element is its own ancestor
pub fn consistent(d: &Document) {
    let n = nelements(d);
    let mut listed = vec![usize::MAX; n];
    for k in 0..n {
        let e = el(d, k as ElementKey);
        check!(e.key() == Some(k as ElementKey), "an element knows its own key");
        for c in child_keys(d, k as ElementKey) {
            check!((c as usize) < n, "every child listed exists");
            check!(listed[c as usize] == usize::MAX, "an element is among the children of one parent, once");
            listed[c as usize] = k;
        }
    }
    for k in 0..n {
        let p = el(d, k as ElementKey).parent_key();
        match p {
            Some(p) => check!(listed[k] == p as usize, "an element with a parent is among that parent's children"),
            None => check!(listed[k] == usize::MAX, "a child names the element that lists it as its parent"),
        }
        let (mut q, mut steps) = (p, 0);
        while let Some(x) = q { steps += 1; if steps > n { fail!("no element is its own ancestor") } q = el(d, x).parent_key(); }
    }
}
/// everything observable about the elements of a document, to show that a refused operation changed nothing
#[derive(PartialEq)]
pub struct Snap { pub n: usize, pub decls: usize, pub procs: usize, pub items: Vec<(ElementType, Option<ElementKey>, Vec<DataType>, Vec<Attribute>)> }
pub fn snap(d: &Document) -> Snap {
    let n = nelements(d);
    Snap { n, decls: Store::<Declaration, DecKey>::len(d), procs: Store::<Processor, ProcKey>::len(d), items: (0..n).map(|k| { let e = el(d, k as ElementKey); (e.elementtype(), e.parent_key(), data_of(d, k as ElementKey).into_iter().cloned().collect(), e.attribs().clone()) }).collect() }
}
/// the stored data of an element, for writing
pub fn edit(d: &mut Document, k: ElementKey) -> &mut ElementData { match Store::<ElementData, ElementKey>::get_mut(d, k) { Some(e) => e, None => fail!("an element that was added can be retrieved by its key") } }
