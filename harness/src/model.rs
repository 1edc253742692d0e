//! Reference model of declarations, sets, classes and provenance, by strings only
use crate::sup::*;
use crate::{check, fail};

pub struct MDec { pub ty: AnnotationType, pub set: Option<String>, pub procs: Vec<String> }
#[derive(Clone, Default)]
pub struct MEl { pub key: ElementKey, pub set: Option<String>, pub class: Option<String>, pub subset: Option<String>, pub proc: Option<String>, pub dec: Option<usize> }
#[derive(Default)]
pub struct Model { pub decs: Vec<MDec>, pub procs: Vec<String>, pub active: Option<String>, pub els: Vec<MEl> }

fn same(a: &Option<String>, b: Option<&str>) -> bool { opt_eq(a.as_ref().map(|s| s.as_str()), b) }
impl Model {
    /// the declaration for an annotation type and set, made if there is none
    pub fn declare(&mut self, ty: AnnotationType, set: Option<&str>) -> usize {
        for (i, d) in self.decs.iter().enumerate() { if d.ty == ty && same(&d.set, set) { return i } }
        let of: Vec<usize> = (0..self.decs.len()).filter(|i| self.decs[*i].ty == ty).collect();
        let i = if set.is_none() && of.len() == 1 { of[0] } else { self.decs.push(MDec { ty, set: set.map(|s| s.to_string()), procs: vec![] }); self.decs.len() - 1 };
        if let Some(a) = self.active.clone() { self.used(i, &a) }
        i
    }
    fn used(&mut self, dec: usize, p: &str) { if !self.decs[dec].procs.iter().any(|q| q == p) { self.decs[dec].procs.push(p.to_string()) } }
    /// an element of an annotation type with what it was given
    pub fn element(&mut self, ty: AnnotationType, set: Option<&str>, class: Option<&str>, proc: Option<&str>) -> MEl {
        if set.is_none() && class.is_none() && proc.is_none() { return MEl::default() }
        let i = self.declare(ty, set);
        let p = self.attribute(i, proc);
        MEl { key: 0, set: self.decs[i].set.clone(), class: class.map(|s| s.to_string()), subset: None, proc: p, dec: Some(i) }
    }
    fn attribute(&mut self, i: usize, proc: Option<&str>) -> Option<String> {
        let known = match proc { Some(p) => self.procs.iter().any(|q| q == p), None => false };
        let sole = if self.decs[i].procs.len() == 1 { Some(self.decs[i].procs[0].clone()) } else { None };
        let p = if known { proc.map(|s| s.to_string()) } else if sole.is_some() { sole } else { self.active.clone() };
        if let Some(p) = &p { let p = p.clone(); self.used(i, &p) }
        p
    }
    pub fn push(&mut self, mut e: MEl, key: ElementKey) { e.key = key; self.els.push(e) }
    /// every element reads back as modelled
    pub fn agree(&self, d: &Document) {
        for e in self.els.iter() {
            let x = el(d, e.key);
            check!(same(&e.set, x.set()), "an element reads back the set it was given, or its declaration's");
            check!(same(&e.class, x.class()), "an element reads back the class it was given");
            check!(same(&e.subset, x.subset()), "an element reads back the subset it was given");
            check!(same(&e.proc, x.processor()), "an element is attributed to the processor it names, or else its declaration's sole one, or else the active one");
        }
    }
    pub fn agree_declarations(&self, d: &Document) {
        let ds: Vec<&Declaration> = d.declarations().filter_map(|x| x.as_ref().map(|b| &**b)).collect();
        check!(ds.len() == self.decs.len(), "one declaration per annotation type and set");
        for (x, y) in ds.iter().zip(self.decs.iter()) {
            check!(x.annotationtype == y.ty && same(&y.set, x.set.as_ref().map(|s| s.as_str())), "declarations are those asked for, in order");
            check!(x.processors.len() == y.procs.len(), "a declaration lists every processor used for its elements once");
            for (p, q) in x.processors.iter().zip(y.procs.iter()) { match d.get_processor(*p) { Some(p) => check!(p.id == *q, "a declaration lists every processor used for its elements once"), None => fail!("a declaration's processors exist") } }
            let key = match x.key { Some(k) => k, None => fail!("a declaration knows its key") };
            check!(d.get_declaration_key_by_id(&Declaration::index_id(y.ty, &y.set.as_ref().map(|s| s.as_str()))) == Some(key), "a declaration is found by its annotation type and set");
        }
    }
    pub fn default_set(&self, ty: AnnotationType) -> Option<&str> {
        let of: Vec<&MDec> = self.decs.iter().filter(|d| d.ty == ty).collect();
        if of.len() == 1 { of[0].set.as_ref().map(|s| s.as_str()) } else { None }
    }
}
pub fn maybe(n: usize, d: Dom) -> Option<String> { if flag() { Some(sstr(n, d)) } else { None } }
pub fn with(mut e: ElementData, set: &Option<String>, class: &Option<String>, proc: &Option<String>) -> ElementData {
    if let Some(s) = set { e = e.with_attrib(Attribute::Set(s.clone())) }
    if let Some(s) = class { e = e.with_attrib(Attribute::Class(s.clone())) }
    if let Some(s) = proc { e = e.with_attrib(Attribute::Processor(s.clone())) }
    e
}
pub fn sref(s: &Option<String>) -> Option<&str> { s.as_ref().map(|s| s.as_str()) }
pub fn feat(set: &Option<String>, subset: &str, class: &str) -> ElementData {
    let e = elem(ElementType::Feature).with_attrib(Attribute::Subset(subset.to_string())).with_attrib(Attribute::Class(class.to_string()));
    match set { Some(s) => e.with_attrib(Attribute::Set(s.clone())), None => e }
}
/// a document without default declarations, with a sentence of one word
pub fn bare() -> Document { match Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }) { Ok(d) => d, Err(_) => fail!("a new document can be made") } }
