//! Walks a program and visits every place that can fail: contents, names and selectors.

use crate::model::*;
use std::rc::Rc;

pub enum Site<'a> {
    Content(&'a mut Content),
    Name(&'a mut Name),
    Sel(&'a mut Sel),
}

type F<'f> = &'f mut dyn FnMut(Site);

pub fn sprog(p: &mut SProg, f: F) {
    for op in p.iter_mut() {
        sop(op, f);
    }
}

fn rs(p: &mut Rc<SProg>, f: F) { sprog(Rc::make_mut(p), f) }
fn re(p: &mut Rc<EProg>, f: F) { eprog(Rc::make_mut(p), f) }
fn ro(p: &mut Rc<Vec<EOp>>, f: F) {
    for op in Rc::make_mut(p).iter_mut() {
        eop(op, f);
    }
}

pub fn sop(op: &mut SOp, f: F) {
    match op {
        SOp::Remove | SOp::IntoBoxed => {}
        SOp::Prepend(c) | SOp::Append(c) | SOp::Replace(c) => f(Site::Content(c)),
        SOp::Select { sel, body, .. } => {
            f(Site::Sel(sel));
            re(body, f);
        }
        SOp::Repeat(_, p) | SOp::Apply(p) | SOp::ApplyIf(_, p) | SOp::ApplyBoxed(p) | SOp::ApplyTemplate(p) => {
            rs(p, f)
        }
        SOp::RepeatOrElse(_, p, q)
        | SOp::ApplyIfElse(_, p, q)
        | SOp::ApplyOption(_, p, q)
        | SOp::ApplyResult(_, p, q) => {
            rs(p, f);
            rs(q, f);
        }
    }
}

pub fn eop(op: &mut EOp, f: F) {
    match op {
        EOp::AddAttr(n, _)
        | EOp::AddAttrValue(n, _)
        | EOp::AddEmpty(n)
        | EOp::AddTo(n, _, _)
        | EOp::ReplaceIfExists(n, _)
        | EOp::SetAttr(n, _)
        | EOp::SetAttrValue(n, _)
        | EOp::SetEmpty(n)
        | EOp::RemoveAttr(n)
        | EOp::AddClass(n)
        | EOp::RemoveClass(n)
        | EOp::SetId(n) => f(Site::Name(n)),
        EOp::RemoveId | EOp::RemoveContents | EOp::IntoBoxedElement => {}
        EOp::PrependContents(c) | EOp::AppendContents(c) | EOp::ReplaceContents(c) => f(Site::Content(c)),
        EOp::SubSelectContents(p) | EOp::RepeatContents(_, p) => rs(p, f),
        EOp::SubSelect { sel, body, .. } => {
            f(Site::Sel(sel));
            re(body, f);
        }
        EOp::Apply(p) | EOp::ApplyIf(_, p) | EOp::ApplyBoxedElement(p) => ro(p, f),
        EOp::ApplyIfElse(_, p, q) | EOp::ApplyOption(_, p, q) | EOp::ApplyResult(_, p, q) => {
            ro(p, f);
            ro(q, f);
        }
    }
}

pub fn eprog(p: &mut EProg, f: F) {
    for op in p.ops.iter_mut() {
        eop(op, f);
    }
    match &mut p.tail {
        ETail::None => {}
        ETail::Stream(op) => sop(op, f),
        ETail::Repeat(_, p) | ETail::Apply(p) | ETail::ApplyIf(_, p) => re(p, f),
        ETail::RepeatOrElse(_, p, q) => {
            re(p, f);
            re(q, f);
        }
        ETail::RepeatContentsOrElse(_, p, q) => {
            rs(p, f);
            re(q, f);
        }
        ETail::ApplyBoxed(p) => rs(p, f),
    }
    sprog(&mut p.rest, f);
}

pub fn count(p: &SProg) -> usize {
    let mut p = p.clone();
    let mut n = 0;
    sprog(&mut p, &mut |_| n += 1);
    n
}
