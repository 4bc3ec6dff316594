//! Values of the reference model: an independent, deliberately simple restatement of Cordy's documented value semantics.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BinaryHeap, VecDeque};
use std::rc::Rc;
use rug::Rational;

use super::interp::FnV;

pub const MIN_INT: i64 = -(1 << 62);
pub const MAX_INT: i64 = (1 << 62) - 1;

thread_local! {
    /// Set when the reference reached behaviour that the language leaves open: the case cannot be judged.
    pub static UNSPEC: Cell<Option<&'static str>> = Cell::new(None);
    pub static DEPTH: Cell<usize> = Cell::new(0);
    /// Remaining work of structural operations, which is exponential on collections that contain themselves several times
    pub static WORK: Cell<u64> = Cell::new(0);
}

pub fn work() -> bool {
    WORK.with(|w| { let n = w.get(); if n == 0 { unspec("limit"); false } else { w.set(n - 1); true } })
}
pub fn begin() { UNSPEC.with(|u| u.set(None)); DEPTH.with(|u| u.set(0)); WORK.with(|u| u.set(4_000_000)); }
/// The result of this program can not be judged any more, so structural operations need not be exact, only end soon
fn spoiled() -> bool { UNSPEC.with(|u| u.get().is_some()) }
pub fn unspec(why: &'static str) { UNSPEC.with(|u| if u.get().is_none() { u.set(Some(why)) }) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { A0, A01, A1, A12, A13, A2, A3, Unique, UniqueNE, Iter, IterNE, Invalid }

#[derive(Clone)]
pub enum V {
    Nil, Bool(bool), Int(i64), Cplx(i64, i64), Rat(Rc<Rational>), Str(Rc<str>),
    List(Rc<RefCell<VecDeque<V>>>), Vector(Rc<RefCell<Vec<V>>>),
    Set(Rc<RefCell<SetV>>), Dict(Rc<RefCell<DictV>>), Heap(Rc<RefCell<BinaryHeap<HV>>>),
    Struct(Rc<StructV>), Type(Rc<TypeV>),
    Range(i64, i64, i64), Enum(Rc<V>), Slice(Rc<[V; 3]>),
    Fn(Rc<FnV>), Native(&'static NInfo), Partial(Rc<(V, Vec<V>)>), PNative(&'static NInfo, Rc<Vec<V>>),
    Field(Rc<str>), Memo(Rc<MemoV>),
}

pub struct NInfo { pub name: &'static str, pub shown: &'static str, pub args: &'static str, pub kind: Kind, pub hidden: bool }
pub struct MemoV { pub f: V, pub cache: RefCell<Vec<(Vec<V>, V)>> }
/// element plus a frozen copy of it as inserted, to notice keys mutated after insertion
#[derive(Default)]
pub struct SetV { pub e: Vec<V>, pub frozen: Vec<Option<V>> }
#[derive(Default)]
pub struct DictV { pub keys: SetV, pub vals: Vec<V>, pub default: Option<V> }
pub struct StructV { pub ty: Rc<TypeV>, pub f: RefCell<Vec<V>> }
pub struct TypeV {
    pub id: usize, pub name: Rc<str>, pub fields: Vec<Rc<str>>, pub module: bool,
    /// name, function, is instance method
    pub methods: RefCell<Vec<(Rc<str>, V, bool)>>,
}
pub struct HV(pub V);
impl PartialEq for HV { fn eq(&self, o: &HV) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for HV {}
impl PartialOrd for HV { fn partial_cmp(&self, o: &HV) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for HV { fn cmp(&self, o: &HV) -> Ordering { cmp(&o.0, &self.0) } }

pub fn wrap(i: i64) -> i64 { (i << 1) >> 1 }
pub fn int(i: i64) -> V { V::Int(wrap(i)) }
pub fn s(x: &str) -> V { V::Str(Rc::from(x)) }
pub fn list(v: impl IntoIterator<Item = V>) -> V { V::List(Rc::new(RefCell::new(v.into_iter().collect()))) }
pub fn vector(v: Vec<V>) -> V { V::Vector(Rc::new(RefCell::new(v))) }
pub fn cplx(re: i64, im: i64) -> V { if im == 0 { int(re) } else { V::Cplx(re, im) } }
pub fn rat(r: Rational) -> V { V::Rat(Rc::new(r)) }

pub fn has_identity(v: &V) -> bool { matches!(v, V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) | V::Heap(_) | V::Struct(_)) }

pub fn ptr(v: &V) -> usize {
    match v {
        V::List(p) => Rc::as_ptr(p) as *const u8 as usize,
        V::Vector(p) => Rc::as_ptr(p) as *const u8 as usize,
        V::Set(p) => Rc::as_ptr(p) as *const u8 as usize,
        V::Dict(p) => Rc::as_ptr(p) as *const u8 as usize,
        V::Heap(p) => Rc::as_ptr(p) as *const u8 as usize,
        V::Struct(p) => Rc::as_ptr(p) as *const u8 as usize,
        _ => 0,
    }
}

fn freeze(v: &V, depth: usize) -> V {
    if depth > 40 || depth > 6 && spoiled() { unspec("deep key"); return V::Nil }
    match v {
        V::List(l) => list(l.borrow().iter().map(|x| freeze(x, depth + 1)).collect::<Vec<_>>()),
        V::Vector(l) => vector(l.borrow().iter().map(|x| freeze(x, depth + 1)).collect()),
        V::Set(l) => { let l = l.borrow(); V::Set(Rc::new(RefCell::new(SetV { e: l.e.iter().map(|x| freeze(x, depth + 1)).collect(), frozen: l.e.iter().map(|_| None).collect() }))) }
        V::Dict(d) => {
            let d = d.borrow();
            V::Dict(Rc::new(RefCell::new(DictV {
                keys: SetV { e: d.keys.e.iter().map(|x| freeze(x, depth + 1)).collect(), frozen: d.keys.e.iter().map(|_| None).collect() },
                vals: d.vals.iter().map(|x| freeze(x, depth + 1)).collect(), default: None })))
        }
        V::Heap(h) => V::Heap(Rc::new(RefCell::new(h.borrow().iter().map(|x| HV(freeze(&x.0, depth + 1))).collect()))),
        V::Struct(x) => V::Struct(Rc::new(StructV { ty: x.ty.clone(), f: RefCell::new(x.f.borrow().iter().map(|y| freeze(y, depth + 1)).collect()) })),
        V::Enum(x) => V::Enum(Rc::new(freeze(x, depth + 1))),
        _ => v.clone(),
    }
}

impl SetV {
    fn frozen_of(v: &V) -> Option<V> { if has_identity(v) || matches!(v, V::Enum(_)) { Some(freeze(v, 0)) } else { None } }
    fn check(&self) {
        for (e, f) in self.e.iter().zip(&self.frozen) {
            if let Some(f) = f { if !eq(e, f) { unspec("key mutated after insertion") } }
        }
    }
    pub fn find(&self, v: &V) -> Option<usize> { self.check(); self.e.iter().position(|x| eq(x, v)) }
    /// Returns (index, newly inserted)
    pub fn insert(&mut self, v: V) -> (usize, bool) {
        match self.find(&v) {
            Some(i) => (i, false),
            None => { self.frozen.push(Self::frozen_of(&v)); self.e.push(v); (self.e.len() - 1, true) }
        }
    }
    pub fn remove(&mut self, i: usize) { self.e.remove(i); self.frozen.remove(i); }
    pub fn clear(&mut self) { self.e.clear(); self.frozen.clear(); }
    pub fn from(it: impl IntoIterator<Item = V>) -> SetV { let mut r = SetV::default(); for v in it { r.insert(v); } r }
}
impl DictV {
    pub fn get(&self, k: &V) -> Option<V> { self.keys.find(k).map(|i| self.vals[i].clone()) }
    pub fn insert(&mut self, k: V, v: V) { let (i, new) = self.keys.insert(k); if new { self.vals.push(v) } else { self.vals[i] = v } }
    pub fn remove(&mut self, i: usize) { self.keys.remove(i); self.vals.remove(i); }
}
pub fn set(it: impl IntoIterator<Item = V>) -> V { V::Set(Rc::new(RefCell::new(SetV::from(it)))) }
pub fn dict(it: impl IntoIterator<Item = (V, V)>) -> V { let mut d = DictV::default(); for (k, v) in it { d.insert(k, v) } V::Dict(Rc::new(RefCell::new(d))) }
pub fn pair(a: V, b: V) -> V { vector(vec![a, b]) }

pub struct Guard;
impl Guard {
    pub fn enter() -> Option<Guard> {
        if !work() { return None }
        DEPTH.with(|d| { d.set(d.get() + 1); if d.get() > 200 || d.get() > 8 && spoiled() { unspec("recursion in a structural operation"); None } else { Some(()) } }).map(|_| Guard).or_else(|| { DEPTH.with(|d| d.set(d.get() - 1)); None })
    }
}
impl Drop for Guard { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)) } }

pub fn to_rat(v: &V) -> Option<Rational> {
    match v { V::Bool(b) => Some(Rational::from(*b as i64)), V::Int(i) => Some(Rational::from(*i)), V::Rat(r) => Some((**r).clone()), _ => None }
}

pub fn eq(a: &V, b: &V) -> bool {
    let Some(_g) = Guard::enter() else { return false };
    match (a, b) {
        (V::Nil, V::Nil) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Int(x), V::Rat(y)) | (V::Rat(y), V::Int(x)) => **y == Rational::from(*x),
        (V::Rat(x), V::Rat(y)) => x == y,
        (V::Cplx(x, i), V::Cplx(y, j)) => x == y && i == j,
        (V::Str(x), V::Str(y)) => x == y,
        (V::List(x), V::List(y)) => { let (x, y) = (x.borrow(), y.borrow()); x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)) }
        (V::Vector(x), V::Vector(y)) => { let (x, y) = (x.borrow(), y.borrow()); x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)) }
        (V::Set(x), V::Set(y)) => { let (x, y) = (x.borrow(), y.borrow()); x.check(); y.check(); x.e.len() == y.e.len() && x.e.iter().all(|p| y.e.iter().any(|q| eq(p, q))) }
        (V::Dict(x), V::Dict(y)) => {
            let (x, y) = (x.borrow(), y.borrow());
            x.keys.check(); y.keys.check();
            x.vals.len() == y.vals.len() && (0..x.vals.len()).all(|i| y.keys.e.iter().position(|q| eq(&x.keys.e[i], q)).map_or(false, |j| eq(&x.vals[i], &y.vals[j])))
        }
        (V::Heap(x), V::Heap(y)) => {
            let (p, q) = (x.borrow(), y.borrow());
            if p.len() != q.len() { return false }
            if Rc::ptr_eq(x, y) { return true }
            if p.len() > 2 { unspec("heap equality") }
            heap_items(&p).iter().zip(&heap_items(&q)).all(|(m, n)| eq(m, n))
        }
        (V::Struct(x), V::Struct(y)) => x.ty.id == y.ty.id && { let (x, y) = (x.f.borrow(), y.f.borrow()); x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)) },
        (V::Type(x), V::Type(y)) => x.id == y.id,
        (V::Range(a, b, c), V::Range(d, e, f)) => (a, b, c) == (d, e, f),
        (V::Enum(x), V::Enum(y)) => eq(x, y),
        (V::Slice(x), V::Slice(y)) => (0..3).all(|i| eq(&x[i], &y[i])),
        (V::Native(x), V::Native(y)) => x.name == y.name,
        (V::Field(x), V::Field(y)) => x == y,
        (V::Fn(x), V::Fn(y)) => { if Rc::ptr_eq(&x.def, &y.def) && !Rc::ptr_eq(x, y) { unspec("closure equality") } Rc::ptr_eq(&x.def, &y.def) }
        (V::Partial(x), V::Partial(y)) => eq(&x.0, &y.0) && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| eq(p, q)),
        (V::PNative(n, x), V::PNative(m, y)) => n.name == m.name && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)),
        (V::Memo(x), V::Memo(y)) => { if !Rc::ptr_eq(x, y) { unspec("memoized equality") } true }
        _ => false,
    }
}

/// Documented order: nil, bool, int, complex and rational form one order; sequences are lexicographic; unrelated types are unordered ("equal").
pub fn cmp(a: &V, b: &V) -> Ordering {
    let Some(_g) = Guard::enter() else { return Ordering::Equal };
    fn num(v: &V) -> Option<(i64, Rational, u8)> {
        Some(match v {
            V::Nil => (0, Rational::new(), 0),
            V::Bool(b) => (0, Rational::from(*b as i64), 1),
            V::Int(i) => (0, Rational::from(*i), 2),
            V::Rat(r) => (0, (**r).clone(), 2),
            V::Cplx(re, im) => (*im, Rational::from(*re), 2),
            _ => return None
        })
    }
    fn seq<'a>(x: &[V], y: &[V]) -> Ordering {
        for (p, q) in x.iter().zip(y) { match cmp(p, q) { Ordering::Equal => {}, o => return o } }
        x.len().cmp(&y.len())
    }
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return x.0.cmp(&y.0).then_with(|| x.1.cmp(&y.1)).then(x.2.cmp(&y.2));
    }
    match (a, b) {
        (V::Str(x), V::Str(y)) => x.cmp(y),
        (V::List(x), V::List(y)) => { let (x, y): (Vec<V>, Vec<V>) = (x.borrow().iter().cloned().collect(), y.borrow().iter().cloned().collect()); seq(&x, &y) }
        (V::Vector(x), V::Vector(y)) => seq(&x.borrow(), &y.borrow()),
        (V::Struct(x), V::Struct(y)) => {
            if x.ty.id != y.ty.id { unspec("order of different struct types") }
            seq(&x.f.borrow(), &y.f.borrow())
        }
        // the order of sets and dicts is not documented, except that it agrees with equality: compare the sorted elements
        (V::Set(x), V::Set(y)) => { let (p, q) = (x.borrow().e.clone(), y.borrow().e.clone()); seq(&sorted(p), &sorted(q)) }
        (V::Dict(x), V::Dict(y)) => {
            let f = |d: &DictV| { let k = sorted(d.keys.e.clone()); k.into_iter().flat_map(|k| { let v = d.get(&k).unwrap_or(V::Nil); [k, v] }).collect::<Vec<V>>() };
            let (p, q) = (f(&x.borrow()), f(&y.borrow()));
            seq(&p, &q)
        }
        (V::Heap(x), V::Heap(y)) => {
            unspec("order of heaps");
            match (x.borrow().peek(), y.borrow().peek()) { (None, None) => Ordering::Equal, (None, _) => Ordering::Less, (_, None) => Ordering::Greater, (Some(p), Some(q)) => cmp(&p.0, &q.0) }
        }
        (V::Range(..), V::Range(..)) => { unspec("order of ranges"); Ordering::Equal }
        (V::Enum(x), V::Enum(y)) => cmp(x, y),
        _ => Ordering::Equal,
    }
}

fn sorted(mut v: Vec<V>) -> Vec<V> { super::natives::mixed(&v); v.sort_by(cmp); v }
/// The elements of a heap in iteration order, which is only known for the first two
pub fn heap_items(h: &std::collections::BinaryHeap<HV>) -> Vec<V> {
    if h.len() > 2 { unspec("heap order") }
    let mut v: Vec<V> = h.iter().map(|x| x.0.clone()).collect();
    v.sort_by(cmp);
    if v.len() == 2 && cmp(&v[0], &v[1]).is_eq() && (type_str(&v[0]) != type_str(&v[1]) || has_identity(&v[0]) || !eq(&v[0], &v[1])) { unspec("heap order") }
    v
}

pub fn truthy(v: &V) -> bool {
    match v {
        V::Nil => false, V::Bool(b) => *b, V::Int(i) => *i != 0, V::Str(s) => !s.is_empty(),
        V::List(l) => !l.borrow().is_empty(), V::Vector(l) => !l.borrow().is_empty(),
        V::Set(l) => !l.borrow().e.is_empty(), V::Dict(l) => !l.borrow().vals.is_empty(), V::Heap(l) => !l.borrow().is_empty(),
        V::Range(_, _, st) => *st != 0, V::Enum(x) => truthy(x),
        _ => true,
    }
}

pub fn type_str(v: &V) -> &'static str {
    match v {
        V::Nil => "nil", V::Bool(_) => "bool", V::Int(_) => "int", V::Cplx(..) => "complex", V::Rat(_) => "rational", V::Str(_) => "str",
        V::List(_) => "list", V::Vector(_) => "vector", V::Set(_) => "set", V::Dict(_) => "dict", V::Heap(_) => "heap",
        V::Struct(_) => "struct", V::Type(_) => "struct type", V::Range(..) => "range", V::Enum(_) => "enumerate", V::Slice(_) => "slice",
        V::Fn(_) => "function", V::Native(_) => "native function", V::Partial(_) => "partial function", V::PNative(..) => "partial native function",
        V::Field(_) => "get field", V::Memo(_) => "memoized",
    }
}

pub fn escape(x: &str) -> String {
    let mut r = String::from("'");
    for c in x.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), '\r' => r.push_str("\\r"),
            c => r.push(c),
        }
    }
    r.push('\'');
    r
}

pub fn to_str(v: &V) -> String {
    match v {
        V::Str(x) => x.to_string(),
        V::Fn(f) => f.def.name.to_string(),
        V::Partial(p) => to_str(&p.0),
        V::Native(n) | V::PNative(n, _) => n.shown.to_string(),
        _ => repr(v),
    }
}
pub fn repr(v: &V) -> String { repr_(v, &mut Vec::new()) }

fn repr_(v: &V, rc: &mut Vec<usize>) -> String {
    fn join(it: Vec<V>, rc: &mut Vec<usize>, a: &str, b: &str) -> String {
        format!("{a}{}{b}", it.iter().map(|x| repr_(x, rc)).collect::<Vec<_>>().join(", "))
    }
    let id = ptr(v);
    if id != 0 && rc.contains(&id) {
        return match v {
            V::List(_) | V::Heap(_) => "[...]".into(), V::Set(_) | V::Dict(_) => "{...}".into(), V::Vector(_) => "(...)".into(),
            V::Struct(x) => format!("{}(...)", x.ty.name), _ => unreachable!()
        }
    }
    if !work() { return String::new() }
    if rc.len() > 300 { unspec("deep repr"); return String::new() }
    if id != 0 { rc.push(id) }
    let r = match v {
        V::Nil => "nil".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Cplx(re, im) => if *re == 0 { format!("{im}i") } else { format!("{re} {} {}i", if *im < 0 { '-' } else { '+' }, im.unsigned_abs()) },
        V::Rat(r) => format!("{} / {}", r.numer(), r.denom()),
        V::Str(x) => escape(x),
        V::List(x) => join(x.borrow().iter().cloned().collect(), rc, "[", "]"),
        V::Vector(x) => { let x = x.borrow().clone(); join(x, rc, "(", ")") }
        V::Set(x) => { let x = x.borrow().e.clone(); join(x, rc, "{", "}") }
        V::Dict(d) => {
            let d = d.borrow();
            format!("{{{}}}", (0..d.vals.len()).map(|i| format!("{}: {}", repr_(&d.keys.e[i], rc), repr_(&d.vals[i], rc))).collect::<Vec<_>>().join(", "))
        }
        V::Heap(h) => { let h = h.borrow(); join(heap_items(&h), rc, "[", "]") }
        V::Struct(x) => format!("{}({})", x.ty.name, x.ty.fields.iter().zip(x.f.borrow().iter()).map(|(k, v)| format!("{k}={}", repr_(v, rc))).collect::<Vec<_>>().join(", ")),
        V::Type(t) => type_repr(t),
        V::Range(a, b, c) => if *c == 0 { "range(empty)".into() } else { format!("range({a}, {b}, {c})") },
        V::Enum(x) => format!("enumerate({})", repr_(x, rc)),
        V::Slice(x) => {
            let f = |v: &V| match v { V::Nil => String::new(), V::Bool(b) => (*b as i64).to_string(), v => repr(v) };
            if let V::Nil = x[2] { format!("[{}:{}]", f(&x[0]), f(&x[1])) } else { format!("[{}:{}:{}]", f(&x[0]), f(&x[1]), f(&x[2])) }
        }
        V::Fn(f) => f.def.repr(),
        V::Native(n) | V::PNative(n, _) => format!("fn {}({})", n.shown, n.args),
        V::Partial(p) => repr_(&p.0, rc),
        V::Field(_) => "(->)".into(),
        V::Memo(m) => format!("@memoize {}", repr_(&m.f, rc)),
    };
    if id != 0 { rc.pop(); }
    r
}
pub fn type_repr(t: &TypeV) -> String {
    if t.module { format!("module {}", t.name) } else { format!("struct {}({})", t.name, t.fields.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")) }
}
pub fn as_error(v: &V) -> String { format!("'{}' of type '{}'", to_str(v), type_str(v)) }
