//! Tree-walking evaluation of the reference model.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use super::natives;
use super::parse::*;
use super::value::{self, *};

pub type Var = Rc<RefCell<V>>;
pub struct FnV { pub def: Rc<FnDef>, pub env: Rc<Vec<Rc<Vec<Var>>>> }

#[derive(Debug)]
pub struct Rt { pub msg: String, pub line: usize, pub calls: Vec<(String, usize)> }
#[derive(Debug)]
pub enum Er { Rt(Box<Rt>), Exit, Limit }
pub type Rs<T = V> = Result<T, Er>;

pub fn err<T>(msg: impl Into<String>) -> Rs<T> { Err(Er::Rt(Box::new(Rt { msg: msg.into(), line: 0, calls: vec![] }))) }

thread_local! {
    pub static STEPS: Cell<u64> = Cell::new(0);
}
pub fn tick(n: u64) -> bool {
    STEPS.with(|s| { let v = s.get(); if v < n { s.set(0); false } else { s.set(v - n); true } })
}

pub fn method_value(d: &Rc<FnDef>) -> V { V::Fn(Rc::new(FnV { def: d.clone(), env: Rc::new(vec![]) })) }

pub struct Interp {
    pub globals: Vec<V>, pub declared: Vec<bool>, pub names: Vec<String>,
    pub out: String, pub input: Vec<u8>, pub inpos: usize, pub depth: usize, pub max_depth: usize, pub argv: Vec<String>,
    pub calls: u64, pub max_seen: usize, pub closures: u64, pub evals: u64, pub fields: std::collections::HashSet<String>,
}
struct Frame { slots: Vec<Var>, env: Rc<Vec<Rc<Vec<Var>>>> }
enum Flow { Next, Break, Continue, Return(V) }

/// Elements are read when they are reached: a collection that is mutated while being iterated is observed as it is at that point.
pub enum It { Chars(Vec<char>, usize), Live(V, usize), Fixed(Vec<V>, usize), Range(i64, i64, i64), Enum(Box<It>, i64) }
impl It {
    pub fn next(&mut self) -> Option<V> {
        if !tick(1) { unspec("limit"); return None }
        match self {
            It::Chars(c, i) => { let r = c.get(*i).map(|c| value::s(&c.to_string())); *i += 1; r }
            It::Fixed(c, i) => { let r = c.get(*i).cloned(); *i += 1; r }
            It::Live(v, i) => {
                let k = *i;
                *i += 1;
                match v {
                    V::List(l) => l.borrow().get(k).cloned(),
                    V::Vector(l) => l.borrow().get(k).cloned(),
                    V::Set(l) => l.borrow().e.get(k).cloned(),
                    V::Dict(d) => { let d = d.borrow(); d.keys.e.get(k).map(|x| pair(x.clone(), d.vals[k].clone())) }
                    _ => unreachable!()
                }
            }
            It::Range(c, stop, step) => {
                if *step == 0 || (*step > 0 && *c >= *stop) || (*step < 0 && *c <= *stop) { return None }
                let r = V::Int(*c);
                *c += *step;
                Some(r)
            }
            It::Enum(it, i) => { let v = it.next()?; let r = pair(V::Int(*i), v); *i += 1; Some(r) }
        }
    }
    pub fn collect(mut self) -> Vec<V> { let mut v = vec![]; while let Some(x) = self.next() { v.push(x) } v }
}
pub fn is_iterable(v: &V) -> bool { matches!(v, V::Str(_) | V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) | V::Heap(_) | V::Range(..) | V::Enum(_)) }
pub fn iter(v: &V) -> Rs<It> {
    Ok(match v {
        V::Str(x) => It::Chars(x.chars().collect(), 0),
        V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) => It::Live(v.clone(), 0),
        V::Heap(h) => { let h = h.borrow(); It::Fixed(heap_items(&h).into(), 0) }
        V::Range(a, b, c) => It::Range(*a, *b, *c),
        V::Enum(x) => It::Enum(Box::new(iter(x)?), 0),
        _ => return err(format!("TypeError: Expected {} to be an iterable", as_error(v))),
    })
}
pub fn len(v: &V) -> Rs<usize> {
    Ok(match v {
        V::Str(x) => x.chars().count(),
        V::List(l) => l.borrow().len(), V::Vector(l) => l.borrow().len(), V::Set(l) => l.borrow().e.len(), V::Dict(d) => d.borrow().vals.len(), V::Heap(h) => h.borrow().len(),
        V::Range(a, b, c) => if *c == 0 { 0 } else { let d = (*b as i128 - *a as i128).abs(); let s = (*c as i128).abs(); ((d + s - 1) / s) as usize },
        V::Enum(x) => len(x)?,
        _ => return err(format!("TypeError: Expected {} to be an iterable", as_error(v))),
    })
}
pub fn as_int(v: &V) -> Rs<i64> { match v { V::Int(i) => Ok(*i), V::Bool(b) => Ok(*b as i64), _ => err(format!("TypeError: Expected {} to be a int", as_error(v))) } }
pub fn as_str(v: &V) -> Rs<Rc<str>> { match v { V::Str(x) => Ok(x.clone()), _ => err(format!("TypeError: Expected {} to be a string", as_error(v))) } }

pub fn get_slice(t: &V, lo: &V, hi: &V, st: &V) -> Rs {
    for x in [lo, hi, st] { if !matches!(x, V::Nil) { as_int(x)?; } }
    let items: Vec<V> = match t {
        V::Str(x) => x.chars().map(|c| value::s(&c.to_string())).collect(),
        V::List(l) => l.borrow().iter().cloned().collect(), V::Vector(l) => l.borrow().clone(),
        _ => return err(format!("TypeError: Cannot slice {}", as_error(t))),
    };
    let n = items.len() as i128;
    let get = |v: &V, d: i128| -> Rs<i128> { match v { V::Nil => Ok(d), _ => as_int(v).map(|x| x as i128) } };
    let st = get(st, 1)?;
    if st == 0 { return err("ValueError: 'step' argument cannot be zero") }
    let lo = get(lo, if st > 0 { 0 } else { -1 })?;
    let hi = get(hi, if st > 0 { n } else { -n - 1 })?;
    // bounds are clamped, as in Python
    let (min, max) = if st > 0 { (0, n) } else { (-1, n - 1) };
    let fix = |x: i128| if x < 0 { x + n } else { x }.clamp(min, max);
    let (mut i, stop) = (fix(lo), fix(hi));
    let mut out = vec![];
    while if st > 0 { i < stop } else { i > stop } { out.push(items[i as usize].clone()); i += st }
    Ok(match t { V::Str(_) => value::s(&out.iter().map(to_str).collect::<String>()), V::List(_) => list(out), _ => vector(out) })
}

impl Interp {
    pub fn new(globals: &[String]) -> Interp {
        Interp { globals: vec![V::Nil; globals.len()], declared: vec![false; globals.len()], names: globals.to_vec(), out: String::new(), input: vec![], inpos: 0, depth: 0, max_depth: 120, argv: vec![], calls: 0, max_seen: 0, closures: 0, evals: 0, fields: Default::default() }
    }
    pub fn run(&mut self, p: &Program) -> Rs<()> {
        self.fields = p.fields.clone();
        let mut f = Frame { slots: (0..p.main.nslots.get()).map(|_| Rc::new(RefCell::new(V::Nil))).collect(), env: Rc::new(vec![]) };
        self.block(&p.main.body.borrow(), &mut f).map(|_| ())
    }

    /// One entry of a session: executes the statements from `from` on; with `show`, a final expression statement is printed.
    /// Returns how many statements were completed.
    pub fn run_part(&mut self, p: &Program, from: usize, show: bool) -> (usize, Rs<()>) {
        self.globals.truncate(p.globals.len());
        self.declared.truncate(p.globals.len());
        self.globals.resize(p.globals.len(), V::Nil);
        self.declared.resize(p.globals.len(), false);
        self.names = p.globals.clone();
        self.fields = p.fields.clone();
        self.depth = 0;
        let mut f = Frame { slots: (0..p.main.nslots.get()).map(|_| Rc::new(RefCell::new(V::Nil))).collect(), env: Rc::new(vec![]) };
        let body = p.main.body.borrow();
        for (i, s) in body.iter().enumerate().skip(from) {
            let last = i + 1 == body.len();
            let r = match &s.k {
                SK::Expr(e) if last && show => match self.ev(e, &mut f) {
                    Ok(v) => { let t = to_str(&v); self.out.push_str(&t); self.out.push('\n'); Ok(Flow::Next) }
                    Err(Er::Rt(mut x)) => { if x.line == 0 { x.line = s.line } Err(Er::Rt(x)) }
                    Err(e) => Err(e),
                },
                _ => self.stmt(s, &mut f),
            };
            if let Err(e) = r { return (i - from, Err(e)) }
        }
        (body.len() - from.min(body.len()), Ok(()))
    }

    fn block(&mut self, b: &[S], f: &mut Frame) -> Rs<Flow> {
        for s in b { match self.stmt(s, f)? { Flow::Next => {} x => return Ok(x) } }
        Ok(Flow::Next)
    }
    fn fresh(&mut self, rs: &[R], f: &mut Frame) {
        for r in rs { match r { R::Local(s) => f.slots[*s] = Rc::new(RefCell::new(V::Nil)), R::Global(g) => self.declared[*g] = true, _ => unreachable!() } }
    }
    fn stmt(&mut self, s: &S, f: &mut Frame) -> Rs<Flow> {
        if !tick(1) { return Err(Er::Limit) }
        let r = self.stmt_(s, f);
        if let Err(Er::Rt(x)) = r { let mut x = x; if x.line == 0 { x.line = s.line } return Err(Er::Rt(x)) }
        r
    }
    fn stmt_(&mut self, s: &S, f: &mut Frame) -> Rs<Flow> {
        match &s.k {
            SK::Nop => {}
            SK::Expr(e) => { self.ev(e, f)?; }
            SK::Let(p, rs, e) => {
                let v = match e { Some(e) => self.ev(e, f)?, None => V::Nil };
                self.fresh(rs, f);
                if e.is_some() { self.bind(p, &v, f, &mut vec![])? } else { for r in rs { self.store(r, V::Nil, f)? } }
            }
            SK::Fn(r, d, decs) => {
                self.fresh(std::slice::from_ref(r), f);
                // known finding: while its decorators run, the name of a function is some other value on the stack
                let mark = || V::Field("<decorating>".into());
                match (r, decs.is_empty()) {
                    (_, true) => {}
                    (R::Global(g), _) => { self.declared[*g] = false; self.globals[*g] = mark() }
                    (r, _) => self.store(r, mark(), f)?
                }
                let mut fs = vec![];
                for e in decs { fs.push(self.ev(e, f)?) }
                let mut v = self.closure(d, f);
                for g in fs.iter().rev() { v = self.call(g, vec![v], s.line)? }
                if let R::Global(g) = r { self.declared[*g] = true }
                self.store(r, v, f)?;
            }
            SK::Return(e) => { let v = match e { Some(e) => self.ev(e, f)?, None => V::Nil }; return Ok(Flow::Return(v)) }
            SK::Block(b) => return self.block(b, f),
            SK::If(c, a, b) => { let c = truthy(&self.ev(c, f)?); return self.block(if c { a } else { b }, f) }
            SK::While(c, b, e) => {
                loop {
                    if !truthy(&self.ev(c, f)?) { match self.block(e, f)? { Flow::Continue => continue, Flow::Return(v) => return Ok(Flow::Return(v)), _ => break } }
                    match self.block(b, f)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                }
            }
            SK::DoWhile(b, c, e) => {
                loop {
                    if !tick(1) { return Err(Er::Limit) }
                    match self.block(b, f)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), Flow::Continue => continue, _ => {} }
                    let again = match c { Some(c) => truthy(&self.ev(c, f)?), None => false };
                    if !again { match self.block(e, f)? { Flow::Continue => continue, Flow::Return(v) => return Ok(Flow::Return(v)), _ => break } }
                }
            }
            SK::Loop(b) => loop { if !tick(1) { return Err(Er::Limit) } match self.block(b, f)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} } },
            SK::For(p, rs, it, b, e) => {
                let v = self.ev(it, f)?;
                let line = it.line;
                let mut it = at(iter(&v), line)?;
                while let Some(x) = it.next() {
                    self.fresh(rs, f);
                    at(self.bind(p, &x, f, &mut vec![]), line)?;
                    match self.block(b, f)? { Flow::Break => return Ok(Flow::Next), Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                }
                if let Flow::Return(v) = self.block(e, f)? { return Ok(Flow::Return(v)) }
            }
            SK::Break => return Ok(Flow::Break),
            SK::Continue => return Ok(Flow::Continue),
            SK::Assert(c, m) => {
                let (ok, text) = match &c.k {
                    K::Cmp(a, ops) if ops.len() == 1 => { let l = self.ev(a, f)?; let r = self.ev(&ops[0].2, f)?; let ok = compare(ops[0].0, &l, &r); (ok, if ok { None } else { Some(format!("Expected {} {} {}", repr(&l), natives::op_name(ops[0].0), repr(&r))) }) }
                    _ => (truthy(&self.ev(c, f)?), None)
                };
                if !ok {
                    let reason = match m { Some(m) => self.ev(m, f)?, None => V::Nil };
                    let mut msg = String::from("Assertion Failed:");
                    let mut any = false;
                    match &reason { V::Nil => {} V::Str(x) => { any = true; msg.push(' '); msg.push_str(x) } v => { any = true; msg.push(' '); msg.push_str(&to_str(v)) } }
                    if let Some(t) = text { msg.push(if any { '\n' } else { ' ' }); msg.push_str(&t) }
                    return err(msg)
                }
            }
            SK::Type(r, t) => { self.fresh(std::slice::from_ref(r), f); self.store(r, V::Type(t.clone()), f)? }
        }
        Ok(Flow::Next)
    }

    fn closure(&mut self, d: &Rc<FnDef>, f: &Frame) -> V {
        self.closures += 1;
        let mut env = Vec::with_capacity(f.env.len() + 1);
        env.push(Rc::new(f.slots.clone()));
        env.extend(f.env.iter().cloned());
        V::Fn(Rc::new(FnV { def: d.clone(), env: Rc::new(env) }))
    }
    fn load(&mut self, r: &R, f: &Frame) -> Rs {
        Ok(match r {
            R::Local(s) => settled(f.slots[*s].borrow().clone()),
            R::Up(k, s) => settled(f.env[*k - 1][*s].borrow().clone()),
            R::Global(g) => { if !self.declared[*g] { settled(self.globals[*g].clone()); return err(format!("ValueError: '{}' was referenced but has not been declared yet", self.names[*g])) } self.globals[*g].clone() }
            R::Late(c) => { let c = c.borrow(); match &*c { LateR::To(r) => return self.load(r, f), LateR::Pending => return err("pending reference") } }
            R::Method(d) => method_value(d),
            R::SelfMethod(t, d) => { let t = self.load(t, f)?; V::Partial(Rc::new((method_value(d), vec![t]))) }
            R::SelfField(t, n) => { let t = self.load(t, f)?; return self.get_field(&t, n) }
            R::Native(n) => V::Native(n),
        })
    }
    fn store(&mut self, r: &R, v: V, f: &Frame) -> Rs<()> {
        match r {
            R::Local(s) => *f.slots[*s].borrow_mut() = v,
            R::Up(k, s) => { let mut x = f.env[*k - 1][*s].borrow_mut(); settled(x.clone()); *x = v }
            R::Global(g) => { if !self.declared[*g] { settled(self.globals[*g].clone()); return err(format!("ValueError: '{}' was referenced but has not been declared yet", self.names[*g])) } self.globals[*g] = v }
            R::Late(c) => { let c = c.borrow(); match &*c { LateR::To(r) => return self.store(r, v, f), LateR::Pending => return err("pending reference") } }
            R::SelfField(t, n) => { let t = self.load(t, f)?; self.set_field(&t, n, v)? }
            _ => return err("invalid store"),
        }
        Ok(())
    }

    /// Destructure `v`. `pre` holds the already evaluated (array, index) / (object) of complex targets, in order of appearance; the last is at the end.
    fn bind(&mut self, p: &Pat, v: &V, f: &Frame, pre: &mut Vec<(V, V)>) -> Rs<()> {
        match p {
            Pat::Empty | Pat::VarEmpty => Ok(()),
            Pat::Name(r) | Pat::VarName(r) => self.store(r, v.clone(), f),
            Pat::Index(..) => { let (a, i) = pre.pop().unwrap(); self.set_index(&a, &i, v.clone()) }
            Pat::Field(_, n) => { let (a, _) = pre.pop().unwrap(); self.set_field(&a, n, v.clone()) }
            Pat::Terms(t) => {
                let n = len(v)?;
                let var = t.iter().position(|p| matches!(p, Pat::VarEmpty | Pat::VarName(_)));
                if var.is_some() { if t.len() - 1 > n { return err(format!("ValueError: Cannot unpack {} with length {n}, expected at least {} elements", as_error(v), t.len() - 1)) } }
                else if t.len() != n { return err(format!("ValueError: Cannot unpack {} with length {n}, expected exactly {} elements", as_error(v), t.len())) }
                for (i, p) in t.iter().enumerate().rev() {
                    match p {
                        Pat::Empty | Pat::VarEmpty => {}
                        Pat::VarName(r) => {
                            let after = t.len() - 1 - i;
                            let x = get_slice(v, &V::Int(i as i64), &if after == 0 { V::Nil } else { V::Int(-(after as i64)) }, &V::Int(1))?;
                            self.store(r, x, f)?
                        }
                        p => {
                            let at = match var { Some(k) if i > k => i as i64 - t.len() as i64, _ => i as i64 };
                            let x = self.get_index(v, &V::Int(at), 0)?;
                            self.bind(p, &x, f, pre)?
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn pre_eval(&mut self, p: &Pat, f: &mut Frame, out: &mut Vec<(V, V)>) -> Rs<()> {
        match p {
            Pat::Terms(t) => for x in t { self.pre_eval(x, f, out)? },
            Pat::Index(a, i) => { let a = self.ev(a, f)?; let i = self.ev(i, f)?; out.push((a, i)) }
            Pat::Field(a, _) => { let a = self.ev(a, f)?; out.push((a, V::Nil)) }
            Pat::Name(R::SelfField(t, _)) => { let _ = t; }
            _ => {}
        }
        Ok(())
    }

    fn args(&mut self, a: &Args, f: &mut Frame) -> Rs<Vec<V>> {
        let mut v = Vec::with_capacity(a.len());
        for (e, un) in a {
            let x = self.ev(e, f)?;
            if *un { let mut it = at(iter(&x), e.line)?; while let Some(y) = it.next() { v.push(y) } } else { v.push(x) }
        }
        Ok(v)
    }
    fn ev(&mut self, e: &E, f: &mut Frame) -> Rs {
        if !tick(1) { return Err(Er::Limit) }
        let r = self.ev_(e, f);
        if let Err(Er::Rt(x)) = r { let mut x = x; if x.line == 0 { x.line = e.line } return Err(Er::Rt(x)) }
        r
    }
    fn ev_(&mut self, e: &E, f: &mut Frame) -> Rs {
        Ok(match &e.k {
            K::Lit(v) => v.clone(),
            K::Exit => return Err(Er::Exit),
            K::Var(r) | K::This(r) => return self.load(r, f),
            K::Nat(n) => V::Native(n),
            K::FieldFn(n) => V::Field(n.clone()),
            K::Get(a, n) => { let a = self.ev(a, f)?; return self.get_field(&a, n) }
            K::Call(g, a) => { let g = self.ev(g, f)?; let a = self.args(a, f)?; return self.call(&g, a, e.line) }
            K::Compose(a, g) => { let a = self.ev(a, f)?; let g = self.ev(g, f)?; return self.call(&g, vec![a], e.line) }
            K::Un(op, a) => { let a = self.ev(a, f)?; return natives::unary(*op, &a) }
            K::Bin(op, a, b) => { let a = self.ev(a, f)?; let b = self.ev(b, f)?; return natives::binary(*op, &a, &b) }
            K::And(a, b) => { let a = self.ev(a, f)?; if truthy(&a) { return self.ev(b, f) } a }
            K::Or(a, b) => { let a = self.ev(a, f)?; if truthy(&a) { a } else { return self.ev(b, f) } }
            K::Cmp(a, ops) => {
                let mut l = self.ev(a, f)?;
                for (op, _, b) in ops {
                    let r = self.ev(b, f)?;
                    if !compare(*op, &l, &r) { return Ok(V::Bool(false)) }
                    l = r;
                }
                V::Bool(true)
            }
            K::If(c, a, b) => { let c = truthy(&self.ev(c, f)?); return self.ev(if c { a } else { b }, f) }
            K::List(a) => list(self.args(a, f)?),
            K::Vector(a) => vector(self.args(a, f)?),
            K::Set(a) => { let v = self.args(a, f)?; set(v) }
            K::Comma(a, explicit, _) => { if !*explicit && !a[0].1 { return self.ev(&a[0].0, f) } vector(self.args(a, f)?) }
            K::Dict(a) => {
                let mut d = DictV::default();
                for (k, v) in a {
                    match v {
                        Some(v) => { let k = self.ev(k, f)?; let v = self.ev(v, f)?; d.insert(k, v) }
                        None => { let x = self.ev(k, f)?; let mut it = iter(&x)?; while let Some(y) = it.next() { let (k, v) = to_pair(&y)?; d.insert(k, v) } }
                    }
                }
                V::Dict(Rc::new(RefCell::new(d)))
            }
            K::Slice(ab, c) => {
                let a = self.ev(&ab[0], f)?;
                let b = self.ev(&ab[1], f)?;
                let c = match c { Some(c) => self.ev(c, f)?, None => V::Nil };
                for x in [&a, &b, &c] { if !matches!(x, V::Nil) { as_int(x)?; } }
                V::Slice(Rc::new([a, b, c]))
            }
            K::Index(a, i) => { let a = self.ev(a, f)?; let i = self.ev(i, f)?; return self.get_index(&a, &i, e.line) }
            K::SliceOf(x, st) => {
                let t = self.ev(&x[0], f)?;
                let a = self.ev(&x[1], f)?;
                let b = self.ev(&x[2], f)?;
                let c = match st { Some(c) => self.ev(c, f)?, None => V::Nil };
                return get_slice(&t, &a, &b, &c)
            }
            K::Assign(t, v) => match &**t {
                Target::Var(r) => { let v = self.ev(v, f)?; self.store(r, v.clone(), f)?; v }
                Target::Index(a, i) => { let a = self.ev(a, f)?; let i = self.ev(i, f)?; let v = self.ev(v, f)?; self.set_index(&a, &i, v.clone())?; v }
                Target::Field(a, n) => { let a = self.ev(a, f)?; let v = self.ev(v, f)?; self.set_field(&a, n, v.clone())?; v }
            },
            K::OpAssign(t, op, v) => {
                let line = e.line;
                let apply = |this: &mut Interp, l: V, r: V| match op { AOp::Bin(op) => natives::binary(*op, &l, &r), AOp::Compose => this.call(&r, vec![l], line) };
                match &**t {
                    Target::Var(r) => { let l = self.load(r, f)?; let v = self.ev(v, f)?; let x = apply(self, l, v)?; self.store(r, x.clone(), f)?; x }
                    Target::Index(a, i) => { let a = self.ev(a, f)?; let i = self.ev(i, f)?; let l = self.get_index(&a, &i, e.line)?; let v = self.ev(v, f)?; let x = apply(self, l, v)?; self.set_index(&a, &i, x.clone())?; x }
                    Target::Field(a, n) => { let a = self.ev(a, f)?; let l = self.get_field(&a, n)?; let v = self.ev(v, f)?; let x = apply(self, l, v)?; self.set_field(&a, n, x.clone())?; x }
                }
            }
            K::At(e) => self.ev(e, f)?,
            K::PatAssign(p, v) => {
                let mut pre = vec![];
                self.pre_eval(p, f, &mut pre)?;
                let v = self.ev(v, f)?;
                self.bind(p, &v, f, &mut pre)?;
                v
            }
            K::Fn(d) => self.closure(d, f),
            K::Under | K::VarUnder | K::VarName(_) => return err("pattern term in an expression"),
        })
    }

    pub fn get_field(&mut self, v: &V, n: &Rc<str>) -> Rs {
        match v {
            V::Struct(s) => {
                if let Some(i) = s.ty.fields.iter().position(|x| x == n) { return Ok(s.f.borrow()[i].clone()) }
                if let Some((_, m, true)) = s.ty.methods.borrow().iter().find(|x| x.0 == *n) { return Ok(V::Partial(Rc::new((m.clone(), vec![v.clone()])))) }
                err(format!("TypeError: Cannot get field '{n}' on {}", type_repr(&s.ty)))
            }
            V::Type(t) => {
                if let Some((_, m, _)) = t.methods.borrow().iter().find(|x| x.0 == *n) { return Ok(m.clone()) }
                if t.fields.iter().any(|x| x == n) { return Ok(V::Field(n.clone())) }
                err(format!("TypeError: Cannot get field '{n}' on {}", type_repr(t)))
            }
            _ => err(format!("TypeError: Cannot get field '{n}' on {}", as_error(v)))
        }
    }
    pub fn set_field(&mut self, v: &V, n: &Rc<str>, x: V) -> Rs<()> {
        match v {
            V::Struct(s) => match s.ty.fields.iter().position(|f| f == n) {
                Some(i) => { s.f.borrow_mut()[i] = x; Ok(()) }
                None => err(format!("TypeError: Cannot set field '{n}' on {}", type_repr(&s.ty)))
            },
            V::Type(t) => err(format!("TypeError: Cannot set field '{n}' on {}", type_repr(t))),
            _ => err(format!("TypeError: Cannot set field '{n}' on {}", as_error(v)))
        }
    }
    pub fn get_index(&mut self, t: &V, i: &V, line: usize) -> Rs {
        if let V::Dict(d) = t {
            let (found, default) = { let d = d.borrow(); (d.get(i), d.default.clone()) };
            if let Some(v) = found { return Ok(v) }
            let Some(df) = default else { return err(format!("ValueError: Key {} not found in dictionary", as_error(i))) };
            let v = if natives::is_function(&df) { self.call(&df, vec![], line)? } else { df };
            let mut d = d.borrow_mut();
            if let Some(v) = d.get(i) { return Ok(v) }
            d.insert(i.clone(), v.clone());
            return Ok(v)
        }
        let n = match t { V::Str(_) | V::List(_) | V::Vector(_) => len(t)?, _ => return err(format!("TypeError: Cannot index {}", as_error(t))) };
        let k = bounded(as_int(i)?, n)?;
        Ok(match t { V::Str(x) => value::s(&x.chars().nth(k).unwrap().to_string()), V::List(l) => l.borrow()[k].clone(), V::Vector(l) => l.borrow()[k].clone(), _ => unreachable!() })
    }
    pub fn set_index(&mut self, t: &V, i: &V, v: V) -> Rs<()> {
        match t {
            V::Dict(d) => { d.borrow_mut().insert(i.clone(), v); return Ok(()) }
            V::Str(_) | V::List(_) | V::Vector(_) => {}
            _ => return err(format!("TypeError: Cannot index {}", as_error(t)))
        }
        let k = bounded(as_int(i)?, len(t)?)?;
        match t { V::List(l) => l.borrow_mut()[k] = v, V::Vector(l) => l.borrow_mut()[k] = v, _ => return err(format!("TypeError: Cannot index {}", as_error(t))) }
        Ok(())
    }

    /// Call `g` with the arguments. A user function with too few arguments produces a partial function.
    pub fn call(&mut self, g: &V, a: Vec<V>, line: usize) -> Rs {
        if !tick(1) { return Err(Er::Limit) }
        let n = a.len();
        match g {
            V::Fn(f) => {
                if n < f.def.min { return Ok(if n == 0 { g.clone() } else { V::Partial(Rc::new((g.clone(), a))) }) }
                if n > f.def.max && !f.def.variadic { return err(format!("Incorrect number of arguments for {}, got {n}", f.def.repr())) }
                self.invoke(f, a, line)
            }
            V::Partial(p) => {
                let mut all = p.1.clone();
                all.extend(a);
                let V::Fn(f) = &p.0 else { return err("partial of a non function") };
                if all.len() < f.def.min { return Ok(V::Partial(Rc::new((p.0.clone(), all)))) }
                self.call(&p.0, all, line)
            }
            V::Native(_) | V::PNative(..) => natives::call(self, g, a, line),
            V::List(l) => {
                if n != 1 { return err(format!("Tried to evaluate {} but it is not a function.", repr(g))) }
                let l = l.borrow().clone();
                if l.len() != 1 { return err(format!("ValueError: Evaluating an index must have len = 1, got len = {}", l.len())) }
                self.get_index(&a[0], &l[0], line)
            }
            V::Slice(x) => { if n != 1 { return err(format!("Tried to evaluate {} but it is not a function.", repr(g))) } get_slice(&a[0], &x[0], &x[1], &x[2]) }
            V::Type(t) => {
                if t.module { return err(format!("Tried to evaluate {} but it is not a function.", repr(g))) }
                if n != t.fields.len() { return err(format!("Incorrect number of arguments for {}, got {n}", type_repr(t))) }
                Ok(V::Struct(Rc::new(StructV { ty: t.clone(), f: RefCell::new(a) })))
            }
            V::Field(x) => { if n != 1 { return err(format!("Incorrect number of arguments for native (->'{x}'), got {n}")) } self.get_field(&a[0], x) }
            V::Memo(m) => {
                let hit = m.cache.borrow().iter().find(|(k, _)| k.len() == n && k.iter().zip(&a).all(|(p, q)| eq(p, q))).map(|x| x.1.clone());
                if let Some(v) = hit { return Ok(v) }
                if a.iter().any(has_identity) { unspec("memoized by a mutable argument") }
                let v = self.call(&m.f, a.clone(), line)?;
                let hit = m.cache.borrow().iter().find(|(k, _)| k.len() == n && k.iter().zip(&a).all(|(p, q)| eq(p, q))).map(|x| x.1.clone());
                if let Some(v) = hit { return Ok(v) }
                m.cache.borrow_mut().push((a, v.clone()));
                Ok(v)
            }
            _ => err(format!("Tried to evaluate {} but it is not a function.", repr(g)))
        }
    }
    fn invoke(&mut self, fv: &Rc<FnV>, mut a: Vec<V>, line: usize) -> Rs {
        let d = &fv.def;
        if self.depth >= self.max_depth { return Err(Er::Limit) }
        self.calls += 1;
        let n = a.len();
        if d.variadic && n >= d.max { let rest = a.split_off(d.max - 1); a.push(vector(rest)) }
        let mut f = Frame { slots: (0..d.nslots.get()).map(|_| Rc::new(RefCell::new(V::Nil))).collect(), env: fv.env.clone() };
        self.depth += 1;
        self.max_seen = self.max_seen.max(self.depth);
        let r = self.body(d, a, &mut f);
        self.depth -= 1;
        r.map_err(|e| match e { Er::Rt(mut x) => { x.calls.push((d.repr(), line)); Er::Rt(x) } e => e })
    }
    fn body(&mut self, d: &Rc<FnDef>, mut a: Vec<V>, f: &mut Frame) -> Rs {
        let ps = d.params.borrow();
        for p in ps.iter().skip(a.len()) { let v = self.ev(p.default.as_ref().unwrap(), f)?; a.push(v) }
        for (p, v) in ps.iter().zip(&a) { if let Pat::Name(r) = &p.pat { self.store(r, v.clone(), f)? } }
        for (p, v) in ps.iter().zip(&a) { if !matches!(p.pat, Pat::Name(_)) { if let Err(e) = self.bind(&p.pat, v, f, &mut vec![]) { return Err(match e { Er::Rt(mut x) => { if x.line == 0 { x.line = d.line.get() } Er::Rt(x) } e => e }) } } }
        let b = d.body.borrow();
        let last = if d.value.get() { b.len() - 1 } else { b.len() };
        match self.block(&b[..last], f)? { Flow::Return(v) => return Ok(v), _ => {} }
        if last < b.len() { if let SK::Expr(e) = &b[last].k { return self.ev(e, f) } }
        Ok(V::Nil)
    }
}

pub fn bounded(i: i64, n: usize) -> Rs<usize> {
    let k = if i < 0 { i + n as i64 } else { i };
    if k < 0 || k >= n as i64 { err(format!("Index '{i}' is out of bounds for list of length [0, {n})")) } else { Ok(k as usize) }
}
pub fn to_pair(v: &V) -> Rs<(V, V)> {
    let x: Vec<V> = match v { V::List(l) => l.borrow().iter().cloned().collect(), V::Vector(l) => l.borrow().clone(), _ => vec![] };
    if x.len() == 2 { Ok((x[0].clone(), x[1].clone())) } else { err(format!("ValueError: Cannot collect key-value pair {} into a dict", as_error(v))) }
}
pub fn compare(op: Op, l: &V, r: &V) -> bool {
    match op {
        Op::Eq => eq(l, r), Op::Ne => !eq(l, r),
        Op::Lt => cmp(l, r).is_lt(), Op::Le => cmp(l, r).is_le(), Op::Gt => cmp(l, r).is_gt(), Op::Ge => cmp(l, r).is_ge(),
        _ => unreachable!()
    }
}

/// The value of a name, unless it is a function whose decorators are still being evaluated.
fn settled(v: V) -> V { if let V::Field(x) = &v { if &**x == "<decorating>" { unspec("name of a function being decorated") } } v }

fn at<T>(r: Rs<T>, line: usize) -> Rs<T> { r.map_err(|e| match e { Er::Rt(mut r) => { if r.line == 0 { r.line = line } Er::Rt(r) } e => e }) }
