//! Independent parser and name resolver for the reference model.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

use super::lex::{lex, Tok, T};
use super::natives::find;
use super::value::{self, NInfo, TypeV, V};

#[derive(Clone)]
pub enum R {
    Local(usize), Up(usize, usize), Global(usize), Late(Rc<RefCell<LateR>>),
    Method(Rc<FnDef>), SelfMethod(Box<R>, Rc<FnDef>), SelfField(Box<R>, Rc<str>), Native(&'static NInfo),
}
pub enum LateR { Pending, To(R) }

pub struct E { pub k: K, pub line: usize }
pub type Args = Vec<(E, bool)>;

pub enum K {
    Lit(V), Exit, Var(R), This(R), Nat(&'static NInfo), FieldFn(Rc<str>),
    Get(Box<E>, Rc<str>), Call(Box<E>, Args), Un(Op, Box<E>), Bin(Op, Box<E>, Box<E>), Compose(Box<E>, Box<E>),
    And(Box<E>, Box<E>), Or(Box<E>, Box<E>), Cmp(Box<E>, Vec<(Op, usize, E)>), If(Box<E>, Box<E>, Box<E>),
    List(Args), Vector(Args), Set(Args), Dict(Vec<(E, Option<E>)>), Slice(Box<[E; 2]>, Option<Box<E>>),
    Index(Box<E>, Box<E>), SliceOf(Box<[E; 3]>, Option<Box<E>>),
    Assign(Box<Target>, Box<E>), OpAssign(Box<Target>, AOp, Box<E>), PatAssign(Box<Pat>, Box<E>),
    /// value of another expression, for its own line
    At(Box<E>),
    Fn(Rc<FnDef>),
    /// parenthesised (or bare) terms: a vector if explicit or unrolled, otherwise just precedence; also an assignment pattern
    Comma(Args, bool, bool),
    // only valid within assignment targets
    Under, VarUnder, VarName(R),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Neg, Not, LNot, Mul, Div, Mod, Pow, Is, IsNot, In, NotIn, Add, Sub, Shl, Shr, And, Or, Xor, Lt, Le, Gt, Ge, Eq, Ne, Max, Min }
pub enum AOp { Bin(Op), Compose }
pub enum Target { Var(R), Index(E, E), Field(E, Rc<str>) }
pub enum Pat { Empty, VarEmpty, Name(R), VarName(R), Terms(Vec<Pat>), Index(E, E), Field(E, Rc<str>) }

pub struct Param { pub pat: Pat, pub slots: Vec<usize>, pub default: Option<E> }
pub struct FnDef {
    pub name: Rc<str>, pub params: RefCell<Vec<Param>>, pub shown: Vec<String>, pub variadic: bool, pub instance: bool,
    pub body: RefCell<Vec<S>>, pub value: Cell<bool>, pub nslots: Cell<usize>, pub min: usize, pub max: usize,
    pub line: Cell<usize>, pub end_line: Cell<usize>, pub method: Cell<bool>,
}
impl FnDef { pub fn repr(&self) -> String { format!("fn {}({})", self.name, self.shown.join(", ")) } }

pub struct S { pub k: SK, pub line: usize }
pub enum SK {
    Expr(E), Let(Pat, Vec<R>, Option<E>), Fn(R, Rc<FnDef>, Vec<E>), Return(Option<E>), Block(Vec<S>),
    If(E, Vec<S>, Vec<S>), While(E, Vec<S>, Vec<S>), DoWhile(Vec<S>, Option<E>, Vec<S>), Loop(Vec<S>),
    For(Pat, Vec<R>, E, Vec<S>, Vec<S>), Break, Continue, Assert(E, Option<E>), Type(R, Rc<TypeV>), Nop,
}

struct Var { name: String, scope: usize, init: bool, slot: usize, global: bool }
struct LoopInfo { cont: bool }
#[derive(Default)]
struct FS { vars: Vec<Var>, nslots: usize, loops: Vec<LoopInfo> }
struct Late { name: String, cell: Rc<RefCell<LateR>>, module: bool, this: Option<R>, fallback: Option<usize>, loads: bool }
struct Module { struct_: bool, fields: Vec<Rc<str>>, methods: Vec<(String, Rc<FnDef>)> }

pub struct Program { pub main: Rc<FnDef>, pub globals: Vec<String>, pub types: Vec<Rc<TypeV>>, pub fields: HashSet<String> }

pub struct P { t: Vec<Tok>, i: usize, fs: Vec<FS>, scope: usize, globals: Vec<String>, late: Vec<Late>, module: Option<Module>, fields: HashSet<String>, used: HashMap<String, usize>, types: Vec<Rc<TypeV>>, next_type: usize, unders: i64 }
type Res<X> = Result<X, String>;

pub fn parse(text: &str) -> Res<Program> { parse_with(text, 0) }
pub fn parse_with(text: &str, next_type: usize) -> Res<Program> {
    let mut p = P::new(text, next_type)?;
    let body = p.stmts()?;
    if p.peek() != &T::Eof { return Err(format!("unexpected {:?} after end", p.peek())) }
    p.finish()?;
    let d = mkdef("<script>".into(), vec![], vec![], false, false);
    d.nslots.set(p.fs[0].nslots);
    *d.body.borrow_mut() = body;
    Ok(Program { main: d, globals: p.globals, types: p.types, fields: p.fields })
}
/// An `eval` argument: a single expression, without access to any variable.
pub fn parse_eval(text: &str, fields: &HashSet<String>) -> Res<Rc<FnDef>> {
    let mut p = P::new(text, 1 << 20)?;
    p.fields = fields.clone();
    let e = p.expression()?;
    if p.peek() != &T::Eof { return Err("trailing tokens".into()) }
    p.finish()?;
    let d = mkdef("<eval>".into(), vec![], vec![], false, false);
    d.nslots.set(p.fs[0].nslots);
    d.value.set(true);
    let line = e.line;
    *d.body.borrow_mut() = vec![S { k: SK::Expr(e), line }];
    Ok(d)
}

fn mkdef(name: Rc<str>, params: Vec<Param>, shown: Vec<String>, variadic: bool, instance: bool) -> Rc<FnDef> {
    let max = params.len();
    let min = params.iter().filter(|p| p.default.is_none()).count();
    Rc::new(FnDef { name, params: RefCell::new(params), shown, variadic, instance, body: RefCell::new(vec![]), value: Cell::new(false), nslots: Cell::new(0), min, max, line: Cell::new(0), end_line: Cell::new(0), method: Cell::new(false) })
}

enum LV { Empty, VarEmpty, Name(String), VarName(String), This, Terms(Vec<LV>) }
impl LV {
    fn code(&self) -> String {
        match self {
            LV::Empty => "_".into(), LV::VarEmpty => "*_".into(), LV::Name(n) => n.clone(), LV::VarName(n) => format!("*{n}"), LV::This => "self".into(),
            LV::Terms(t) => format!("({})", t.iter().map(|x| x.code()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn variadic(&self) -> bool { matches!(self, LV::VarEmpty | LV::VarName(_)) }
}

impl P {
    fn new(text: &str, next_type: usize) -> Res<P> {
        Ok(P { t: lex(text)?, i: 0, fs: vec![FS::default()], scope: 0, globals: vec![], late: vec![], module: None, fields: HashSet::new(), used: HashMap::new(), types: vec![], next_type, unders: 0 })
    }
    fn finish(&mut self) -> Res<()> {
        if self.unders != 0 { return Err("pattern terms outside of an assignment".into()) }
        for l in std::mem::take(&mut self.late) {
            match l.fallback {
                Some(g) => *l.cell.borrow_mut() = LateR::To(R::Global(g)),
                None => return Err(format!("undeclared {}", l.name))
            }
        }
        for u in self.used.keys() { if !self.fields.contains(u) { return Err(format!("undeclared field {u}")) } }
        Ok(())
    }

    // tokens
    fn at(&self, n: usize) -> &T {
        let mut k = n;
        for t in &self.t[self.i..] { if t.t != T::Nl { if k == 0 { return &t.t } k -= 1 } }
        &T::Eof
    }
    fn peek(&self) -> &T { self.at(0) }
    fn op(&self, o: &str) -> bool { matches!(self.peek(), T::Op(x) if *x == o) }
    fn op_at(&self, n: usize, o: &str) -> bool { matches!(self.at(n), T::Op(x) if *x == o) }
    fn kw(&self, o: &str) -> bool { matches!(self.peek(), T::Kw(x) if *x == o) }
    fn kw_at(&self, n: usize, o: &str) -> bool { matches!(self.at(n), T::Kw(x) if *x == o) }
    fn line(&self) -> usize { for t in &self.t[self.i..] { if t.t != T::Nl { return t.line } } self.t.last().unwrap().line }
    fn next(&mut self) -> T { while self.t[self.i].t == T::Nl { self.i += 1 } let t = self.t[self.i].t.clone(); if t != T::Eof { self.i += 1 } t }
    fn eat(&mut self, o: &str) -> bool { if self.op(o) { self.next(); true } else { false } }
    fn eat_kw(&mut self, o: &str) -> bool { if self.kw(o) { self.next(); true } else { false } }
    fn expect(&mut self, o: &str) -> Res<()> { if self.eat(o) { Ok(()) } else { Err(format!("expected {o}, got {:?} line {}", self.peek(), self.line())) } }
    fn ident(&mut self) -> Res<String> { match self.peek().clone() { T::Id(n) => { self.next(); Ok(n) } t => Err(format!("expected identifier, got {t:?}")) } }
    fn e(&mut self, k: K, line: usize) -> E { if matches!(k, K::Under | K::VarUnder | K::VarName(_)) { self.unders += 1 } E { k, line } }

    // scopes
    fn depth(&self) -> usize { self.fs.len() - 1 }
    fn declare(&mut self, name: &str, init: bool) -> Res<R> {
        if find(name).is_some() { return Err(format!("name {name} conflicts with native")) }
        let (scope, depth) = (self.scope, self.depth());
        let fs = self.fs.last_mut().unwrap();
        if fs.vars.iter().any(|v| v.name == name && v.scope == scope) { return Err(format!("duplicate {name}")) }
        if scope == 0 && depth == 0 {
            let g = self.globals.len();
            self.globals.push(name.to_string());
            fs.vars.push(Var { name: name.into(), scope, init, slot: g, global: true });
            self.bind_late(name, R::Global(g), false)?;
            return Ok(R::Global(g))
        }
        let slot = fs.nslots;
        fs.nslots += 1;
        fs.vars.push(Var { name: name.into(), scope, init, slot, global: false });
        Ok(R::Local(slot))
    }
    fn bind_late(&mut self, name: &str, to: R, module_only: bool) -> Res<()> {
        let mut i = 0;
        while i < self.late.len() {
            if self.late[i].name == name && (!module_only || self.late[i].module) {
                let l = self.late.swap_remove(i);
                let r = match &to {
                    R::Method(d) => {
                        if !l.loads { return Err("assignment to a method".into()) }
                        if d.instance { match l.this { Some(t) => R::SelfMethod(Box::new(t), d.clone()), None => return Err("undeclared self".into()) } } else { to.clone() }
                    }
                    x => x.clone(),
                };
                *l.cell.borrow_mut() = LateR::To(r);
            } else { i += 1 }
        }
        Ok(())
    }
    fn init_all(&mut self) { for v in &mut self.fs.last_mut().unwrap().vars { v.init = true } }
    fn push_scope(&mut self) { self.scope += 1 }
    fn pop_scope(&mut self) { let s = self.scope; self.fs.last_mut().unwrap().vars.retain(|v| v.scope < s); self.scope -= 1 }

    fn resolve_var(&self, name: &str) -> Option<R> {
        let d = self.depth();
        for v in self.fs[d].vars.iter().rev() { if v.name == name && v.init { return Some(if v.global { R::Global(v.slot) } else { R::Local(v.slot) }) } }
        for k in (0..d).rev() {
            for v in self.fs[k].vars.iter().rev() { if v.name == name && v.init && !v.global { return Some(R::Up(d - k, v.slot)) } }
        }
        None
    }
    fn resolve(&mut self, name: &str) -> Res<R> {
        if let Some(n) = find(name) { return Ok(R::Native(n)) }
        if let Some(r) = self.resolve_var(name) { return Ok(r) }
        if self.depth() > 0 {
            if let Some(m) = &self.module {
                if m.struct_ {
                    if let Some((_, d)) = m.methods.iter().find(|x| x.0 == name) {
                        if d.instance {
                            let d = d.clone();
                            let t = self.resolve_var("self").ok_or("undeclared self")?;
                            return Ok(R::SelfMethod(Box::new(t), d))
                        }
                    }
                    if m.fields.iter().any(|f| &**f == name) {
                        let t = self.resolve_var("self").ok_or("undeclared self")?;
                        return Ok(R::SelfField(Box::new(t), name.into()))
                    }
                }
                if let Some((_, d)) = m.methods.iter().find(|x| x.0 == name) { if !d.instance { return Ok(R::Method(d.clone())) } }
            }
            let global = self.fs[0].vars.iter().rev().find(|v| v.name == name && v.init && v.global).map(|v| v.slot);
            if let (Some(g), None) = (global, &self.module) { return Ok(R::Global(g)) }
            let cell = Rc::new(RefCell::new(LateR::Pending));
            let this = self.resolve_var("self");
            self.late.push(Late { name: name.into(), cell: cell.clone(), module: self.module.is_some(), this, fallback: global, loads: true });
            return Ok(R::Late(cell))
        }
        Err(format!("undeclared {name} line {}", self.line()))
    }
    fn field(&mut self) -> Res<Rc<str>> { let n = self.ident()?; let l = self.line(); self.used.entry(n.clone()).or_insert(l); Ok(Rc::from(n)) }

    // statements
    fn stmts(&mut self) -> Res<Vec<S>> {
        let mut out = Vec::new();
        loop {
            let mut line = self.line();
            let k = match self.peek().clone() {
                T::Eof => break,
                T::Op("}") => break,
                T::Op(";") => { self.next(); SK::Nop }
                T::Op("@") => { let k = self.decorated()?; line = self.last_line(); k }
                T::Kw("fn") if !self.op_at(1, "(") => { let (r, d) = self.named_fn()?; SK::Fn(r, d, vec![]) }
                T::Kw("return") => {
                    self.next();
                    if self.op("}") { SK::Return(None) } else if self.eat(";") { SK::Return(None) } else { SK::Return(Some(self.expression()?)) }
                }
                T::Kw("let") => { self.let_(&mut out)?; continue }
                T::Kw("if") => self.if_()?,
                T::Kw("loop") => { self.next(); self.begin_loop(); let b = self.block()?; self.end_loop(); SK::Loop(b) }
                T::Kw("while") => {
                    self.next();
                    self.begin_loop();
                    let c = self.expression()?;
                    let b = self.block()?;
                    let e = if self.eat_kw("else") { self.block()? } else { vec![] };
                    self.end_loop();
                    SK::While(c, b, e)
                }
                T::Kw("do") => {
                    self.next();
                    self.begin_loop();
                    let b = self.block()?;
                    let c = if self.eat_kw("while") { Some(self.expression()?) } else { None };
                    let e = if self.eat_kw("else") { self.block()? } else { vec![] };
                    self.end_loop();
                    SK::DoWhile(b, c, e)
                }
                T::Kw("for") => {
                    self.next();
                    self.push_scope();
                    let lv = self.bare_lvalue()?;
                    if !self.eat_kw("in") { return Err("expected in".into()) }
                    let (pat, rs) = self.declare_lv(&lv, false)?;
                    let it = self.expression()?;
                    let it = self.e(K::At(Box::new(it)), self.last_line());
                    self.init_all();
                    self.begin_loop();
                    let b = self.block()?;
                    self.pop_scope();
                    let mut e = vec![];
                    if self.eat_kw("else") { self.fs.last_mut().unwrap().loops.last_mut().unwrap().cont = false; e = self.block()? }
                    self.end_loop();
                    SK::For(pat, rs, it, b, e)
                }
                T::Kw("break") => { self.next(); if self.fs.last().unwrap().loops.is_empty() { return Err("break outside".into()) } SK::Break }
                T::Kw("continue") => { self.next(); if !self.fs.last().unwrap().loops.last().map_or(false, |l| l.cont) { return Err("continue outside".into()) } SK::Continue }
                T::Kw("assert") => {
                    self.next();
                    line = self.line();
                    let c = self.expr()?;
                    let m = if self.eat(":") { Some(self.expression()?) } else { None };
                    SK::Assert(c, m)
                }
                T::Kw("struct") => self.type_(false)?,
                T::Kw("module") => self.type_(true)?,
                T::Kw("native") => return Err("native modules are not modelled".into()),
                _ => SK::Expr(self.expression()?),
            };
            out.push(S { k, line });
        }
        Ok(out)
    }
    fn begin_loop(&mut self) { self.fs.last_mut().unwrap().loops.push(LoopInfo { cont: true }) }
    fn end_loop(&mut self) { self.fs.last_mut().unwrap().loops.pop(); }
    fn block(&mut self) -> Res<Vec<S>> { self.expect("{")?; self.push_scope(); let b = self.stmts()?; self.pop_scope(); self.expect("}")?; Ok(b) }
    fn if_(&mut self) -> Res<SK> {
        let line = self.line();
        self.next();
        let c = self.expr()?;
        if self.kw("then") { let e = self.then_else(c, line)?; return Ok(SK::Expr(e)) }
        let a = self.block()?;
        let b = if self.kw("elif") { let line = self.line(); let k = self.if_()?; vec![S { k, line }] } else if self.eat_kw("else") { self.block()? } else { vec![] };
        Ok(SK::If(c, a, b))
    }
    fn let_(&mut self, out: &mut Vec<S>) -> Res<()> {
        self.next();
        loop {
            let line = self.line();
            let lv = self.bare_lvalue()?;
            if self.op("=") {
                if matches!(lv, LV::Empty | LV::VarEmpty | LV::VarName(_)) || trivially_empty(&lv) { return Err("trivial let".into()) }
                self.next();
                let (pat, rs) = self.declare_lv(&lv, false)?;
                let e = self.expr9()?;
                self.init_all();
                // a pattern that does not match is reported at the end of the statement
                let line = self.last_line();
                out.push(S { k: SK::Let(pat, rs, Some(e)), line });
            } else {
                let ok = match &lv { LV::Name(_) => true, LV::Terms(t) => t.iter().all(|x| matches!(x, LV::Name(_))), _ => false };
                if !ok { return Err("non trivial let".into()) }
                let (pat, rs) = self.declare_lv(&lv, true)?;
                out.push(S { k: SK::Let(pat, rs, None), line });
            }
            if !self.eat(",") { return Ok(()) }
        }
    }
    fn decorated(&mut self) -> Res<SK> {
        let mut decs = Vec::new();
        while self.eat("@") { decs.push(self.expression()?) }
        if !self.kw("fn") { return Err("expected fn".into()) }
        if self.op_at(1, "(") { return Err("decorated anonymous function".into()) }
        let (r, d) = self.named_fn()?;
        Ok(SK::Fn(r, d, decs))
    }
    fn last_line(&self) -> usize { self.t[..self.i].iter().rev().find(|t| t.t != T::Nl).map_or(1, |t| t.line) }
    fn named_fn(&mut self) -> Res<(R, Rc<FnDef>)> {
        self.next();
        let name = self.ident()?;
        let lvs = self.params(false)?; // default values are resolved before the function itself is declared
        let r = self.declare(&name, true)?;
        let d = self.fn_rest(&name, lvs)?;
        Ok((r, d))
    }
    /// (lvalue, default, is variadic)
    fn params(&mut self, allow_self: bool) -> Res<Vec<(LV, Option<E>, bool)>> {
        let mut out: Vec<(LV, Option<E>, bool)> = Vec::new();
        self.expect("(")?;
        if self.eat(")") { return Ok(out) }
        if allow_self && self.eat_kw("self") {
            out.push((LV::This, None, false));
            if self.eat(")") { return Ok(out) }
            self.expect(",")?;
            if self.eat(")") { return Ok(out) }
        }
        let mut variadic = false;
        loop {
            let lv = self.lvalue()?;
            if variadic { return Err("parameter after variadic".into()) }
            let mut default = None;
            let mut var = false;
            let lv = match lv { LV::VarName(n) => { var = true; variadic = true; LV::Name(n) } x => x };
            if self.eat("?") { if var { return Err("default on variadic".into()) } default = Some(self.e(K::Lit(V::Nil), 0)) }
            else if self.eat("=") {
                if var { return Err("default on variadic".into()) }
                self.fs.push(FS::default());
                self.scope += 1;
                default = Some(self.expr()?);
                self.scope -= 1;
                self.fs.pop();
            } else if var { default = Some(self.e(K::Vector(vec![]), 0)) }
            else if out.iter().any(|x| x.1.is_some()) { return Err("non-default after default".into()) }
            out.push((lv, default, var));
            if self.eat(")") { return Ok(out) }
            self.expect(",")?;
            if self.eat(")") { return Ok(out) }
        }
    }
    fn fn_rest(&mut self, name: &str, lvs: Vec<(LV, Option<E>, bool)>) -> Res<Rc<FnDef>> { let d = self.fn_decl(name, lvs)?; self.fn_body(&d.0, d.1)?; Ok(d.0) }
    fn fn_decl(&mut self, name: &str, lvs: Vec<(LV, Option<E>, bool)>) -> Res<(Rc<FnDef>, Vec<LV>)> {
        let shown = lvs.iter().map(|x| x.0.code()).collect();
        let variadic = lvs.iter().any(|x| x.2);
        let instance = matches!(lvs.first(), Some((LV::This, _, _)));
        let mut params = vec![];
        let mut pats = vec![];
        for (lv, default, _) in lvs { params.push(Param { pat: Pat::Empty, slots: vec![], default }); pats.push(lv) }
        let d = mkdef(name.into(), params, shown, variadic, instance);
        d.line.set(self.line());
        Ok((d, pats))
    }
    fn fn_body(&mut self, d: &Rc<FnDef>, pats: Vec<LV>) -> Res<()> {
        self.fs.push(FS::default());
        self.scope += 1;
        let mut single = vec![];
        for lv in &pats {
            match lv {
                LV::This => { let fs = self.fs.last_mut().unwrap(); fs.vars.push(Var { name: "self".into(), scope: self.scope, init: true, slot: fs.nslots, global: false }); let s = fs.nslots; fs.nslots += 1; single.push(Some((Pat::Name(R::Local(s)), vec![s]))) }
                LV::Name(_) => { let (p, rs) = self.declare_lv(lv, true)?; single.push(Some((p, slots(&rs)))) }
                _ => single.push(None)
            }
        }
        for (i, lv) in pats.iter().enumerate() { if single[i].is_none() { let (p, rs) = self.declare_lv(lv, true)?; single[i] = Some((p, slots(&rs))) } }
        for (i, x) in single.into_iter().enumerate() { let (p, s) = x.unwrap(); let mut ps = d.params.borrow_mut(); ps[i].pat = p; ps[i].slots = s }
        self.scope += 1;
        if self.eat("{") {
            let b = self.stmts()?;
            d.end_line.set(self.line());
            self.expect("}")?;
            d.value.set(value_block(&b));
            *d.body.borrow_mut() = b;
        } else if self.eat("->") {
            let e = self.expression()?;
            let line = e.line;
            d.value.set(true);
            *d.body.borrow_mut() = vec![S { k: SK::Expr(e), line }];
        } else { return Err(format!("expected function body line {}", self.line())) }
        self.scope -= 2;
        let fs = self.fs.pop().unwrap();
        d.nslots.set(fs.nslots);
        Ok(())
    }
    fn type_(&mut self, module: bool) -> Res<SK> {
        self.next();
        if self.scope != 0 || self.depth() != 0 || self.module.is_some() { return Err("type not in global scope".into()) }
        let name = self.ident()?;
        let r = self.declare(&name, true)?;
        let mut fields: Vec<Rc<str>> = vec![];
        if !module {
            self.expect("(")?;
            loop {
                match self.peek().clone() {
                    T::Id(n) => { self.next(); if fields.iter().any(|f| **f == *n) { return Err("duplicate field".into()) } self.fields.insert(n.clone()); fields.push(Rc::from(n)); self.eat(","); }
                    T::Op(")") => { self.next(); break }
                    _ => return Err("expected field".into())
                }
            }
        }
        self.module = Some(Module { struct_: !module, fields: fields.clone(), methods: vec![] });
        if self.eat("{") {
            loop {
                if self.eat("}") { break }
                if !self.eat_kw("fn") { return Err("expected fn in type".into()) }
                let n = self.ident()?;
                let lvs = self.params(!module)?;
                if fields.iter().any(|f| **f == *n) || self.module.as_ref().unwrap().methods.iter().any(|m| m.0 == n) { return Err("duplicate method".into()) }
                self.fields.insert(n.clone());
                let (d, pats) = self.fn_decl(&n, lvs)?;
                d.method.set(true);
                self.module.as_mut().unwrap().methods.push((n.clone(), d.clone()));
                self.bind_late(&n, R::Method(d.clone()), true)?;
                self.fn_body(&d, pats)?;
            }
        }
        let m = self.module.take().unwrap();
        for l in &mut self.late { l.module = false }
        let ty = Rc::new(TypeV { id: self.next_type, name: Rc::from(name), fields, module, methods: RefCell::new(m.methods.into_iter().map(|(n, d)| { let i = d.instance; (Rc::from(n), super::interp::method_value(&d), i) }).collect()) });
        self.next_type += 1;
        self.types.push(ty.clone());
        Ok(SK::Type(r, ty))
    }

    // patterns
    fn lvalue(&mut self) -> Res<LV> {
        match self.peek().clone() {
            T::Id(n) => { self.next(); Ok(LV::Name(n)) }
            T::Op("_") => { self.next(); Ok(LV::Empty) }
            T::Op("*") => { self.next(); if self.eat("_") { Ok(LV::VarEmpty) } else { Ok(LV::VarName(self.ident()?)) } }
            T::Op("(") => { self.next(); let t = self.lvalue_terms()?; self.expect(")")?; Ok(LV::Terms(t)) }
            t => Err(format!("expected pattern, got {t:?}"))
        }
    }
    fn lvalue_terms(&mut self) -> Res<Vec<LV>> {
        let mut t = vec![];
        let mut var = false;
        loop {
            let x = self.lvalue()?;
            if x.variadic() { if var { return Err("multiple variadics".into()) } var = true }
            t.push(x);
            if !self.eat(",") { return Ok(t) }
        }
    }
    fn bare_lvalue(&mut self) -> Res<LV> {
        let mut t = self.lvalue_terms()?;
        if t.len() == 1 { Ok(match t.pop().unwrap() { x @ LV::Terms(_) => LV::Terms(vec![x]), x => x }) } else { Ok(LV::Terms(t)) }
    }
    fn declare_lv(&mut self, lv: &LV, init: bool) -> Res<(Pat, Vec<R>)> {
        fn go(p: &mut P, lv: &LV, init: bool, rs: &mut Vec<R>) -> Res<Pat> {
            Ok(match lv {
                LV::Empty => Pat::Empty, LV::VarEmpty => Pat::VarEmpty, LV::This => return Err("self".into()),
                LV::Name(n) => { let r = p.declare(n, init)?; rs.push(r.clone()); Pat::Name(r) }
                LV::VarName(n) => { let r = p.declare(n, init)?; rs.push(r.clone()); Pat::VarName(r) }
                LV::Terms(t) => { let mut v = vec![]; for x in t { v.push(go(p, x, init, rs)?) } Pat::Terms(v) }
            })
        }
        let mut rs = vec![];
        let p = go(self, lv, init, &mut rs)?;
        Ok((p, rs))
    }

    // expressions
    fn expression(&mut self) -> Res<E> { self.expr11(false) }
    fn expr(&mut self) -> Res<E> { let e = self.expr11(true)?; Ok(e) }
    fn expr11(&mut self, comma: bool) -> Res<E> {
        let lhs = if comma { self.expr9()? } else { self.expr10()? };
        let line = self.line();
        if self.eat("=") {
            let rhs = self.expr11(comma)?;
            let k = match lhs.k {
                K::Comma(t, _, bare) => {
                    let mut t = self.pat_terms(t)?;
                    if !bare { t = vec![Pat::Terms(t)] }
                    let t = Pat::Terms(t);
                    if pat_trivial(&t) { return Err("trivial pattern".into()) }
                    let line = self.last_line();
                    return Ok(self.e(K::PatAssign(Box::new(t), Box::new(rhs)), line))
                }
                _ => K::Assign(Box::new(self.target(lhs)?), Box::new(rhs)),
            };
            return Ok(self.e(k, line))
        }
        let op = match self.peek() {
            T::Op("+=") => AOp::Bin(Op::Add), T::Op("-=") => AOp::Bin(Op::Sub), T::Op("*=") => AOp::Bin(Op::Mul), T::Op("/=") => AOp::Bin(Op::Div),
            T::Op("&=") => AOp::Bin(Op::And), T::Op("|=") => AOp::Bin(Op::Or), T::Op("^=") => AOp::Bin(Op::Xor), T::Op("<<=") => AOp::Bin(Op::Shl), T::Op(">>=") => AOp::Bin(Op::Shr),
            T::Op("%=") => AOp::Bin(Op::Mod), T::Op("**=") => AOp::Bin(Op::Pow), T::Op(".=") => AOp::Compose,
            T::Id(n) if n == "max" && self.op_at(1, "=") => { self.next(); AOp::Bin(Op::Max) }
            T::Id(n) if n == "min" && self.op_at(1, "=") => { self.next(); AOp::Bin(Op::Min) }
            _ => return Ok(lhs),
        };
        self.next();
        let rhs = self.expr11(comma)?;
        let t = self.target(lhs)?;
        let k = K::OpAssign(Box::new(t), op, Box::new(rhs));
        Ok(self.e(k, line))
    }
    fn target(&mut self, e: E) -> Res<Target> {
        Ok(match e.k {
            K::Var(R::Native(_)) => return Err("assignment to native".into()),
            K::Var(r) => { self.mark_store(&r)?; match r { R::SelfField(t, f) => { let l = e.line; Target::Field(self.e(K::Var(*t), l), f) } r => Target::Var(r) } }
            K::Index(a, i) => Target::Index(*a, *i),
            K::Get(a, f) => Target::Field(*a, f),
            _ => return Err("invalid assignment target".into()),
        })
    }
    fn mark_store(&mut self, r: &R) -> Res<()> {
        match r {
            R::Late(c) => {
                let mut bad = false;
                for l in &mut self.late { if Rc::ptr_eq(&l.cell, c) { l.loads = false } }
                if let LateR::To(R::Method(_) | R::SelfMethod(..)) = &*c.borrow() { bad = true }
                if bad { Err("assignment to method".into()) } else { Ok(()) }
            }
            R::Method(_) | R::SelfMethod(..) | R::Native(_) => Err("invalid target".into()),
            _ => Ok(())
        }
    }
    fn pat_terms(&mut self, t: Args) -> Res<Vec<Pat>> {
        let mut v = vec![];
        for (x, un) in t {
            if un { return Err("unroll in pattern".into()) }
            v.push(self.pat_term(x)?);
        }
        if matches!(v[..], [Pat::VarName(_)]) { return Err("lone variadic".into()) }
        if v.iter().filter(|p| matches!(p, Pat::VarEmpty | Pat::VarName(_))).count() > 1 { return Err("multiple variadics".into()) }
        Ok(v)
    }
    fn pat_term(&mut self, x: E) -> Res<Pat> {
        let var = |p: &mut P, r: R| -> Res<Pat> { p.mark_store(&r)?; if matches!(r, R::SelfField(..)) { value::unspec("variadic self field") } if matches!(r, R::Native(_)) { return Err("native target".into()) } Ok(Pat::VarName(r)) };
        Ok(match x.k {
            K::Comma(t, ..) => Pat::Terms(self.pat_terms(t)?),
            K::Under => { self.unders -= 1; Pat::Empty }
            K::VarUnder => { self.unders -= 1; Pat::VarEmpty }
            K::VarName(r) => { self.unders -= 1; var(self, r)? }
            K::Call(f, mut args) if matches!(f.k, K::Nat(n) if n.name == "operator*") && args.len() == 1 && !args[0].1 && matches!(args[0].0.k, K::Under | K::Var(_)) => {
                match args.pop().unwrap().0.k { K::Under => { self.unders -= 1; Pat::VarEmpty } K::Var(r) => var(self, r)?, _ => unreachable!() }
            }
            k => match self.target(E { k, line: x.line })? { Target::Var(r) => Pat::Name(r), Target::Index(a, i) => Pat::Index(a, i), Target::Field(a, f) => Pat::Field(a, f) }
        })
    }
    fn expr10(&mut self) -> Res<E> {
        let first = self.expr9()?;
        let mut v = vec![first];
        while self.op(",") && !self.op_at(1, ")") && !self.op_at(1, "=") { self.next(); v.push(self.expr7()?) }
        if v.len() == 1 { Ok(v.pop().unwrap()) } else {
            let line = v[0].line;
            Ok(self.e(K::Comma(v.into_iter().map(|e| (e, false)).collect(), true, true), line))
        }
    }
    fn right_op(&self, n: usize) -> bool { self.op_at(n, ")") }
    fn expr9(&mut self) -> Res<E> {
        let mut e = self.expr8()?;
        loop {
            let and = self.kw("and");
            if !(and || self.kw("or")) || self.right_op(1) { return Ok(e) }
            let line = self.line();
            self.next();
            let r = self.expr8()?;
            let k = if and { K::And(Box::new(e), Box::new(r)) } else { K::Or(Box::new(e), Box::new(r)) };
            e = self.e(k, line);
        }
    }
    fn expr8(&mut self) -> Res<E> {
        let e = self.expr7()?;
        let mut ops = vec![];
        loop {
            let op = match self.peek() { T::Op("<") => Op::Lt, T::Op("<=") => Op::Le, T::Op(">") => Op::Gt, T::Op(">=") => Op::Ge, T::Op("==") => Op::Eq, T::Op("!=") => Op::Ne, _ => break };
            if self.right_op(1) { break }
            let line = self.line();
            self.next();
            ops.push((op, line, self.expr7()?));
        }
        if ops.is_empty() { return Ok(e) }
        let line = ops[0].1;
        Ok(self.e(K::Cmp(Box::new(e), ops), line))
    }
    fn expr7(&mut self) -> Res<E> {
        let mut e = self.expr6()?;
        while self.op(".") { let line = self.line(); self.next(); let r = self.expr6()?; e = self.e(K::Compose(Box::new(e), Box::new(r)), line) }
        Ok(e)
    }
    fn binlevel(&mut self, next: fn(&mut P) -> Res<E>, f: fn(&P) -> Option<(Op, bool)>) -> Res<E> {
        let mut e = next(self)?;
        while let Some((op, long)) = f(self) {
            if self.right_op(if long { 2 } else { 1 }) { break }
            let line = self.line();
            self.next();
            if long { self.next(); }
            let r = next(self)?;
            e = self.e(K::Bin(op, Box::new(e), Box::new(r)), line);
        }
        Ok(e)
    }
    fn expr6(&mut self) -> Res<E> { self.binlevel(P::expr5, |p| match p.peek() { T::Op("&") => Some((Op::And, false)), T::Op("|") => Some((Op::Or, false)), T::Op("^") => Some((Op::Xor, false)), _ => None }) }
    fn expr5(&mut self) -> Res<E> { self.binlevel(P::expr4, |p| match p.peek() { T::Op("<<") => Some((Op::Shl, false)), T::Op(">>") => Some((Op::Shr, false)), _ => None }) }
    fn expr4(&mut self) -> Res<E> { self.binlevel(P::expr3, |p| match p.peek() { T::Op("+") => Some((Op::Add, false)), T::Op("-") => Some((Op::Sub, false)), _ => None }) }
    fn expr3(&mut self) -> Res<E> { self.binlevel(P::expr2, |p| p.op3()) }
    fn op3(&self) -> Option<(Op, bool)> {
        match self.peek() {
            T::Op("*") => Some((Op::Mul, false)), T::Op("/") => Some((Op::Div, false)), T::Op("%") => Some((Op::Mod, false)), T::Op("**") => Some((Op::Pow, false)),
            T::Kw("is") => if self.kw_at(1, "not") { Some((Op::IsNot, true)) } else { Some((Op::Is, false)) },
            T::Kw("in") => Some((Op::In, false)),
            T::Kw("not") if self.kw_at(1, "in") => Some((Op::NotIn, true)),
            _ => None
        }
    }
    fn expr2(&mut self) -> Res<E> {
        let mut st = vec![];
        loop {
            let op = match self.peek() { T::Op("-") => Op::Neg, T::Op("!") => Op::Not, T::Kw("not") => Op::LNot, _ => break };
            st.push((op, self.line()));
            self.next();
        }
        let t = self.terminal()?;
        let mut e = self.suffix(t)?;
        for (op, line) in st.into_iter().rev() { e = self.e(K::Un(op, Box::new(e)), line) }
        Ok(e)
    }
    fn suffix(&mut self, mut e: E) -> Res<E> {
        loop {
            let line = self.line();
            let same = self.t[self.i].t.clone();
            match same {
                T::Op("(") => {
                    let args = if self.op_at(1, ")") { self.next(); self.next(); vec![] } else { self.next(); self.comma_args(")")?.0 };
                    e = self.e(K::Call(Box::new(e), args), line);
                }
                T::Op("[") => {
                    self.next();
                    let nil = |p: &mut P| p.e(K::Lit(V::Nil), line);
                    let a = if self.op(":") { nil(self) } else { self.expr()? };
                    if self.eat("]") { e = self.e(K::Index(Box::new(e), Box::new(a)), line); continue }
                    self.expect(":")?;
                    if self.eat("]") { let n = nil(self); e = self.e(K::SliceOf(Box::new([e, a, n]), None), line); continue }
                    let b = if self.op(":") { nil(self) } else { self.expr()? };
                    if self.eat("]") { e = self.e(K::SliceOf(Box::new([e, a, b]), None), line); continue }
                    self.expect(":")?;
                    let c = if self.op("]") { nil(self) } else { self.expr()? };
                    self.expect("]")?;
                    e = self.e(K::SliceOf(Box::new([e, a, b]), Some(Box::new(c))), line);
                }
                T::Id(_) if !self.op_at(1, "=") => e = self.bare(e)?,
                T::Kw("fn") if self.op_at(1, "(") => e = self.bare(e)?,
                T::Kw("nil" | "true" | "false" | "exit" | "if") | T::Int(_) | T::Cplx(_) | T::Str(_) | T::Op("@") => e = self.bare(e)?,
                _ => {
                    if !self.op("->") { return Ok(e) }
                    let line = self.line();
                    self.next();
                    let f = self.field()?;
                    e = self.e(K::Get(Box::new(e), f), line);
                }
            }
        }
    }
    fn bare(&mut self, f: E) -> Res<E> { let line = self.line(); let a = self.terminal()?; Ok(self.e(K::Call(Box::new(f), vec![(a, false)]), line)) }
    fn then_else(&mut self, c: E, line: usize) -> Res<E> {
        if !self.eat_kw("then") { return Err("expected then".into()) }
        let a = self.expr()?;
        let b = if self.kw("elif") { let l = self.line(); self.next(); let c = self.expr()?; self.then_else(c, l)? } else { if !self.eat_kw("else") { return Err("expected else".into()) } self.expr()? };
        Ok(self.e(K::If(Box::new(c), Box::new(a), Box::new(b)), line))
    }
    fn terminal(&mut self) -> Res<E> {
        let line = self.line();
        let k = match self.peek().clone() {
            T::Kw("nil") => { self.next(); K::Lit(V::Nil) }
            T::Kw("true") => { self.next(); K::Lit(V::Bool(true)) }
            T::Kw("false") => { self.next(); K::Lit(V::Bool(false)) }
            T::Kw("exit") => { self.next(); K::Exit }
            T::Int(i) => { self.next(); K::Lit(value::int(i)) }
            T::Cplx(i) => { self.next(); K::Lit(value::cplx(0, i)) }
            T::Str(x) => { self.next(); K::Lit(value::s(&x)) }
            T::Op("_") => { self.next(); K::Under }
            T::Op("*") => { self.next(); if self.eat("_") { K::VarUnder } else { let n = self.ident()?; K::VarName(self.resolve(&n)?) } }
            T::Id(n) => { self.next(); match self.resolve(&n)? { R::Native(n) => K::Nat(n), r => K::Var(r) } }
            T::Kw("self") => { self.next(); K::This(self.resolve_var("self").ok_or("undeclared self")?) }
            T::Op("(") => {
                self.next();
                let (args, explicit) = self.comma_args(")")?;
                K::Comma(args, explicit, false)
            }
            T::Op("[") => {
                self.next();
                if self.eat("]") { K::List(vec![]) } else if self.op(":") { let n = self.e(K::Lit(V::Nil), line); return self.slice_lit(n, line) } else {
                    let a = self.arg()?;
                    if self.op(":") { if a.1 { return Err("unroll in slice".into()) } return self.slice_lit(a.0, line) }
                    let mut v = vec![a];
                    loop {
                        if self.eat("]") { break }
                        self.expect(",")?;
                        if self.eat("]") { break }
                        v.push(self.arg()?);
                    }
                    K::List(v)
                }
            }
            T::Op("{") => {
                self.next();
                if self.eat("}") { K::Set(vec![]) } else {
                    let mut is_dict = None;
                    let mut v: Vec<(E, Option<E>, bool)> = vec![];
                    loop {
                        let (a, un) = self.arg()?;
                        let mut b = None;
                        if !un {
                            match is_dict {
                                Some(true) => { self.expect(":")?; b = Some(self.single()?) }
                                Some(false) => {}
                                None => { is_dict = Some(self.op(":")); if self.eat(":") { b = Some(self.single()?) } }
                            }
                        }
                        v.push((a, b, un));
                        if self.eat("}") { break }
                        self.expect(",")?;
                        if self.eat("}") { break }
                    }
                    if is_dict == Some(true) { K::Dict(v.into_iter().map(|(a, b, _)| (a, b)).collect()) } else { K::Set(v.into_iter().map(|(a, _, u)| (a, u)).collect()) }
                }
            }
            T::Kw("fn") => { self.next(); let lvs = self.params(false)?; K::Fn(self.fn_rest("_", lvs)?) }
            T::Kw("if") => { self.next(); let c = self.expr()?; return self.then_else(c, line) }
            t => return Err(format!("expected expression, got {t:?} line {}", self.line())),
        };
        Ok(self.e(k, line))
    }
    fn slice_lit(&mut self, a: E, line: usize) -> Res<E> {
        self.expect(":")?;
        let nil = |p: &mut P| p.e(K::Lit(V::Nil), line);
        if self.eat("]") { let b = nil(self); return Ok(self.e(K::Slice(Box::new([a, b]), None), line)) }
        let b = if self.op(":") { nil(self) } else { self.single()? };
        if self.eat("]") { return Ok(self.e(K::Slice(Box::new([a, b]), None), line)) }
        self.expect(":")?;
        let c = if self.op("]") { nil(self) } else { self.single()? };
        self.expect("]")?;
        Ok(self.e(K::Slice(Box::new([a, b]), Some(Box::new(c))), line))
    }
    fn single(&mut self) -> Res<E> { let a = self.arg()?; if a.1 { return Err("unroll of a single value".into()) } Ok(a.0) }
    fn comma_args(&mut self, close: &str) -> Res<(Args, bool)> {
        let mut v = vec![self.arg()?];
        let mut explicit = false;
        loop {
            if self.eat(close) { break }
            self.expect(",")?;
            explicit = true;
            if self.eat(close) { break }
            v.push(self.arg()?);
        }
        Ok((v, explicit))
    }
    fn closes(&self, n: usize) -> bool { self.op_at(n, ",") || self.op_at(n, ")") || self.op_at(n, "}") || self.op_at(n, "]") }
    fn op_name(&self, left: bool) -> Option<(&'static str, bool)> {
        Some(match self.peek() {
            T::Op("*") => ("operator*", false), T::Op("/") => ("operator/", false), T::Op("**") => ("operator**", false), T::Op("%") => ("operator%", false),
            T::Kw("in") => ("operatorin", false),
            T::Kw("not") if self.kw_at(1, "in") => ("operatornotin", true),
            T::Kw("is") => if self.kw_at(1, "not") { ("operatorisnot", true) } else { ("operatoris", false) },
            T::Op("+") => ("operator+", false), T::Op("<<") => ("operator<<", false), T::Op(">>") => ("operator>>", false),
            T::Op("&") => ("operator&", false), T::Op("|") => ("operator|", false), T::Op("^") => ("operator^", false),
            T::Op("<") => ("operator<", false), T::Op("<=") => ("operator<=", false), T::Op(">") => ("operator>", false), T::Op(">=") => ("operator>=", false),
            T::Op("==") => ("operator==", false), T::Op("!=") => ("operator!=", false),
            T::Op("-") if !left => return None,
            _ => return None
        })
    }
    fn arg(&mut self) -> Res<(E, bool)> {
        let line = self.line();
        let un = match self.peek() { T::Op("-") => Some("operator-"), T::Op("!") => Some("operator!"), T::Kw("not") if !self.kw_at(1, "in") => Some("operatornot"), _ => None };
        if let Some(u) = un { if self.closes(1) { self.next(); let n = find_op(u)?; return Ok((self.e(K::Nat(n), line), false)) } }
        if self.op("->") { self.next(); let f = self.field()?; return Ok((self.e(K::FieldFn(f), line), false)) }
        if self.eat("...") { let e = self.expr()?; return Ok((self.e(K::At(Box::new(e)), line), true)) }
        if let Some((name, long)) = self.op_name(true) {
            self.next();
            if long { self.next(); }
            if self.closes(0) { let n = find_op(name)?; return Ok((self.e(K::Nat(n), line), false)) }
            let sw = find_op(swap(name))?;
            let e = self.expr()?;
            let f = self.e(K::Nat(sw), line);
            return Ok((self.e(K::Call(Box::new(f), vec![(e, false)]), line), false))
        }
        let e = self.expr()?;
        if let Some((name, long)) = self.op_name(false) {
            if self.closes(if long { 2 } else { 1 }) {
                self.next();
                if long { self.next(); }
                let n = find_op(name)?;
                let f = self.e(K::Nat(n), line);
                return Ok((self.e(K::Call(Box::new(f), vec![(e, false)]), line), false))
            }
        }
        Ok((e, false))
    }
}

fn slots(rs: &[R]) -> Vec<usize> { rs.iter().filter_map(|r| if let R::Local(s) = r { Some(*s) } else { None }).collect() }
fn trivially_empty(lv: &LV) -> bool { match lv { LV::Empty | LV::VarEmpty => true, LV::Terms(t) => t.iter().all(trivially_empty), _ => false } }
fn pat_trivial(p: &Pat) -> bool { match p { Pat::Empty | Pat::VarEmpty => true, Pat::Terms(t) => t.iter().all(pat_trivial), _ => false } }
fn value_block(b: &[S]) -> bool { matches!(b.last(), Some(S { k: SK::Expr(_), .. })) }
fn find_op(n: &str) -> Res<&'static NInfo> { super::natives::find_hidden(n).ok_or_else(|| format!("no op {n}")) }
fn swap(n: &'static str) -> &'static str {
    match n {
        "operator*" | "operator&" | "operator|" | "operator^" | "operator==" | "operator!=" => n,
        n => super::natives::swapped(n)
    }
}
