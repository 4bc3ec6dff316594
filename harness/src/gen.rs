//! Generator of whole programs. Weights steer it towards the features a property is about.
use std::rc::Rc;
use crate::rng::Rng;

macro_rules! ln { ($g:expr, ($($t:tt)*)) => {{ let text = format!($($t)*); $g.line(&text) }} }

#[derive(Clone, Copy)]
pub struct W {
    pub let_: u32, pub assign: u32, pub print: u32, pub if_: u32, pub loop_: u32, pub func: u32, pub block: u32, pub clos: u32, pub expr: u32, pub jump: u32, pub pat: u32, pub st: u32, pub assert: u32, pub exit: u32,
    /// percentages
    pub tracer: u32, pub call: u32, pub errors: u32, pub redundant: u32, pub layout: u32, pub shadow: u32, pub calls: u32,
    pub depth: usize, pub budget: i32, pub structs: usize, pub nest: usize,
}
pub const BASE: W = W { let_: 12, assign: 14, print: 10, if_: 8, loop_: 9, func: 7, block: 4, clos: 6, expr: 8, jump: 4, pat: 6, st: 5, assert: 2, exit: 0, tracer: 0, call: 14, errors: 1, redundant: 5, layout: 5, shadow: 35, calls: 10, depth: 3, budget: 30, structs: 1, nest: 4 };

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Int, Bool, Str, List, Vec2, Dict, Set, Fns, Fn(Rc<Sig>), St(usize) }
#[derive(Clone, PartialEq, Debug)]
pub enum Pk { Int, Pair, List, Fn0, Fn1 }
#[derive(PartialEq, Debug)]
pub struct Sig { pub req: Vec<Pk>, pub opt: Vec<bool>, pub var: bool, pub ret: Ty }
#[derive(Clone)]
struct Vd { n: String, t: Ty, w: bool }
#[derive(Default)]
struct F { scopes: Vec<Vec<Vd>>, loops: Vec<bool>, rec: Option<(String, Rc<Sig>)>, this: Option<usize>, ret: Option<Ty> }
#[derive(Clone)]
struct St { name: String, fields: Vec<(String, Ty)>, methods: Vec<(String, Rc<Sig>, bool)>, module: bool }

pub struct G<'a> { pub r: &'a mut Rng, pub w: W, out: String, ind: usize, fs: Vec<F>, sts: Vec<St>, budget: i32, uniq: u32, tr: u32, forward: Vec<(String, Rc<Sig>)>, pub one_line: bool, types_open: usize }

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "x", "y", "z"];
const FNAMES: &[&str] = &["f", "g", "h", "k", "foo", "bar"];
const STRS: &[&str] = &["", "a", "b", "ab", "xyz", "hello", "A b", "é", "long string number one", "long string number two"];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, w: W) -> G<'a> { G { r, w, out: String::new(), ind: 0, fs: vec![F { scopes: vec![vec![]], ..F::default() }], sts: vec![], budget: w.budget, uniq: 0, tr: 0, forward: vec![], one_line: false, types_open: 0 } }

    // ---- names ----
    fn visible(&self) -> Vec<Vd> {
        let mut seen = vec![];
        let mut r = vec![];
        for f in self.fs.iter().rev() { for s in f.scopes.iter().rev() { for v in s.iter().rev() { if !seen.contains(&v.n) { seen.push(v.n.clone()); r.push(v.clone()) } } } }
        r
    }
    fn of(&self, t: &Ty) -> Vec<Vd> { self.visible().into_iter().filter(|v| v.t == *t).collect() }
    fn here(&mut self) -> &mut Vec<Vd> { self.fs.last_mut().unwrap().scopes.last_mut().unwrap() }
    fn declare(&mut self, n: &str, t: Ty, w: bool) { let n = n.to_string(); self.here().push(Vd { n, t, w }) }
    fn fresh(&mut self) -> String {
        for _ in 0..8 {
            let n = self.r.pick(NAMES).to_string();
            if self.here().iter().any(|v| v.n == n) { continue }
            let shadowed = self.visible().iter().any(|v| v.n == n);
            let p = self.w.shadow;
            if shadowed && !self.r.p(p) { continue }
            return n
        }
        self.unique("v")
    }
    fn fresh_fn(&mut self) -> String {
        let n = self.r.pick(FNAMES).to_string();
        if self.here().iter().any(|v| v.n == n) { return self.unique("f") }
        n
    }
    fn unique(&mut self, p: &str) -> String { self.uniq += 1; format!("{p}{}", self.uniq) }

    // ---- text ----
    fn line(&mut self, s: &str) {
        let k = self.w.layout;
        if !self.one_line && self.r.p(k) && self.ind > 0 { self.out.push_str(&"\t".repeat(self.ind)) } else { self.out.push_str(&"    ".repeat(self.ind)) }
        self.out.push_str(s);
        match self.r.n(60) { 0 if k > 0 => self.out.push_str(" // note"), 1 if k > 0 && !s.ends_with(['{', '}']) && !s.starts_with('@') => self.out.push_str(" ;"), 2 if k > 0 && !self.one_line => self.out.push_str("\n"), _ => {} }
        self.out.push('\n');
    }
    fn scope(&mut self, f: impl FnOnce(&mut Self)) {
        self.fs.last_mut().unwrap().scopes.push(vec![]);
        self.ind += 1;
        f(self);
        self.ind -= 1;
        self.fs.last_mut().unwrap().scopes.pop();
    }

    // ---- expressions: text and precedence level ----
    fn wrap(&mut self, (s, l): (String, u8), max: u8) -> String {
        let p = self.w.redundant;
        if l > max || (l > 1 && self.r.p(p)) { format!("({s})") } else { s }
    }
    pub fn e(&mut self, t: &Ty, d: usize, max: u8) -> String {
        let x = self.e0(t, d);
        let p = self.w.tracer;
        let x = if p > 0 && self.r.p(p) { self.tr += 1; let k = self.tr; (format!("t({k}, {})", x.0), 1) } else { x };
        self.wrap(x, max)
    }
    fn lit(&mut self) -> String {
        match self.r.n(12) { 0 => "0".into(), 1 => self.r.range(-9, -1).to_string(), 2 => self.r.range(10, 1000).to_string(), _ => self.r.range(1, 9).to_string() }
    }
    fn e0(&mut self, t: &Ty, d: usize) -> (String, u8) {
        let leaf = d == 0;
        let vs = self.of(t);
        if !vs.is_empty() && self.r.p(if leaf { 75 } else { 30 }) { return (self.r.pick(&vs).n.clone(), 1) }
        let pe = self.w.errors;
        if pe > 0 && self.r.n(1000) < pe as usize { return self.bad(d) }
        let pc = self.w.call;
        if !leaf && self.r.p(pc) { if let Some(x) = self.call_of(t, d - 1) { return x } }
        if !leaf && self.r.p(7) { let c = self.e(&Ty::Bool, d - 1, 9); let a = self.e(t, d - 1, 9); let b = self.e(t, d - 1, 9); return (format!("if {c} then {a} else {b}"), 12) }
        if !leaf && self.r.p(4) && !vs.is_empty() {
            let v: Vec<_> = vs.iter().filter(|v| v.w).collect();
            if !v.is_empty() { let n = v[self.r.n(v.len())].n.clone(); let x = self.e(t, d - 1, 9); return (format!("{n} = {x}"), 12) }
        }
        if let (Some(i), true) = (self.fs.last().unwrap().this, self.r.p(25)) {
            let f: Vec<_> = self.sts[i].fields.iter().filter(|f| f.1 == *t).map(|f| f.0.clone()).collect();
            if !f.is_empty() { let n = self.r.pick(&f).clone(); return (if self.r.p(50) && !self.visible().iter().any(|v| v.n == n) { n } else { format!("self->{n}") }, 1) }
        }
        if !leaf && self.r.p(8) {
            // a field of some instance
            let mut c = vec![];
            for v in self.visible() { if let Ty::St(i) = v.t { for f in &self.sts[i].fields { if f.1 == *t { c.push(format!("{}->{}", v.n, f.0)) } } } }
            if !c.is_empty() { return (self.r.pick(&c).clone(), 1) }
        }
        match t {
            Ty::Int => {
                if leaf { return (self.lit(), 1) }
                match self.r.n(22) {
                    0..=8 => {
                        let (op, l) = *self.r.pick(&[("+", 4), ("-", 4), ("*", 3), ("+", 4), ("-", 4), ("&", 6), ("|", 6), ("^", 6), ("%", 3), ("/", 3), ("<<", 5), (">>", 5), ("**", 3)]);
                        let a = self.e(&Ty::Int, d - 1, l);
                        let b = match op { "/" | "%" => self.r.range(1, 9).to_string(), "<<" | ">>" => self.r.range(0, 4).to_string(), "**" => self.r.range(0, 3).to_string(), _ => self.e(&Ty::Int, d - 1, l - 1) };
                        (format!("{a} {op} {b}"), l)
                    }
                    9 => { let a = self.e(&Ty::Int, d - 1, 1); if a.starts_with('-') { (format!("-({a})"), 2) } else { (format!("-{a}"), 2) } }
                    10 => { let a = self.e(&Ty::List, d - 1, 11); (format!("{}({a})", self.r.pick(&["len", "sum"])), 1) }
                    11 => { let a = self.e(&Ty::List, d - 1, 7); (format!("{a} . {}", self.r.pick(&["len", "sum"])), 7) }
                    12 => { let a = self.e(&Ty::Int, d - 1, 11); let b = self.e(&Ty::Int, d - 1, 11); (format!("{}({a}, {b})", self.r.pick(&["max", "min"])), 1) }
                    13 => { let a = self.e(&Ty::Bool, d - 1, 11); (format!("int({a})"), 1) }
                    14 => { let v = self.of(&Ty::List); if v.is_empty() { return (self.lit(), 1) } let n = self.r.pick(&v).n.clone(); let i = self.r.range(-1, 1); (format!("(if {n} then {n}[{i} % len({n})] else {})", self.r.n(9)), 1) }
                    15 => { let a = self.e(&Ty::Str, d - 1, 11); (format!("len({a})"), 1) }
                    16 => { let a = self.e(&Ty::Vec2, d - 1, 1); (format!("{a}[{}]", self.r.range(-2, 1)), 1) }
                    17 => { let v = self.of(&Ty::Fns); if v.is_empty() { return (self.lit(), 1) } let n = self.r.pick(&v).n.clone(); (format!("(if {n} then {n}[{}]() else {})", self.r.range(-1, 0), self.r.n(9)), 1) }
                    18 => { let a = self.e(&Ty::Int, d - 1, 9); let b = self.e(&Ty::Int, d - 1, 8); (format!("{a} {} {b}", self.r.pick(&["and", "or"])), 9) }
                    19 => { let v: Vec<_> = self.of(&Ty::Int).into_iter().filter(|v| v.w).collect(); if v.is_empty() { return (self.lit(), 1) } let n = self.r.pick(&v).n.clone(); let a = self.e(&Ty::Int, d - 1, 9); (format!("{n} {}= {a}", self.r.pick(&["+", "-", "|", "^", "&"])), 12) }
                    20 => { // immediately called function
                        let x = self.lambda(1, d - 1); let a = self.e(&Ty::Int, d - 1, 11); if self.r.p(50) { (format!("({x})({a})"), 1) } else { let a = self.e(&Ty::Int, d - 1, 7); (format!("{a} . ({x})"), 7) } }
                    _ => (self.lit(), 1)
                }
            }
            Ty::Bool => {
                if leaf { return ((*self.r.pick(&["true", "false"])).into(), 1) }
                match self.r.n(10) {
                    0..=3 => {
                        let n = if self.r.p(25) { 3 } else { 2 };
                        let mut s = self.e(&Ty::Int, d - 1, 7);
                        for _ in 1..n { let b = self.e(&Ty::Int, d - 1, 7); s += &format!(" {} {b}", self.r.pick(&["<", "<=", ">", ">=", "==", "!="])) }
                        (s, 8)
                    }
                    4 | 5 => { let a = self.e(&Ty::Bool, d - 1, 9); let b = self.e(&Ty::Bool, d - 1, 8); (format!("{a} {} {b}", self.r.pick(&["and", "or"])), 9) }
                    6 => { let a = self.e(&Ty::Bool, d - 1, 1); (format!("{}{a}", self.r.pick(&["not ", "!"])), 2) }
                    7 => { let a = self.e(&Ty::Int, d - 1, 3); let b = self.e(&Ty::List, d - 1, 2); (format!("{a} {} {b}", self.r.pick(&["in", "not in"])), 3) }
                    8 => { let t = self.r.pick(&[Ty::Int, Ty::Str, Ty::List, Ty::Bool]).clone(); let a = self.e(&t, d - 1, 3); (format!("{a} {} {}", self.r.pick(&["is", "is not"]), self.r.pick(&["int", "str", "list", "bool", "vector", "function", "iterable", "any"])), 3) }
                    _ => { let t = self.r.pick(&[Ty::Str, Ty::List, Ty::Vec2, Ty::Bool]).clone(); let a = self.e(&t, d - 1, 7); let b = self.e(&t, d - 1, 7); (format!("{a} {} {b}", self.r.pick(&["==", "!=", "<", ">="])), 8) }
                }
            }
            Ty::Str => {
                if leaf { return (format!("'{}'", self.r.pick(STRS)), 1) }
                match self.r.n(7) {
                    0 => { let a = self.e(&Ty::Str, d - 1, 4); let b = self.e(&Ty::Str, d - 1, 3); (format!("{a} + {b}"), 4) }
                    1 => { let a = self.e(&Ty::Int, d - 1, 11); (format!("str({a})"), 1) }
                    2 => { let a = self.e(&Ty::List, d - 1, 11); (format!("repr({a})"), 1) }
                    3 => { let a = self.e(&Ty::Int, d - 1, 2); (format!("'<%d>' % {a}"), 3) }
                    4 => { let a = self.e(&Ty::Str, d - 1, 1); (format!("{a}[{}:{}]", self.r.range(-2, 2), self.r.range(-2, 4)), 1) }
                    5 => { let a = self.e(&Ty::Str, d - 1, 3); (format!("{a} * {}", self.r.n(3)), 3) }
                    _ => (format!("'{}'", self.r.pick(STRS)), 1)
                }
            }
            Ty::List => {
                let n = self.r.n(4);
                if leaf || self.r.p(35) {
                    let v: Vec<String> = (0..n).map(|_| if self.r.p(10) && !leaf { let x = self.e(&Ty::List, d - 1, 11); format!("...{x}") } else { self.e(&Ty::Int, d.saturating_sub(1), 11) }).collect();
                    return (format!("[{}]", v.join(", ")), 1)
                }
                match self.r.n(9) {
                    0 => (format!("list(range({}))", self.r.n(5)), 1),
                    1 => { let a = self.e(&Ty::List, d - 1, 7); let f = self.lambda(1, d - 1); (format!("{a} . map({f})"), 7) }
                    2 => { let a = self.e(&Ty::List, d - 1, 7); (format!("{a} . filter(fn(x) -> x {} {})", self.r.pick(&[">", "<", "%"]), self.r.range(1, 5)), 7) }
                    3 => { let a = self.e(&Ty::List, d - 1, 7); (format!("{a} . {}", self.r.pick(&["sort", "reverse", "copy"])), 7) }
                    4 => { let a = self.e(&Ty::List, d - 1, 4); let b = self.e(&Ty::List, d - 1, 3); (format!("{a} + {b}"), 4) }
                    5 => { let a = self.e(&Ty::List, d - 1, 1); (format!("{a}[{}:{}]", self.r.range(-3, 3), ["", "2", "-1", "1"][self.r.n(4)]), 1) }
                    6 => { let a = self.e(&Ty::List, d - 1, 7); (format!("{a} . map({}{})", self.r.pick(&["+", "*", "-", "**", "<<"]), format!(" {}", self.r.n(4))), 7) }
                    7 => { let a = self.e(&Ty::List, d - 1, 7); let f = self.lambda(1, d - 1); (format!("{a} . map({f}) . filter(> {})", self.r.n(5)), 7) }
                    _ => { let f = self.lambda(1, d - 1); (format!("map({f}, range({}))  . list", self.r.n(4)), 7) }
                }
            }
            Ty::Vec2 => {
                if leaf || self.r.p(60) { let a = self.e(&Ty::Int, d.saturating_sub(1), 11); let b = self.e(&Ty::Int, d.saturating_sub(1), 11); return (format!("({a}, {b})"), 1) }
                match self.r.n(3) {
                    0 => { let a = self.e(&Ty::Vec2, d - 1, 4); let b = self.e(&Ty::Vec2, d - 1, 3); (format!("{a} {} {b}", self.r.pick(&["+", "-"])), 4) }
                    1 => { let a = self.e(&Ty::Vec2, d - 1, 3); let b = self.e(&Ty::Int, d - 1, 2); (format!("{a} * {b}"), 3) }
                    _ => { let a = self.e(&Ty::Vec2, d - 1, 11); (format!("vector({a})"), 1) }
                }
            }
            Ty::Dict => {
                let n = self.r.n(3);
                if n == 0 { return ("dict()".into(), 1) }
                let v: Vec<String> = (0..n).map(|_| { let k = self.e(&Ty::Int, d.saturating_sub(1), 9); let v = self.e(&Ty::Int, d.saturating_sub(1), 9); format!("{k}: {v}") }).collect();
                (format!("{{{}}}", v.join(", ")), 1)
            }
            Ty::Set => {
                let n = self.r.n(4);
                if n == 0 { return ("set()".into(), 1) }
                let v: Vec<String> = (0..n).map(|_| self.e(&Ty::Int, d.saturating_sub(1), 11)).collect();
                (format!("{{{}}}", v.join(", ")), 1)
            }
            Ty::Fns => { let n = self.r.n(3); let v: Vec<String> = (0..n).map(|_| self.lambda(0, d.saturating_sub(1))).collect(); (format!("[{}]", v.join(", ")), 1) }
            Ty::Fn(sig) => { if sig.req.len() == 1 && self.r.p(30) { return ((*self.r.pick(&["(+ 1)", "(* 2)", "(- 3)", "abs", "(2 -)", "(-)"])).into(), 1) } let n = sig.req.len(); (self.lambda(n, d.saturating_sub(1)), 12) }
            Ty::St(i) => {
                let s = self.sts[*i].clone();
                let a: Vec<String> = s.fields.iter().map(|f| self.e(&f.1, d.saturating_sub(1), 11)).collect();
                (format!("{}({})", s.name, a.join(", ")), 1)
            }
        }
    }
    /// an anonymous function of n int parameters returning an int
    fn lambda(&mut self, n: usize, d: usize) -> String {
        self.fs.push(F { scopes: vec![vec![]], ..F::default() });
        let mut ps = vec![];
        for _ in 0..n { let x = self.fresh(); self.declare(&x, Ty::Int, true); ps.push(x) }
        let d = d.min(2);
        let body = if self.r.p(25) && self.w.clos > 0 {
            let v: Vec<_> = self.visible().into_iter().filter(|v| v.t == Ty::Int && v.w).collect();
            if v.is_empty() { let e = self.e(&Ty::Int, d, 9); format!("-> {e}") }
            else { let x = self.r.pick(&v).n.clone(); let y = self.e(&Ty::Int, d.min(1), 9); let z = self.e(&Ty::Int, d.min(1), 9); format!("{{ {x} {}= {y} ; {z} }}", self.r.pick(&["", "+", "-"])) }
        } else { let e = self.e(&Ty::Int, d, 9); format!("-> {e}") };
        self.fs.pop();
        format!("fn({}) {body}", ps.join(", "))
    }
    fn bad(&mut self, d: usize) -> (String, u8) {
        let d = d.saturating_sub(1);
        match self.r.n(9) {
            0 => { let a = self.e(&Ty::Int, d, 4); (format!("{a} + 'x'"), 4) }
            1 => { let a = self.e(&Ty::Int, d, 3); (format!("{a} / 0"), 3) }
            2 => { let a = self.e(&Ty::List, d, 1); (format!("{a}[99]"), 1) }
            3 => { let a = self.e(&Ty::Int, d, 1); (format!("({a})()"), 1) }
            4 => ("nil + 1".into(), 4),
            5 => { let a = self.e(&Ty::Dict, d, 1); (format!("{a}['no']"), 1) }
            6 => { let a = self.e(&Ty::List, d, 2); (format!("(-{a})"), 1) }
            7 => { let a = self.e(&Ty::Int, d, 1); (format!("{a}->foo0"), 1) }
            _ => { let a = self.e(&Ty::Int, d, 7); (format!("{a} . len"), 7) }
        }
    }
    fn arg(&mut self, k: &Pk, d: usize) -> String {
        match k {
            Pk::Int => self.e(&Ty::Int, d, 11),
            Pk::Pair => if self.r.p(70) { self.e(&Ty::Vec2, d, 11) } else { let a = self.e(&Ty::Int, 0, 11); let b = self.e(&Ty::Int, 0, 11); format!("[{a}, {b}]") },
            Pk::List => self.e(&Ty::List, d, 11),
            Pk::Fn0 => self.lambda(0, d),
            Pk::Fn1 => { let k = self.e(&Ty::Fn(Rc::new(Sig { req: vec![Pk::Int], opt: vec![], var: false, ret: Ty::Int })), d, 11); k }
        }
    }
    fn args(&mut self, s: &Sig, d: usize) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        for k in &s.req { let x = self.arg(k, d); a.push(x) }
        let extra = if self.r.p(60) { self.r.n(s.opt.len() + 1 + if s.var { 3 } else { 0 }) } else { 0 };
        for _ in 0..extra { let x = self.e(&Ty::Int, d, 11); a.push(x) }
        a
    }
    /// all the ways of applying `f` to the arguments
    pub fn apply(&mut self, f: &str, req: usize, a: Vec<String>) -> (String, u8) {
        let n = a.len();
        match self.r.n(if self.w.calls > 20 { 12 } else { 16 }) {
            0 if n >= 2 && req >= n => { let k = 1 + self.r.n(n - 1); (format!("{f}({})({})", a[..k].join(", "), a[k..].join(", ")), 1) }
            1 if n >= 1 && req >= n && n > 1 => { let last = self.paren(&a[n - 1]); (format!("{last} . {f}({})", a[..n - 1].join(", ")), 7) }
            2 if n == 1 => { let x = self.paren(&a[0]); (format!("{x} . {f}"), 7) }
            3 if n >= 1 => { let k = self.r.n(n); (format!("{f}({}...[{}])", a[..k].iter().map(|x| format!("{x}, ")).collect::<String>(), a[k..].join(", ")), 1) }
            4 if n >= 2 => { let k = 1 + self.r.n(n - 1); (format!("{f}(...[{}], ...({}))", a[..k].join(", "), if n - k == 1 { format!("[{}]", a[k]) } else { a[k..].join(", ") }), 1) }
            5 if n >= 3 && req >= n => (format!("{f}({})({})({})", a[0], a[1..n - 1].join(", "), a[n - 1]), 1),
            6 if n >= 1 => (format!("({f})({})", a.join(", ")), 1),
            7 if n >= 2 && req >= n => { let x = self.paren(&a[n - 1]); (format!("{x} . ({f}({}))", a[..n - 1].join(", ")), 7) }
            8 if n >= 1 => { let k = self.r.n(n + 1); (format!("{f}({}...[]{}{})", a[..k].iter().map(|x| format!("{x}, ")).collect::<String>(), if k < n { ", " } else { "" }, a[k..].join(", ")), 1) }
            _ => (format!("{f}({})", a.join(", ")), 1)
        }
    }
    fn paren(&mut self, s: &str) -> String { if s.chars().all(|c| c.is_alphanumeric()) { s.to_string() } else { format!("({s})") } }
    fn call_of(&mut self, t: &Ty, d: usize) -> Option<(String, u8)> {
        let mut c: Vec<(String, Rc<Sig>)> = self.visible().into_iter().filter_map(|v| if let Ty::Fn(s) = &v.t { if s.ret == *t { Some((v.n.clone(), s.clone())) } else { None } } else { None }).collect();
        if self.fs.len() > 1 { for (n, s) in self.forward.clone() { if s.ret == *t && !self.visible().iter().any(|v| v.n == n) { c.push((n, s)) } } }
        // methods
        for v in self.visible() { if let Ty::St(i) = v.t { for m in &self.sts[i].methods { if m.1.ret == *t { c.push((if m.2 { format!("{}->{}", v.n, m.0) } else { format!("{}->{}", self.sts[i].name, m.0) }, m.1.clone())) } } } }
        for s in &self.sts { if s.module { for m in &s.methods { if m.1.ret == *t { c.push((format!("{}->{}", s.name, m.0), m.1.clone())) } } } }
        if let Some(i) = self.fs.iter().rev().find_map(|f| f.this) { if self.fs.len() > 2 || self.r.p(50) { for m in self.sts[i].methods.clone() { if m.1.ret == *t && !self.visible().iter().any(|v| v.n == m.0) && self.r.p(30) { c.push((m.0.clone(), m.1.clone())) } } } }
        if c.is_empty() { return None }
        let (n, s) = c.swap_remove(self.r.n(c.len()));
        let recursive = self.fs.iter().any(|f| f.rec.as_ref().map_or(false, |r| r.0 == n));
        let mut a = self.args(&s, d);
        if recursive { if !a.is_empty() { a[0] = "n - 1".into() } }
        let pe = self.w.errors;
        if pe > 0 && self.r.n(600) < pe as usize { a.push("1".into()) }
        let req = s.req.len();
        Some(if recursive { (format!("{n}({})", a.join(", ")), 1) } else { self.apply(&n, req, a) })
    }

    // ---- statements ----
    fn ty(&mut self) -> Ty {
        let w = [10, 3, 3, 5, 3, 2, 1, 4 * (self.w.clos > 0) as u32, 2, 3 * (!self.sts.iter().all(|s| s.module)) as u32];
        match self.r.w(&w) { 0 => Ty::Int, 1 => Ty::Bool, 2 => Ty::Str, 3 => Ty::List, 4 => Ty::Vec2, 5 => Ty::Dict, 6 => Ty::Set, 7 => Ty::Fns,
            8 => { let n = self.r.n(3); Ty::Fn(Rc::new(Sig { req: vec![Pk::Int; n], opt: vec![], var: false, ret: Ty::Int })) }
            _ => { let v: Vec<usize> = (0..self.sts.len()).filter(|i| !self.sts[*i].module).collect(); Ty::St(*self.r.pick(&v)) } }
    }
    fn depth(&mut self) -> usize { let m = self.w.depth; self.r.n(m + 1).max(self.r.n(m + 1)) }
    pub fn stmts(&mut self, n: usize) { for _ in 0..n { if self.budget <= 0 { break } self.stmt() } }
    fn body(&mut self) { let n = 1 + self.r.n(4); self.stmts(n); if self.r.p(15) { self.show() } }
    fn show(&mut self) {
        let v: Vec<String> = self.visible().into_iter().filter(|v| !matches!(v.t, Ty::Fn(_) | Ty::Fns)).map(|v| v.n).take(6).collect();
        if !v.is_empty() { ln!(self, ("print({})", v.join(", "))) }
    }
    fn stmt(&mut self) {
        self.budget -= 1;
        let deep = self.ind >= self.w.nest;
        let in_loop = !self.fs.last().unwrap().loops.is_empty();
        let in_fn = self.fs.last().unwrap().ret.is_some();
        let w = self.w;
        let ws = [w.let_, w.assign, w.print, if deep { 0 } else { w.if_ }, if deep { 0 } else { w.loop_ }, if deep { 0 } else { w.func }, if deep { 0 } else { w.block }, w.clos, w.expr, if in_loop || in_fn { w.jump } else { 0 }, w.pat, if self.sts.is_empty() { 0 } else { w.st }, w.assert, w.exit];
        match self.r.w(&ws) {
            0 => self.let_(),
            1 => self.assign(),
            2 => { let n = 1 + self.r.n(3); let v: Vec<String> = (0..n).map(|_| { let t = self.ty(); let t = if matches!(t, Ty::Fn(_) | Ty::Fns) { Ty::Int } else { t }; let d = self.depth(); self.e(&t, d, 11) }).collect(); let s = if n == 1 && self.r.p(30) { let x = self.paren(&v[0]); format!("{x} . print") } else { format!("print({})", v.join(", ")) }; let s = if s.starts_with('(') { format!("let _ = {s}") } else { s }; if s.starts_with("let _") { ln!(self, ("print({})", v.join(", "))) } else { self.line(&s) } }
            3 => self.if_(),
            4 => self.loop_(),
            5 => self.func(),
            6 => { if self.r.p(50) { self.line("do {"); self.fs.last_mut().unwrap().loops.push(false); self.scope(|g| g.body()); self.fs.last_mut().unwrap().loops.pop(); } else { let h = *self.r.pick(&["if true {", "if 1 {"]); self.line(h); self.scope(|g| g.body()) } self.line("}") }
            7 => self.clos(),
            8 => self.expr_stmt(),
            9 => self.jump(),
            10 => self.pat(),
            11 => self.struct_stmt(),
            12 => { let d = self.depth(); if self.r.n(100) < 20 + 10 * w.errors as usize && w.errors > 3 { let c = self.e(&Ty::Bool, d, 9); let m = self.e(&Ty::Str, 1, 9); if self.r.p(50) { ln!(self, ("assert {c} : {m}")) } else { ln!(self, ("assert {c}")) } } else { let c = self.e(&Ty::Bool, d, 9); ln!(self, ("assert ({c}) or true")) } }
            _ => { let c = self.e(&Ty::Bool, 2, 9); if self.r.p(30) { ln!(self, ("if {c} {{ exit }}")) } else { self.line("if false { exit }") } }
        }
    }
    fn let_(&mut self) {
        let t = self.ty();
        if self.r.p(8) { // without initialiser; assigned before use
            let n = self.fresh();
            ln!(self, ("let {n}"));
            if self.r.p(60) { ln!(self, ("print({n})")) }
            let d = self.depth();
            let x = self.e(&t, d, 9);
            ln!(self, ("{n} = {x}"));
            self.declare(&n, t, true);
            return
        }
        let d = self.depth();
        let x = self.e(&t, d, 9);
        let n = self.fresh();
        ln!(self, ("let {n} = {x}"));
        self.declare(&n, t, true);
    }
    fn assign(&mut self) {
        let v: Vec<Vd> = self.visible().into_iter().filter(|v| v.w).collect();
        if v.is_empty() { return self.let_() }
        // prefer variables of enclosing functions now and then
        let v = self.r.pick(&v).clone();
        let d = self.depth();
        match (&v.t, self.r.n(10)) {
            (Ty::Int, 0..=4) => { let op = *self.r.pick(&["+", "-", "*", "&", "|", "^", "<<", ">>", "%", "/", "**"]); let x = match op { "/" | "%" => self.r.range(1, 9).to_string(), "<<" | ">>" | "**" => self.r.n(4).to_string(), _ => self.e(&Ty::Int, d, 9) }; let x = if op == "<<" || op == "**" { format!("{x} ; {} %= 100003", v.n) } else { x }; ln!(self, ("{} {op}= {x}", v.n)) }
            (Ty::Int, 5) => { let f = self.lambda(1, d); ln!(self, ("{} .= {f}", v.n)) }
            (Ty::Int, 6) => { let x = self.e(&Ty::Int, d, 9); ln!(self, ("{} {}= {x}", v.n, self.r.pick(&["max", "min"]))) }
            (Ty::List, 0..=1) => { let x = self.e(&Ty::Int, d, 9); let n = &v.n; ln!(self, ("if {n} {{ {n}[{}] {}= {x} }}", self.r.range(-1, 0), self.r.pick(&["", "+", "-", "*"]))) }
            (Ty::List, 2) => { let x = self.e(&Ty::List, d.min(1), 9); ln!(self, ("{} += {x}", v.n)) }
            (Ty::Vec2, 0..=3) => { let x = self.e(&Ty::Int, d, 9); ln!(self, ("{}[{}] {}= {x}", v.n, self.r.range(-2, 1), self.r.pick(&["", "+", "-", "*", "|"]))) }
            (Ty::Dict, 0..=5) => { let k = self.e(&Ty::Int, d.min(1), 9); let x = self.e(&Ty::Int, d, 9); ln!(self, ("{}[{k}] = {x}", v.n)) }
            (Ty::Str, 0..=3) => { let x = self.e(&Ty::Str, d.min(1), 9); ln!(self, ("{} += {x} ; {} = {}[:9]", v.n, v.n, v.n)) }
            (t, k) => {
                let x = self.e(t, d, 9);
                if k == 9 { let u: Vec<Vd> = self.of(t).into_iter().filter(|u| u.w && u.n != v.n).collect(); if !u.is_empty() { let u = self.r.pick(&u).n.clone(); return ln!(self, ("{} = {u} = {x}", v.n)) } }
                ln!(self, ("{} = {x}", v.n))
            }
        }
    }
    fn if_(&mut self) {
        let d = self.depth();
        let t = if self.r.p(75) { Ty::Bool } else { self.r.pick(&[Ty::Int, Ty::Str, Ty::List]).clone() };
        let c = self.e(&t, d, 9);
        ln!(self, ("if {c} {{"));
        self.scope(|g| g.body());
        while self.r.p(25) { let c = self.e(&Ty::Bool, d, 9); ln!(self, ("}} elif {c} {{")); self.scope(|g| g.body()) }
        if self.r.p(45) { self.line("} else {"); self.scope(|g| g.body()) }
        self.line("}");
    }
    fn loop_body(&mut self, pre: &str) {
        self.fs.last_mut().unwrap().loops.push(true);
        self.scope(|g| { if !pre.is_empty() { g.line(pre) } g.body() });
        self.fs.last_mut().unwrap().loops.pop();
    }
    fn else_(&mut self) -> bool {
        if self.r.p(40) { self.line("} else {"); self.scope(|g| { if g.r.p(70) { let k = g.unique("else"); ln!(g, ("print('{k}')")) } g.body() }); true } else { false }
    }
    fn loop_(&mut self) {
        let i = self.unique("i");
        let n = 1 + self.r.n(3);
        match self.r.n(9) {
            0..=3 => {
                // for
                let d = self.depth();
                match self.r.n(8) {
                    0 => { let it = self.e(&Ty::List, d.max(1), 9); let v = self.fresh(); ln!(self, ("for {v} in {it} {{")); self.for_body(&[(v, Ty::Int)]) }
                    1 => { let it = self.e(&Ty::List, d.max(1), 7); let (v, u) = (self.fresh(), self.unique("j")); ln!(self, ("for {u}, {v} in {it} . enumerate {{")); self.for_body(&[(u, Ty::Int), (v, Ty::Int)]) }
                    2 => { let it = self.e(&Ty::Str, d.max(1), 9); let v = self.fresh(); ln!(self, ("for {v} in {it} {{")); self.for_body(&[(v, Ty::Str)]) }
                    3 => { let it = self.e(&Ty::Dict, d.max(1), 9); let v = self.fresh(); ln!(self, ("for {v} in {it} {{")); self.for_body(&[(v, Ty::Vec2)]) }
                    4 if self.r.p(50) => {
                        let mut names = vec![];
                        let (p, v) = self.pattern(1, true, &mut names);
                        if !p.contains(',') { return }
                        names.retain(|n| n.1 != Ty::Fns);
                        let k = 1 + self.r.n(3);
                        ln!(self, ("for {p} in [{}] {{", vec![v; k].join(", ")));
                        self.for_body(&names)
                    }
                    4 => { let v = self.fresh(); let a = self.e(&Ty::Vec2, d.min(1), 11); let b = self.e(&Ty::Vec2, d.min(1), 11); let u = self.unique("j"); ln!(self, ("for {u}, {v} in [{a}, {b}] {{")); self.for_body(&[(u, Ty::Int), (v, Ty::Int)]) }
                    5 => { let v = self.of(&Ty::Fns); if v.is_empty() { return } let n = self.r.pick(&v).n.clone(); let k = self.unique("q"); ln!(self, ("for {k} in {n}[:3] {{")); let sg = Ty::Fn(Rc::new(Sig { req: vec![], opt: vec![], var: false, ret: Ty::Int })); self.fs.last_mut().unwrap().loops.push(true); self.scope(|g| { g.declare(&k, sg, false); ln!(g, ("print({k}())")); g.body() }); self.fs.last_mut().unwrap().loops.pop(); }
                    _ => { let v = self.fresh(); let r = match self.r.n(3) { 0 => format!("range({n})"), 1 => format!("range({}, {})", self.r.range(-1, 2), self.r.range(0, 4)), _ => format!("range({}, {}, {})", self.r.range(-3, 3), self.r.range(-3, 6), self.r.pick(&["1", "2", "-1", "-2", "3"])) }; ln!(self, ("for {v} in {r} {{")); self.for_body(&[(v, Ty::Int)]) }
                }
                self.else_();
                self.line("}");
            }
            4 | 5 => { ln!(self, ("let {i} = 0")); let c = if self.r.p(70) { format!("{i} < {n}") } else { let x = self.e(&Ty::Bool, 1, 8); format!("{i} < {n} and ({x} or {i} < 2)") }; ln!(self, ("while {c} {{")); self.declare(&i, Ty::Int, false); self.loop_body(&format!("{i} += 1")); self.else_(); self.line("}") }
            6 => { ln!(self, ("let {i} = 0")); self.line("do {"); self.declare(&i, Ty::Int, false); self.loop_body(&format!("{i} += 1")); ln!(self, ("}} while {i} < {n}")); if self.r.p(40) { self.out.pop(); self.out.push_str(" else {\n"); self.scope(|g| { let k = g.unique("else"); ln!(g, ("print('{k}')")); g.body() }); self.line("}") } }
            7 => { self.line("do {"); self.fs.last_mut().unwrap().loops.push(false); self.scope(|g| g.body()); self.fs.last_mut().unwrap().loops.pop(); self.line("}") }
            _ => { ln!(self, ("let {i} = 0")); self.line("loop {"); self.declare(&i, Ty::Int, false); self.loop_body(&format!("{i} += 1 ; if {i} > {n} {{ break }}")); self.line("}") }
        }
    }
    fn for_body(&mut self, vs: &[(String, Ty)]) {
        self.fs.last_mut().unwrap().loops.push(true);
        self.scope(|g| { for (n, t) in vs { g.declare(n, t.clone(), true) } g.body() });
        self.fs.last_mut().unwrap().loops.pop();
    }
    fn sig(&mut self, rec: bool) -> Rc<Sig> {
        let many = self.w.calls;
        let mut req = vec![];
        if rec { req.push(Pk::Int) }
        let n = if self.r.p(many) { self.r.n(4) } else { self.r.n(3) };
        for _ in 0..n { let k = match self.r.n(10) { 0 | 1 => Pk::Pair, 2 => Pk::List, 3 => Pk::Fn1, 4 => Pk::Fn0, _ => Pk::Int }; req.push(k) }
        let opt = if self.r.p(20 + many) { (0..self.r.n(3)).map(|_| self.r.p(60)).collect() } else { vec![] };
        let var = self.r.p(10 + many / 2);
        let ret = match self.r.n(8) { 0 => Ty::List, 1 => Ty::Vec2, 2 => Ty::Bool, 3 => Ty::Fn(Rc::new(Sig { req: vec![], opt: vec![], var: false, ret: Ty::Int })), _ => Ty::Int };
        Rc::new(Sig { req, opt, var, ret })
    }
    /// parameters; declares them in the current (function) scope
    fn params(&mut self, s: &Sig, rec: bool) -> String {
        let mut ps: Vec<String> = vec![];
        let mut later: Vec<Vd> = vec![];
        let mut used: Vec<String> = vec![];
        let mut name = |g: &mut Self| -> String { loop { let n = if g.r.p(80) { g.r.pick(NAMES).to_string() } else { g.unique("p") }; if !used.contains(&n) { used.push(n.clone()); return n } } };
        for (i, k) in s.req.iter().enumerate() {
            if i == 0 && rec { ps.push("n".into()); later.push(Vd { n: "n".into(), t: Ty::Int, w: false }); continue }
            match k {
                Pk::Int => { if self.r.p(5) { ps.push("_".into()) } else { let n = name(self); ps.push(n.clone()); later.push(Vd { n, t: Ty::Int, w: true }) } }
                Pk::Pair => match self.r.n(4) {
                    0 => { let n = name(self); ps.push(n.clone()); later.push(Vd { n, t: Ty::Vec2, w: true }) }
                    1 => { let n = name(self); ps.push(format!("({n}, *_)")); later.push(Vd { n, t: Ty::Int, w: true }) }
                    2 => { let n = name(self); ps.push(format!("(_, {n})")); later.push(Vd { n, t: Ty::Int, w: true }) }
                    _ => { let (n, m) = (name(self), name(self)); ps.push(format!("({n}, {m})")); later.push(Vd { n, t: Ty::Int, w: true }); later.push(Vd { n: m, t: Ty::Int, w: true }) }
                },
                Pk::List => { let n = name(self); ps.push(n.clone()); later.push(Vd { n, t: Ty::List, w: true }) }
                Pk::Fn0 | Pk::Fn1 => { let n = name(self); ps.push(n.clone()); let q = if *k == Pk::Fn0 { vec![] } else { vec![Pk::Int] }; later.push(Vd { n, t: Ty::Fn(Rc::new(Sig { req: q, opt: vec![], var: false, ret: Ty::Int })), w: false }) }
            }
        }
        let mut optional = false;
        for def in &s.opt {
            let n = name(self);
            if *def || optional {
                optional = true;
                // a default is evaluated without access to the parameters
                let this = self.fs.last_mut().unwrap().this.take();
                let x = self.e(&Ty::Int, 2, 9);
                self.fs.last_mut().unwrap().this = this;
                ps.push(format!("{n} = {x}"));
                later.push(Vd { n, t: Ty::Int, w: true })
            } else { ps.push(format!("{n}?")); later.push(Vd { n: format!("({n} or 0)"), t: Ty::Int, w: false }) }
        }
        if s.var { let n = name(self); ps.push(format!("*{n}")); later.push(Vd { n: format!("list({n})"), t: Ty::List, w: false }) }
        *self.fs.last_mut().unwrap().scopes.last_mut().unwrap() = later;
        ps.join(", ")
    }
    fn func(&mut self) {
        let rec = self.r.p(20);
        let s = self.sig(rec);
        let n = if !self.forward.is_empty() && self.fs.len() == 1 && self.ind == 0 && self.r.p(50) { let (n, s2) = self.forward.remove(0); if self.here().iter().any(|v| v.n == n) { return } return self.func_as(n, s2, false, None) } else { self.fresh_fn() };
        self.func_as(n, s, rec, None)
    }
    fn func_as(&mut self, n: String, s: Rc<Sig>, rec: bool, this: Option<usize>) {
        let method = this.is_some();
        self.fs.push(F { scopes: vec![vec![]], rec: None, ret: Some(s.ret.clone()), this, ..F::default() });
        let ps = self.params(&s, rec);
        if rec { self.fs.last_mut().unwrap().rec = Some((n.clone(), s.clone())); let k = self.fs.len() - 2; self.fs[k].scopes.last_mut().unwrap().push(Vd { n: n.clone(), t: Ty::Fn(s.clone()), w: false }) }
        let ps = if method { if ps.is_empty() { "self".into() } else { format!("self, {ps}") } } else { ps };
        let memo = if self.sts.len() == self.types_open && !method && self.r.p(4) && s.ret == Ty::Int { self.line("@memoize"); true } else { false };
        let _ = memo;
        if self.r.p(30) && !rec {
            let d = self.depth();
            let x = self.e(&s.ret.clone(), d, 9);
            ln!(self, ("fn {n}({ps}) -> {x}"));
        } else {
            ln!(self, ("fn {n}({ps}) {{"));
            let ret = s.ret.clone();
            self.scope(|g| {
                // parameters and body share one scope: names of the body must not repeat parameters
                let f = g.fs.last_mut().unwrap();
                let top = f.scopes.pop().unwrap();
                debug_assert!(top.is_empty());
                let ps = f.scopes.pop().unwrap();
                f.scopes.push(vec![]);
                f.scopes.push(ps);
                if rec { let b = g.e(&ret, 1, 9); ln!(g, ("if n <= 0 {{ return {b} }}")) }
                let k = 1 + g.r.n(4);
                g.stmts(k);
                let d = g.depth();
                let x = g.e(&ret, d, 9);
                if g.r.p(20) { ln!(g, ("return {x}")) } else if x.starts_with(|c: char| "([-{!".contains(c)) || x.starts_with("fn") || x.starts_with("if ") || g.r.p(10) { let v = g.unique("r"); ln!(g, ("let {v} = {x}")); g.line(&v) } else { g.line(&x) }
            });
            self.line("}");
        }
        self.fs.pop();
        if !method && !rec { self.declare(&n, Ty::Fn(s.clone()), false) }
        // so that recursion starts small
        if rec { let h = self.fs.last_mut().unwrap().scopes.last_mut().unwrap(); if let Some(i) = h.iter().position(|v| v.n == n) { h.remove(i); }
            let s2 = s.clone(); let a: Vec<String> = { let mut a = self.args(&s2, 1); if !a.is_empty() { a[0] = self.r.n(5).to_string() } a };
            if !matches!(s.ret, Ty::Fn(_)) { ln!(self, ("print({n}({}))", a.join(", "))) }
        }
    }
    fn clos(&mut self) {
        let v = self.of(&Ty::Fns);
        if v.is_empty() || self.r.p(10) { let n = self.fresh(); let d = self.depth(); let x = self.e(&Ty::Fns, d, 9); ln!(self, ("let {n} = {x}")); self.declare(&n, Ty::Fns, true); return }
        let fs = self.r.pick(&v).n.clone();
        match self.r.n(6) {
            0 | 1 => { let d = self.depth(); let x = self.lambda(0, d); ln!(self, ("{fs} . push({x})")) }
            2 => {
                // a closure with a block body that declares, captures again and returns
                ln!(self, ("{fs} . push(fn() {{"));
                self.fs.push(F { scopes: vec![vec![]], ret: Some(Ty::Int), ..F::default() });
                self.scope(|g| { let n = 1 + g.r.n(3); g.stmts(n); let d = g.depth(); let x = g.e(&Ty::Int, d, 9); let v = g.unique("r"); ln!(g, ("let {v} = {x}")); g.line(&v) });
                self.fs.pop();
                self.line("})");
            }
            3 => ln!(self, ("print({fs} . map(fn(q) -> q()))")),
            4 => ln!(self, ("if {fs} {{ print({fs}[{}]()) }}", self.r.range(-1, 0))),
            _ => ln!(self, ("if len({fs}) > 1 {{ {fs}[0], {fs}[1] = {fs}[1], {fs}[0] ; {fs}[0]() }}")),
        }
    }
    fn expr_stmt(&mut self) {
        let d = self.depth();
        match self.r.n(8) {
            0 | 1 => { let v = self.of(&Ty::List); if v.is_empty() { return self.let_() } let n = self.r.pick(&v).n.clone(); let x = self.e(&Ty::Int, d, 11); match self.r.n(5) { 0 => ln!(self, ("{n} . push({x})")), 1 => ln!(self, ("{n} . push_front({x})")), 2 => ln!(self, ("if {n} {{ {n} . pop }}")), 3 => ln!(self, ("{n} . insert(0, {x})")), _ => ln!(self, ("if len({n}) > 8 {{ {n} . clear }}")) } }
            2 => { let v = self.of(&Ty::Set); if v.is_empty() { return self.assign() } let n = self.r.pick(&v).n.clone(); let x = self.e(&Ty::Int, d, 11); ln!(self, ("{n} . push({x})")) }
            _ => { let t = self.r.pick(&[Ty::Int, Ty::Int, Ty::List, Ty::Bool]).clone(); match self.call_of(&t, d) { Some((s, _)) if s.starts_with(|c: char| c.is_alphabetic()) && !s.starts_with("if ") && !s.starts_with("fn") => self.line(&s), _ => self.assign() } }
        }
    }
    fn jump(&mut self) {
        let f = self.fs.last().unwrap();
        let in_loop = !f.loops.is_empty();
        let can_continue = f.loops.last().copied().unwrap_or(false);
        let ret = f.ret.clone();
        let d = self.depth();
        let c = self.e(&Ty::Bool, d, 9);
        let mut o = vec![];
        if in_loop { o.push("break".to_string()); if can_continue { o.push("continue".into()); } }
        if let Some(t) = ret { if self.r.p(50) { let x = self.e(&t, d, 9); o.push(format!("return {x}")) } }
        if o.is_empty() { return }
        let j = self.r.pick(&o).clone();
        if self.r.p(12) { ln!(self, ("if {c} {{ {j} }} else {{ print('no jump') }}")) } else if self.r.p(15) { ln!(self, ("if {c} {{")); self.scope(|g| { g.let_(); g.body(); g.line(&j) }); self.line("}") } else { ln!(self, ("if {c} {{ {j} }}")) }
    }
    /// a pattern and a matching value
    fn pattern(&mut self, d: usize, decl: bool, names: &mut Vec<(String, Ty)>) -> (String, String) {
        let n = 1 + self.r.n(3) + (d == 2) as usize;
        let star = if self.r.p(35) && n > 1 { Some(self.r.n(n)) } else { None };
        let list = self.r.p(40);
        let (mut ps, mut vs) = (vec![], vec![]);
        for i in 0..n {
            if star == Some(i) {
                let k = self.r.n(3);
                for _ in 0..k { let x = self.e(&Ty::Int, 1, 11); vs.push(x) }
                if self.r.p(20) { ps.push("*_".to_string()) } else {
                    let t = if list { Ty::List } else { Ty::Vec2 };
                    let nm = if decl { self.pname(names) } else { match self.target(&Ty::List, names, false) { Some(x) if list => x, _ => { ps.push("*_".into()); continue } } };
                    // a vector of unknown length: only printed
                    if decl && list { names.push((nm.clone(), t)) } else if decl { names.push((nm.clone(), Ty::Fns)) }
                    ps.push(format!("*{nm}"));
                }
            } else if d > 0 && self.r.p(25) {
                let (p, v) = self.pattern(d - 1, decl, names);
                ps.push(format!("({p}{})", if p.starts_with('*') || !p.contains(',') { "," } else { "" }));
                if p.contains(',') { vs.push(v) } else { vs.push(format!("[{}]", v.trim_start_matches(['(', '[']).trim_end_matches([')', ']']))) }
            } else {
                let x = self.e(&Ty::Int, 2, 11);
                vs.push(x);
                if self.r.p(10) { ps.push("_".into()); continue }
                if decl { let nm = self.pname(names); names.push((nm.clone(), Ty::Int)); ps.push(nm) } else { match self.target(&Ty::Int, names, true) { Some(x) => ps.push(x), None => ps.push("_".into()) } }
            }
        }
        let v = if list || vs.len() < 2 { format!("[{}]", vs.join(", ")) } else { format!("({})", vs.join(", ")) };
        (ps.join(", "), v)
    }
    fn pname(&mut self, names: &[(String, Ty)]) -> String { for _ in 0..8 { let n = self.fresh(); if !names.iter().any(|x| x.0 == n) { return n } } self.unique("v") }
    fn target(&mut self, t: &Ty, names: &mut Vec<(String, Ty)>, complex: bool) -> Option<String> {
        let mut c = vec![];
        for v in self.visible() {
            if !v.w { continue }
            if v.t == *t { c.push(v.n.clone()) }
            if complex { match v.t {
                Ty::Vec2 => { c.push(format!("{}[0]", v.n)); c.push(format!("{}[-1]", v.n)) }
                Ty::Dict => { let k = self.r.n(3); c.push(format!("{}[{k}]", v.n)) }
                Ty::St(i) => for f in &self.sts[i].fields { if f.1 == *t { c.push(format!("{}->{}", v.n, f.0)) } },
                _ => {}
            } }
        }
        // targets must be different variables
        c.retain(|x| { let base = x.split(['[', '-']).next().unwrap(); !names.iter().any(|n| n.0 == base) });
        if c.is_empty() { return None }
        let x = self.r.pick(&c).clone();
        names.push((x.split(['[', '-']).next().unwrap().to_string(), t.clone()));
        Some(x)
    }
    fn pat(&mut self) {
        let mut names = vec![];
        if self.r.p(50) {
            let (p, v) = self.pattern(2, true, &mut names);
            if !p.contains(',') { return self.let_() }
            ln!(self, ("let {p} = {v}"));
            for (n, t) in names { self.here().push(Vd { n, w: t != Ty::Fns, t: if t == Ty::Fns { Ty::Str } else { t } }) }
        } else {
            let (p, v) = self.pattern(2, false, &mut names);
            if !p.contains(',') || !p.chars().any(|c| c.is_alphabetic()) { return self.assign() }
            if p.starts_with('(') || p.starts_with('*') || p.starts_with('_') || self.r.p(15) { let q = self.unique("v"); ln!(self, ("let {q} = (({p}) = {v})")); ln!(self, ("print({q})")) } else { ln!(self, ("{p} = {v}")) }
            let mut n: Vec<String> = names.into_iter().map(|n| n.0).collect();
            n.dedup();
            if !n.is_empty() && self.r.p(40) { ln!(self, ("print({})", n.join(", "))) }
        }
    }
    fn struct_stmt(&mut self) {
        let mut c = vec![];
        for v in self.visible() { if let Ty::St(i) = v.t { c.push((v.n, i)) } }
        if c.is_empty() { let v: Vec<usize> = (0..self.sts.len()).filter(|i| !self.sts[*i].module).collect(); if v.is_empty() { return self.let_() } let i = *self.r.pick(&v); let d = self.depth(); let x = self.e(&Ty::St(i), d.min(2), 9); let n = self.fresh(); ln!(self, ("let {n} = {x}")); self.declare(&n, Ty::St(i), true); return }
        let (n, i) = self.r.pick(&c).clone();
        let s = self.sts[i].clone();
        let d = self.depth();
        match self.r.n(8) {
            0..=2 => { let (f, t) = self.r.pick(&s.fields).clone(); let x = self.e(&t, d, 9); let op = if t == Ty::Int { *self.r.pick(&["", "", "+", "-", "*"]) } else { "" }; ln!(self, ("{n}->{f} {op}= {x}")) }
            3 => { let (f, t) = self.r.pick(&s.fields).clone(); if t == Ty::Int { let l = self.lambda(1, 1); ln!(self, ("{n}->{f} .= {l}")) } else { ln!(self, ("print({n} . (->{f}))")) } }
            4 => { let m = self.fresh(); ln!(self, ("let {m} = {n}")); self.declare(&m, Ty::St(i), true) }
            5 => ln!(self, ("print({n}, {n} is {}, {n} == {n})", self.sts[self.r.n(self.sts.len())].name.clone())),
            6 => { if let Some((m, g, inst)) = s.methods.iter().find(|_| true).cloned() { if g.ret != Ty::Int { return } let a = self.args(&g, 1); let x = if inst { if self.r.p(50) { format!("{}->{m}({n}{}{})", s.name, if a.is_empty() { "" } else { ", " }, a.join(", ")) } else { format!("{n}->{m}({})", a.join(", ")) } } else { format!("{}->{m}({})", s.name, a.join(", ")) }; ln!(self, ("print({x})")) } }
            _ => ln!(self, ("print({n})")),
        }
    }
    fn struct_decl(&mut self) {
        let i = self.sts.len();
        let module = self.r.p(20);
        let name = if module { format!("M{i}") } else { format!("S{i}") };
        let pool = ["p", "q", "r", "s", "u"];
        let mut fields = vec![];
        if !module { let n = 1 + self.r.n(3); while fields.len() < n { let f = self.r.pick(&pool).to_string(); if !fields.iter().any(|x: &(String, Ty)| x.0 == f) { let t = if self.r.p(75) { Ty::Int } else { Ty::List }; fields.push((f, t)) } } }
        self.types_open = usize::MAX;
        self.sts.push(St { name: name.clone(), fields: fields.clone(), methods: vec![], module });
        let nm = if module { 1 + self.r.n(2) } else { self.r.n(4) };
        let fl = fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(", ");
        let head = if module { format!("module {name}") } else { format!("struct {name}({fl})") };
        if nm == 0 { self.line(&head); self.types_open = self.sts.len(); return }
        ln!(self, ("{head} {{"));
        self.ind += 1;
        let mpool = ["m", "w", "p2", "get"];
        // signatures first, so that methods can call each other
        let mut ms: Vec<(String, Rc<Sig>, bool)> = vec![];
        for _ in 0..nm { let m = self.r.pick(&mpool).to_string(); if ms.iter().any(|x| x.0 == m) { continue } let inst = !module && self.r.p(75); let s = self.sig(false); let s = if matches!(s.ret, Ty::Fn(_)) { Rc::new(Sig { req: s.req.clone(), opt: vec![], var: false, ret: Ty::Int }) } else { s }; ms.push((m, s, inst)) }
        for (m, s, inst) in ms {
            // only earlier methods are called, so that nothing recurses
            let budget = self.budget;
            self.budget = 3;
            if inst { self.func_as(m.clone(), s.clone(), false, Some(i)) } else { let k = self.here().len(); self.func_as(m.clone(), s.clone(), false, None); self.here().truncate(k) }
            self.budget = budget;
            self.sts[i].methods.push((m, s, inst));
        }
        self.ind -= 1;
        self.types_open = self.sts.len();
        self.line("}");
    }
    pub fn program(mut self) -> String {
        if self.w.tracer > 0 { self.line("fn t(k, v) { print('t', k) ; v }") }
        let n = self.w.structs;
        for _ in 0..n { if self.r.p(70) { self.struct_decl() } }
        let forward = self.r.p(30) && self.w.func > 0;
        if forward { let s = Rc::new(Sig { req: vec![Pk::Int; self.r.n(3)], opt: vec![], var: false, ret: Ty::Int }); self.forward.push(("late0".into(), s)) }
        let mut guard = 0;
        while self.budget > 0 && guard < 200 { self.stmt(); guard += 1 }
        for (n, s) in std::mem::take(&mut self.forward) { self.func_as(n, s, false, None) }
        self.show();
        let fs = self.of(&Ty::Fns);
        if let Some(v) = fs.first() { if v.w { let n = v.n.clone(); ln!(self, ("print({n} . map(fn(q) -> q()))")) } }
        // some programs run inside a function, so that every variable is a local
        if !forward && self.r.p(30) && self.sts.is_empty() && self.w.tracer == 0 {
            let body: String = self.out.lines().map(|l| format!("    {l}\n")).collect();
            return format!("fn main() {{\n{body}}}\nmain()\n")
        }
        self.out
    }
}
