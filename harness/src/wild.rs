//! Programs drawn from the whole grammar: every production in every position where the grammar has it, including the unusual ones
//! (unrolled arguments, partial operators, assignments as arguments, patterns of any shape, `return` and `exit` anywhere).
//! Types are only followed loosely, so many programs end with an error, whose message and place are compared as well.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq)]
enum T { I, L, S, F, D, Any }
use T::*;

trait Own { fn own(&self) -> (String, usize, usize); }
impl Own for (&str, usize, usize) { fn own(&self) -> (String, usize, usize) { (self.0.to_string(), self.1, self.2) } }

pub struct Wild<'a> { r: &'a mut Rng, names: Vec<(String, T)>, fresh: usize, in_loop: usize, tag: usize, cut: Option<usize>, id: &'static str, method: bool, w: u32, depth: usize, local: Vec<String> }

const PRE: &str = "let a = 1, b = 7, c = -3
let x = 5, y = 6, z = 8
let l = [1, 2, 3], l2 = [[1, 2], [3, 4]], v = (4, 5), s = 'abc', d = {1: 2, 3: 4}, e = {1, 2}
fn t(k, v) { print('#' + str(k)) ; v }
fn f(x) -> x + 1
fn g(x, y = 2, *z) -> x + y * 3 + len(z)
fn h(x, y?) { if y == nil { return x } ; x - y }
struct P(x, y) { fn m(self, k) -> self->x + k
    fn n(self) { self->y += 1 ; self->y } }
module M { fn q(x) -> x * 2
    fn w(x, y) -> q(x) - y }
let p = P(1, 2)
";

impl<'a> Wild<'a> {
    pub fn new(r: &'a mut Rng, id: &'static str) -> Self {
        let w = *r.pick(&[0, 0, 1, 1, 3, 8]);
        let names = [("a", I), ("b", I), ("c", I), ("l", L), ("l2", L), ("v", L), ("s", S), ("d", D), ("e", Any), ("f", F), ("g", F), ("h", F), ("p", Any)];
        Wild { r, names: names.iter().map(|x| (x.0.to_string(), x.1)).collect(), fresh: 0, in_loop: 0, tag: 0, cut: None, id, method: false, w, depth: 0, local: vec![] }
    }
    fn p(&mut self, n: u32) -> bool { self.r.p(n) }
    fn name(&mut self, t: T) -> String {
        let v: Vec<&(String, T)> = self.names.iter().filter(|x| t == Any || x.1 == t).collect();
        if v.is_empty() { return "a".into() }
        // prefer the newer ones
        let k = if self.r.p(50) { v.len() - 1 - self.r.n(v.len().min(4)) } else { self.r.n(v.len()) };
        v[k].0.clone()
    }
    fn new_name(&mut self) -> String {
        if self.depth > 0 && self.r.p(25) { let n = self.r.pick(&["a", "b", "c", "x", "y", "l", "s", "z"]).to_string(); if !self.local.contains(&n) { self.local.push(n.clone()); return n } }
        self.fresh += 1;
        format!("u{}", self.fresh)
    }
    fn ty(&mut self) -> T { *self.r.pick(&[I, I, I, I, L, L, S, F, D, Any]) }
    fn commas(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Self) -> String) -> String {
        let n = lo + self.r.n(hi - lo + 1);
        let mut v: Vec<String> = vec![];
        for _ in 0..n { v.push(f(self)) }
        let mut s = v.join(", ");
        if n > 0 && self.r.p(6) { s.push(',') }
        s
    }
    /// an argument: may be unrolled, a partial operator, an assignment
    fn arg(&mut self, d: usize, t: T) -> String {
        match self.r.n(90) {
            0..=2 => format!("...{}", self.e(d, L)),
            3 if self.w > 1 || t == F => self.partial(d),
            4 | 5 => self.assign(d),
            6 if self.w > 1 => "->x".into(),
            _ => self.e(d, t),
        }
    }
    fn op(&mut self) -> &'static str { *self.r.pick(&["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "in", "not in", "is", "is not"]) }
    fn partial(&mut self, d: usize) -> String {
        let o = if self.p(self.w) { self.op() } else { *self.r.pick(&["+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^"]) };
        match self.r.n(5) { 0 => o.to_string(), 1 | 2 => format!("{o} {}", self.e(d.min(1), I)), 3 => format!("{} {o}", self.e(d.min(1), I)), _ => self.r.pick(&["-", "!", "not"]).to_string() }
    }
    fn target(&mut self, d: usize) -> String {
        match self.r.n(10) {
            0..=5 => self.name(I),
            6 => { let i = self.ix(d); format!("l[{i}]") }
            7 => { let l = self.name(D); format!("{l}[{}]", self.e(d.min(1), I)) }
            8 => { let n = *self.r.pick(&["p->x", "p->y", "p -> x", "l2[0][1]", "l2[-1]", "(p)->y", "P(3, 4)->x", "[1, 2][0]"]); n.to_string() }
            _ => { let f = self.e(1, L); format!("({f})[{}]", self.r.n(3)) }
        }
    }
    fn assign(&mut self, d: usize) -> String {
        match self.r.n(12) {
            0..=4 => { let t = self.ty(); let n = self.name(t); format!("{n} = {}", self.e(d, t)) }
            5 => { let x = self.target(d); let e = self.e(d, I); format!("{x} = {e}") }
            6..=8 => { let o = *self.r.pick(&["+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^=", "min=", "max="]); let x = self.target(d); let o = if o.starts_with('m') { "+=" } else { o }; format!("{x} {o} {}", self.e(d, I)) }
            9 => { let x = self.target(d); format!("{x} .= {}", self.e(d, F)) }
            10 => { let (x, y) = (self.target(d), self.target(d)); format!("{x} = {y} = {}", self.e(d, I)) }
            _ => { let p = self.pat_targets(2); format!("{p} = {}", self.seq(d)) }
        }
    }
    /// pattern over existing targets
    fn pat_targets(&mut self, d: usize) -> String {
        let n = 2 + self.r.n(2);
        let mut star = false;
        let mut v = vec![];
        for _ in 0..n {
            v.push(match self.r.n(10) { 0 if !star => { star = true; if self.p(40) { "*_".into() } else { format!("*{}", self.name(L)) } } 1 => "_".into(), 2 if d > 0 => format!("({})", self.pat_targets(d - 1)), _ => self.target(1) });
        }
        let mut s = v.join(", ");
        if self.p(8) { s.push(',') }
        if self.p(20) { format!("({s})") } else { s }
    }
    /// pattern that declares names
    fn pat(&mut self, d: usize, out: &mut Vec<String>) -> String {
        let n = 2 + self.r.n(2);
        let mut star = false;
        let mut v = vec![];
        for _ in 0..n {
            v.push(match self.r.n(10) { 0 | 1 if !star => { star = true; if self.p(30) { "*_".into() } else { let x = self.new_name(); out.push(x.clone()); format!("*{x}") } } 2 => "_".into(), 3 if d > 0 => format!("({})", self.pat(d - 1, out)), _ => { let x = self.new_name(); out.push(x.clone()); x } });
        }
        let mut s = v.join(", ");
        let _ = &mut s;
        s
    }
    /// a sequence of about the length patterns have
    fn seq(&mut self, d: usize) -> String {
        match self.r.n(6) {
            0 => self.name(L),
            1 => format!("[{}]", self.commas(1, 4, |g| g.arg(d.saturating_sub(1), I))),
            2 => format!("({}, {})", self.e(d.min(1), I), self.seq(d.saturating_sub(1))),
            3 => format!("({}, {})", self.seq(d.saturating_sub(1)), self.e(d.min(1), I)),
            4 => "'xyz'".into(),
            _ => format!("({})", self.commas(2, 4, |g| g.e(d.min(1), I))),
        }
    }
    pub fn e(&mut self, d: usize, t: T) -> String {
        let t = if self.p(self.w) { self.ty() } else { t };
        if self.p(if self.id == "C06" { 14 } else { 3 }) && d > 0 { self.tag += 1; let k = self.tag; return format!("t({k}, {})", self.e(d - 1, t)) }
        if d == 0 { return self.atom(t) }
        let d = d - 1;
        if self.p(22) {
            // forms of any type
            return match self.r.n(20) {
                0..=2 => format!("({})", self.e(d, t)),
                3..=5 => format!("if {} then {}{} else {}", self.e(d, I), self.e(d, t), if self.p(15) { format!(" elif {} then {}", self.e(d, I), self.e(d, t)) } else { String::new() }, self.e(d, t)),
                6 => format!("({})", self.assign(d)),
                7 | 8 => { let o = *self.r.pick(&["and", "or"]); format!("{} {o} {}", self.e(d, t), self.e(d, t)) }
                9 => { let i = self.ix(d); format!("[{}][{i}]", self.commas(1, 3, |g| g.arg(d, t)).trim_end_matches(',')) }
                10 => format!("{{{k}: {}}}[{k}]", self.e(d, t), k = self.r.n(3)),
                11 => format!("(fn(x, y?, *z) -> {})({})", self.e(d, t), self.commas(1, 3, |g| g.arg(d, I))),
                12 => { let b = self.fn_body(d); format!("(fn() {b})()") }
                13 => format!("{} . (fn(x) -> {})", self.e(d, I), self.e(d, t)),
                14 => format!("({}).{}", self.e(d, Any), *self.r.pick(&[" str", " repr", " typeof", " bool", " str", " repr . len", " str . list"])),
                15 => format!("p->{}", *self.r.pick(&["x", "y", "n()", "m(2)", "m (3)", "m"])),
                16 => format!("M->{}", *self.r.pick(&["q(3)", "w(4, 5)", "w(1)(2)", "q", "q (5)"])),
                17 => self.call(d),
                18 => { let x = self.e(d.min(1), t).replace('\\', "").replace('\'', "\"").replace('\n', " "); if x.bytes().any(|b| b.is_ascii_alphabetic()) && !self.p(self.w * 5) { x.replace('"', "'") } else { format!("eval('{x}')") } }
                _ => format!("{} . {}", self.e(d, t), self.e(d, F)),
            }
        }
        match t {
            I => match self.r.n(20) {
                0..=8 => { let o = *self.r.pick(&["+", "+", "-", "-", "*", "*", "&", "|", "^", "/", "%", "**", "<<", ">>"]); let (x, y) = (self.e(d, I), if o == "**" || o == "<<" { self.r.n(4).to_string() } else { self.e(d, I) }); if self.p(70) { format!("{x} {o} {y}") } else { format!("({x} {o} {y})") } }
                9 | 10 => { let n = if self.p(75) { 1 } else { 2 + self.r.n(2) }; let mut s = self.e(d, I); for _ in 0..n { let o = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]); s.push_str(&format!(" {o} {}", self.e(d, I))) } if self.p(60) { format!("({s})") } else { s } }
                11 => { let o = *self.r.pick(&["in", "not in"]); format!("({} {o} {})", self.e(d, I), self.lp(d)) }
                12 => { let ty = *self.r.pick(&["int", "str", "list", "bool", "any", "iterable", "function", "vector", "P", "M", "rational", "complex"]); let o = *self.r.pick(&["is", "is not"]); format!("({} {o} {ty})", self.e(d, Any)) }
                13 | 14 => { let o = *self.r.pick(&["-", "!", "not ", "- -", "-!", "not not "]); format!("{o}{}", self.e(d, I)) }
                15 => format!("{}({})", *self.r.pick(&["len", "sum", "max", "min", "len", "bool"]), if self.p(80) { self.e(d, L) } else { self.arg(d, L) }),
                16 => { let i = self.ix(d); format!("{}[{i}]", self.name(L)) }
                17 | 18 => self.call(d),
                _ => { let o = *self.r.pick(&["min", "max"]); format!("{o}({})", self.commas(2, 4, |g| g.arg(d, I))) }
            },
            L => match self.r.n(18) {
                0..=3 => format!("[{}]", self.commas(0, 4, |g| g.arg(d, I))),
                4 | 5 => format!("({},)", self.commas(1, 4, |g| g.arg(d, I)).trim_end_matches(',')),
                6 => format!("{{{}}}", self.commas(0, 3, |g| g.arg(d, I))),
                7 => format!("{} + {}", self.lp(d), self.lp(d)),
                8 | 9 => format!("{}[{}]", self.lp(d), self.slice(d)),
                10 => format!("{} . {}", self.lp(d), *self.r.pick(&["list", "vector", "set", "sort", "reverse . list", "map(+1) . list", "filter(>1) . list"])),
                11 => { let fun = self.e(d, F); format!("{} . map({fun}) . list", self.lp(d)) }
                12 => { let fun = self.e(d, F); format!("{} . filter {fun} . list", self.lp(d)) }
                13 => format!("range({}) . list", self.commas(1, 3, |g| g.e(0, I))),
                14 => format!("{} * {}", self.lp(d), self.r.n(3)),
                15 => format!("({}) . {}", self.lp(d), { let a = self.slice(d); format!("[{a}]") }),
                16 => format!("list {}", self.e(0, L)),
                _ => self.seq(d),
            },
            S => match self.r.n(8) { 0 | 1 => format!("{} + {}", self.e(d, S), self.e(d, S)), 2 => format!("str({})", self.e(d, Any)), 3 => format!("repr({})", self.e(d, Any)), 4 => format!("{}[{}]", self.e(d, S), self.slice(d)), 5 => format!("'%s-%s' % ({}, {})", self.e(d, Any), self.e(d, I)), 6 => format!("{} . join {}", self.e(0, S), self.e(0, L)), _ => self.atom(S) },
            F => match self.r.n(16) {
                0..=3 => format!("fn(x{}) -> {}", *self.r.pick(&["", "", "", ", y?", ", *z", ", y = 2"]), self.scoped(d)),
                4 => { let p = if self.p(self.w * 4) { self.params(d) } else { "x".into() }; let b = self.fn_body(d); format!("fn({p}) {b}") }
                5..=8 => format!("({})", self.partial(d)),
                9 => "(->x)".into(),
                10 => "p->m".into(),
                11 => format!("({} . {})", self.e(d, F), self.e(d, F)),
                12 => format!("(fn(x, y, z) -> x - y)({})", self.e(d, I)),
                13 if self.w > 1 => format!("[{}]", self.slice(d)),
                14 => self.r.pick(&["str", "list", "len", "sum", "print", "abs", "map", "repr", "bool", "max", "typeof", "M->q", "M->w(3)", "P(1)", "P", "h(4)", "str"]).to_string(),
                _ => { let fun = self.e(d, F); format!("({fun} . memoize)") }
            },
            D => match self.r.n(4) { 0 | 1 => format!("{{{}}}", { let n = 1 + self.r.n(3); let v: Vec<String> = (0..n).map(|_| if self.p(10) { format!("...{}", self.e(d, D)) } else { format!("{}: {}", self.e(d, I), self.e(d, I)) }).collect(); v.join(", ") }), 2 => format!("{} . dict", { let s = self.seq(0); format!("[({s}, 2), (3, 4)]") }), _ => self.atom(D) },
            Any => { let t = self.ty(); let t = if t == Any { I } else { t }; self.e(d, t) }
        }
    }
    fn lp(&mut self, d: usize) -> String { let x = self.e(d, L); if self.p(self.w * 4) || x.bytes().all(|b| b.is_ascii_alphanumeric()) || (x.starts_with('[') && x.find(']') == Some(x.len() - 1)) { x } else { format!("({x})") } }
    fn scoped(&mut self, d: usize) -> String {
        let t = self.ty();
        self.names.push(("x".into(), I)); self.names.push(("y".into(), I));
        let e = self.e(d, t);
        self.names.pop(); self.names.pop();
        e
    }
    fn call(&mut self, d: usize) -> String {
        let (f, lo, hi) = match self.r.n(12) { 0..=2 => ("f".to_string(), 1, 1), 3 | 4 => ("g".into(), 1, 4), 5 => ("h".into(), 1, 2), 6 => (self.name(F), 1, 1), 7 => (format!("({})", self.e(d, F)), 1, 1), 8 => self.r.pick(&[("M->q", 1, 1), ("M->w", 2, 2), ("p->m", 1, 1), ("P", 2, 2), ("(+)", 2, 2), ("(-)", 2, 2), ("(<)", 2, 2), ("(*2)", 1, 1), ("(->x)", 1, 1)]).own(), 9 => (format!("(fn(x, y) -> {})", self.scoped(d)), 2, 2), 10 => { let p = self.params(1); let e = self.scoped(d); (format!("(fn({p}) -> {e})"), 0, 3) } _ => ("t".into(), 2, 2) };
        let (lo, hi) = if self.p(self.w) { (0, hi + 1) } else { (lo, hi) };
        let n = lo + self.r.n(hi - lo + 1);
        let mut a: Vec<String> = vec![];
        match self.r.n(8) {
            0 if n > 0 => { for _ in 0..n { a.push(self.bare(d)) } format!("{f} {}", a.join(", ")) }
            1 if n == 1 => { let a = self.e(d, I); format!("{a} . {f}") }
            2 if n == 2 => { let (x, y) = (self.bare(d), self.bare(d)); format!("{x} . {f} {y}") }
            3 if n == 2 && !matches!(f.as_str(), "g" | "h") => format!("{f}({})({})", self.e(d, I), self.e(d, I)),
            4 if n > 0 => { let k = self.r.n(n + 1); for _ in 0..k { a.push(self.e(d, I)) } let rest: Vec<String> = (k..n).map(|_| self.e(d, I)).collect(); if k == n && self.p(30) { a.push("...[]".into()) } else { a.push(format!("...[{}]", rest.join(", "))) } format!("{f}({})", a.join(", ")) }
            _ => { for _ in 0..n { a.push(if self.p(90) { self.e(d, I) } else { self.arg(d, I) }) } format!("{f}({})", a.join(", ")) }
        }
    }
    /// an argument without parentheses starts with a name or a literal
    fn ix(&mut self, d: usize) -> String { if self.p(self.w * 3) { self.e(d.min(1), I) } else { self.r.pick(&["0", "-1", "0", "-1 + 0", "a * 0", "b - b"]).to_string() } }
    fn bare(&mut self, d: usize) -> String { match self.r.n(6) { 0 => self.r.n(10).to_string(), 1 => self.name(I), 2 => "'q'".into(), 3 => format!("{} + {}", self.name(I), self.e(d.min(1), I)), 4 => format!("fn(x) -> {}", self.e(d.min(1), I)), _ => self.name(Any) } }
    fn slice(&mut self, d: usize) -> String {
        let mut q = |g: &mut Self| if g.p(40) { String::new() } else { g.e(d.min(1), I) };
        let (a, b) = (q(self), q(self));
        if self.p(40) { let c = q(self); format!("{a}:{b}:{c}") } else { format!("{a}:{b}") }
    }
    fn params(&mut self, d: usize) -> String {
        let mut v: Vec<String> = vec![];
        let n = self.r.n(3);
        let (mut opt, d) = (false, d.min(1));
        for i in 0..n {
            if self.p(12) && !opt { let mut o = vec![]; let p = self.pat(0, &mut o); v.push(format!("({p})")); continue }
            let nm = if self.p(60) { ["x", "y", "z"][i.min(2)].to_string() } else { self.new_name() };
            if opt || self.p(15) { opt = true; if self.p(50) { v.push(format!("{nm}?")) } else { v.push(format!("{nm} = {}", self.e(d.min(1), I))) } } else { v.push(nm) }
        }
        if self.p(10) { v.push(format!("*{}", self.new_name())) }
        v.join(", ")
    }
    fn fn_body(&mut self, d: usize) -> String {
        let keep = self.names.len();
        let l = std::mem::take(&mut self.in_loop);
        self.names.push(("x".into(), I));
        let n = 1 + self.r.n(2);
        let mut s = String::from("{ ");
        for _ in 0..n { s.push_str(&self.stmt(d.min(1), true).replace('\n', " ; ").replace("{ ;", "{").replace("; }", "}")); s.push_str(" ; ") }
        if self.p(60) { s.push_str(&self.e(d, I)); }
        s.push_str(" }");
        self.names.truncate(keep);
        self.in_loop = l;
        s
    }
    fn atom(&mut self, t: T) -> String {
        match t {
            I => match self.r.n(9) { 0..=4 => self.name(I), 5 => self.r.n(10).to_string(), 6 => self.r.pick(&["true", "false", "nil", "3i", "1 + 2i", "0x1f", "0b101", "1_000", "-1", "5 . rational", "9223372036854775807", "-4"]).to_string(), 7 => "p->x".into(), _ => self.r.n(4).to_string() },
            L => match self.r.n(6) { 0..=2 => self.name(L), 3 => "[]".into(), 4 => "(2, 3)".into(), _ => "[5, 6, 7]".into() },
            S => match self.r.n(3) { 0 => "'abc'".into(), 1 => "\"q\"".into(), _ => self.name(S) },
            F => match self.r.n(5) { 0 => "(+1)".into(), 1 => "f".into(), 2 => "fn(x) -> x".into(), _ => self.name(F) },
            D => match self.r.n(3) { 0 => "{1: 2}".into(), _ => self.name(D) },
            Any => { let t = self.ty(); self.atom(if t == Any { I } else { t }) }
        }
    }
    fn block(&mut self, d: usize, func: bool) -> String {
        let keep = self.names.len();
        self.depth += 1;
        let local = std::mem::take(&mut self.local);
        let n = self.r.n(3);
        let mut s = String::from("{");
        for _ in 0..n { let x = self.stmt(d.saturating_sub(1), func); s.push_str(if self.p(80) { "\n" } else { " " }); s.push_str(&x); if !s.ends_with('\n') { s.push_str(if self.p(70) { "\n" } else { " ;" }) } }
        s.push_str(" }");
        self.names.truncate(keep);
        self.depth -= 1;
        self.local = local;
        s
    }
    fn stmt(&mut self, d: usize, func: bool) -> String {
        let w: [u32; 16] = match self.id {
            //      let pat asg prt exp  if for whl  do lop  fn ret jmp ass str fun
            "C01" => [14, 4, 10, 10, 2, 6, 6, 3, 2, 2, 8, 2, 3, 1, 1, 10],
            "C02" => [6, 2, 8, 10, 2, 12, 10, 8, 6, 5, 3, 3, 10, 3, 1, 1],
            "C03" => [6, 2, 4, 22, 4, 3, 3, 1, 1, 1, 12, 2, 1, 1, 1, 4],
            "C04" => [6, 16, 20, 12, 2, 2, 7, 1, 1, 1, 4, 1, 1, 0, 1, 2],
            "C05" => [6, 2, 8, 14, 3, 3, 3, 1, 1, 1, 4, 1, 1, 1, 12, 2],
            _ => [7, 3, 8, 24, 3, 4, 4, 2, 1, 1, 3, 1, 1, 2, 1, 1],
        };
        let k = if d == 0 { self.r.w(&w[..5]) } else { self.r.w(&w) };
        let x = if self.id == "C06" { 4 } else { 3 };
        match k {
            0 => { let t = self.ty(); let e = self.e(x, t); let n = self.new_name(); self.names.push((n.clone(), t)); if self.p(15) { let m = self.new_name(); let e2 = self.e(2, I); if m == n { return format!("let {n} = {e}") } self.names.push((m.clone(), I)); format!("let {n} = {e}, {m} = {e2}") } else if self.p(4) { format!("let {n}") } else { format!("let {n} = {e}") } }
            1 => { let mut o = vec![]; let e = self.seq(2); let p = self.pat(1, &mut o); for n in o { self.names.push((n, I)) } format!("let {p} = {e}") }
            2 => self.assign(x),
            3 => format!("print({})", self.commas(1, 2, |g| { let t = g.ty(); g.arg(x, t) })),
            4 => { let e = self.e(x, Any); if e.starts_with(['[', '(', '{', '-']) { format!("print({e})") } else { e } }
            5 => { let mut s = format!("if {} {}", self.e(2, I), self.block(d, func)); while self.p(25) { s.push_str(&format!(" elif {} {}", self.e(2, I), self.block(d, func))) } if self.p(40) { s.push_str(&format!(" else {}", self.block(d, func))) } s }
            6 => {
                let mut o = vec![]; let e = if self.p(30) { format!("{}, {}", self.e(1, I), self.e(1, I)) } else { self.e(2, L) };
                let p = if self.p(75) { let n = self.new_name(); o.push(n.clone()); n } else { self.pat(1, &mut o) };
                let keep = self.names.len(); for n in o { self.names.push((n, I)) }
                self.in_loop += 1; let b = self.block(d, func); self.in_loop -= 1; self.names.truncate(keep);
                let els = if self.p(15) { format!(" else {}", self.block(d, func)) } else { String::new() };
                format!("for {p} in {e} {b}{els}")
            }
            7 => { let n = format!("w{}", { self.fresh += 1; self.fresh }); self.in_loop += 1; let b = self.block(d, func); self.in_loop -= 1; let els = if self.p(20) { format!(" else {}", self.block(d, func)) } else { String::new() }; format!("let {n} = 0\nwhile ({n} += 1) < {} {b}{els}", 1 + self.r.n(4)) }
            8 => { let n = format!("w{}", { self.fresh += 1; self.fresh }); self.in_loop += 1; let b = self.block(d, func); self.in_loop -= 1; let els = if self.p(20) { format!(" else {}", self.block(d, func)) } else { String::new() }; format!("let {n} = 0\ndo {} while {n} < {}{els}", b.replacen('{', &format!("{{ {n} += 1 ;"), 1), 1 + self.r.n(4)) }
            9 => { let n = format!("w{}", { self.fresh += 1; self.fresh }); self.in_loop += 1; let b = self.block(d, func); self.in_loop -= 1; format!("let {n} = 0\nloop {}", b.replacen('{', &format!("{{ if ({n} += 1) > {} {{ break }} ;", 1 + self.r.n(4)), 1)) }
            10 => {
                let n = self.new_name();
                let p = self.params(2);
                let keep = self.names.len();
                let l = std::mem::take(&mut self.in_loop);
                for q in ["x", "y"] { self.names.push((q.into(), I)) }
                let b = if self.p(40) { let t = self.ty(); format!("-> {}", self.e(3, t)) } else { self.block(d, true) };
                self.names.truncate(keep); self.in_loop = l;
                self.names.push((n.clone(), F));
                format!("fn {n}({p}) {b}")
            }
            11 => if func || self.p(30) { if self.p(20) { "return ;".into() } else { format!("return {}", self.e(2, I)) } } else { format!("print({})", self.e(x, I)) },
            12 => if self.in_loop > 0 { let j = *self.r.pick(&["break", "continue"]); if self.p(70) { format!("if {} {{ {j} }}", self.e(1, I)) } else { j.into() } } else { format!("print({})", self.e(x, I)) },
            13 => if self.p(8) { "exit".into() } else if self.p(50) { format!("assert {} == {}", self.e(1, I), self.e(1, I)) } else { format!("assert {} : {}", self.e(2, I), self.e(2, Any)) },
            14 if self.depth == 0 => {
                self.fresh += 1;
                let n = format!("Q{}", self.fresh);
                let m = self.p(30);
                let k = 1 + self.r.n(3);
                let fields = ["x", "y", "z"][..k].join(", ");
                let mut s = if m { format!("module {n} {{\n") } else { format!("struct {n}({fields}) {{\n") };
                for i in 0..1 + self.r.n(2) { let keep = self.names.len(); self.names.push(("x".into(), I)); let o = std::mem::replace(&mut self.method, !m); let l = std::mem::take(&mut self.in_loop); let b = if self.p(60) { format!("-> {}", self.e(2, I)) } else { self.block(1, true) }; self.method = o; self.in_loop = l; self.names.truncate(keep); s.push_str(&format!("fn k{i}({}x) {b}\n", if m { "" } else { "self, " })) }
                s.push_str("}\n");
                if m { s.push_str(&format!("print({n}->k0({}))", self.e(1, I))) } else { let v = self.new_name(); s.push_str(&format!("let {v} = {n}({})\nprint({v}, {v}->k0({}), {v}->x)", self.commas(k, k, |g| g.e(1, I)).trim_end_matches(','), self.e(1, I))); self.names.push((v, Any)) }
                s
            }
            _ => { let n = self.new_name(); let c = self.name(I); self.names.push((n.clone(), F)); format!("let {n} = fn() {{ {c} += 1 ; {c} }}\nprint({n}(), {c})") }
        }
    }
    pub fn program(&mut self) -> String {
        let mut s = PRE.to_string();
        let n = 2 + self.r.n(6);
        for _ in 0..n { let x = self.stmt(2, false); s.push_str(&x); s.push_str(if self.r.p(85) { "\n" } else { " ;\n" }) }
        s.push_str("print(a, b, c, l, l2, v, s, d, e, p)\n");
        let _ = self.cut;
        s
    }
}
