//! Order of evaluation: reads of variables, fields and elements next to expressions that change them, joined by every operator and form of call.
use crate::props::{judge, Mode};
use crate::rng::Rng;
use crate::sup::*;

struct O<'a> { r: &'a mut Rng, vars: Vec<String>, effects: Vec<String> }
impl O<'_> {
    fn atom(&mut self) -> String {
        match self.r.n(11) {
            0 => (1 + self.r.n(9)).to_string(),
            1..=5 => self.r.pick(&self.vars).clone(),
            6..=9 => self.r.pick(&self.effects).clone(),
            _ => { let v = self.r.pick(&self.vars).clone(); format!("(- {v})") }
        }
    }
    fn op(&mut self) -> &'static str { *self.r.pick(&["+", "-", "*", "+", "-", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "%", "/", "<<", ">>", "**"]) }
    /// an expression for an int (or a bool, which the operators take for one)
    fn e(&mut self, d: usize) -> String {
        if d == 0 { return self.atom() }
        let d = d - 1;
        match self.r.n(24) {
            0..=2 => self.atom(),
            3..=6 => { let o = *self.r.pick(&["+", "-", "*", "&", "|", "^", "+", "-"]); let (a, b) = (self.e(d), self.e(d)); format!("({a} {o} {b})") }
            7 => { let o = *self.r.pick(&["<", ">", "<=", ">=", "==", "!="]); let (a, b) = (self.e(d), self.e(d)); format!("int({a} {o} {b})") }
            // sections
            8..=10 => { let o = self.op(); let (a, b) = (self.e(d), self.e(d)); let b = if o == "<<" || o == ">>" || o == "**" { format!("({b} & 7)") } else if o == "%" || o == "/" { format!("(({b} & 7) + 1)") } else { b }; if matches!(o, "<" | ">" | "<=" | ">=" | "==" | "!=") { format!("int({a} . ({o} {b}))") } else if o == "-" { format!("({a} . ((0 - {b}) +))") } else { format!("({a} . ({o} {b}))") } }
            11 | 12 => { let o = *self.r.pick(&["+", "*", "&", "|", "^"]); let (a, b) = (self.e(d), self.e(d)); format!("({a} . ({b} {o}))") }
            13 => { let (a, b) = (self.e(d), self.e(d)); format!("({a} . two({b}))") }
            14 => { let (a, b, c) = (self.e(d), self.e(d), self.e(d)); format!("({a} . three({b}, {c}))") }
            15 => { let (a, b) = (self.e(d), self.e(d)); let n = *self.r.pick(&["max", "min", "add", "two"]); format!("{n}({a}, {b})") }
            16 => { let (a, b, c) = (self.e(d), self.e(d), self.e(d)); format!("three({a}, {b}) ({c})") }
            17 => { let (a, b, c) = (self.e(d), self.e(d), self.e(d)); format!("(if {a} > 3 then {b} else {c})") }
            18 => { let (a, b, c) = (self.e(d), self.e(d), self.e(d)); format!("([{a}, {b}, {c}] [{}])", self.r.n(3)) }
            19 => { let (a, b) = (self.e(d), self.e(d)); let v = self.r.pick(&self.vars).clone(); format!("([{a}, {v}] . map(+ {b}) . sum)") }
            20 => { let (a, b) = (self.e(d), self.e(d)); let w = *self.r.pick(&["and", "or"]); format!("({a} {w} {b})") }
            21 => { let (a, b) = (self.e(d), self.e(d)); format!("({a} . (fn(x) -> x + {b}))") }
            22 => { let (a, b) = (self.e(d), self.e(d)); let c = self.e(d); format!("({a} . (+ {b}) . (* {c}))") }
            _ => { let (a, b, c) = (self.e(d), self.e(d), self.e(d)); let (o, q) = (*self.r.pick(&["<", "<=", ">", "!="]), *self.r.pick(&["<", ">=", ">", "=="])); format!("int({a} {o} {b} {q} {c})") }
        }
    }
}

pub fn order(c: &mut Ctx, id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    // where the variables live: globals, locals of a function, variables captured by an inner function, or globals declared after their use
    let place = r.n(4);
    let mut t = String::from("struct S(v, w)\nfn two(x, y) -> x * 3 + y\nfn three(x, y, z) -> x * 9 + y * 3 + z\nfn add(x, y?) -> if y == nil then x else x + y\n");
    let decl = format!("let a = {}, b = {}, xs = [1, 2, 3], s = S(4, 5)", r.n(9), r.n(9));
    let late = place == 3;
    let fns = |pre: &str| format!("{pre}fn na() {{ a += 1 ; a }}\n{pre}fn nb(k) {{ b = b * 2 + k ; b - a }}\n{pre}fn nx() {{ xs [1] += 1 ; xs [0] = a ; xs [1] }}\n{pre}fn ns() {{ s->v += 2 ; s->w }}\n{pre}fn swap() {{ a, b = b, a ; a }}\n");
    let vars = ["a", "b", "xs [0]", "xs [1]", "s->v", "s->w", "len(xs)", "a", "b"];
    let eff = ["na()", "nb(1)", "nx()", "ns()", "swap()", "(a += 1)", "(b = a + 1)", "(xs [0] += 1)", "(s->v = a)", "(a = 7)", "(b -= 2)", "na()"];
    let (nv, ne) = (1 + r.n(5), 1 + r.n(5));
    let vars: Vec<String> = (0..nv).map(|_| (*r.pick(&vars)).to_string()).collect();
    let eff: Vec<String> = (0..ne).map(|_| (*r.pick(&eff)).to_string()).collect();
    let k = 2 + r.n(6);
    let depth = 1 + r.n(3);
    let mut body: Vec<String> = vec![];
    { let mut o = O { r: &mut r, vars, effects: eff };
      for _ in 0..k { let e = o.e(depth); body.push(match o.r.n(6) { 0 => format!("a = {e} % 1000 ; print(a, b, xs, s)"), 1 => format!("xs [{}] = {e} ; print(xs, a)", o.r.n(3)), 2 => format!("s->v = {e} ; print(s, a)"), 3 => format!("if {e} > 4 {{ print('more', a, b) }} else {{ print('less', a, b) }}"), _ => format!("print({e}, a, b, xs, s)") }) } }
    match place {
        0 => { t += &format!("{decl}\n{}", fns("")); for b in body { t += &b; t.push('\n') } }
        1 => { t += &format!("fn main() {{\n    {decl}\n{}", fns("    ")); for b in body { t += &format!("    {b}\n") } t += "}\nmain()\n" }
        2 => { t += &format!("fn main() {{\n    {decl}\n{}    fn inner() {{\n", fns("    ")); for b in body { t += &format!("        {b}\n") } t += "    }\n    inner()\n    inner()\n    print(a, b, xs, s)\n}\nmain()\n" }
        _ => { t += &fns(""); t += "fn go() {\n"; for b in body { t += &format!("    {b}\n") } t += &format!("}}\n{decl}\ngo()\ngo()\n") }
    }
    let _ = late;
    judge(c, t, if id == "C07" { Mode::Both } else { Mode::Third }, b"", false)
}
