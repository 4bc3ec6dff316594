//! C18: every operation and library function applied to values of every type, self-referential data, and collections changed by callbacks.
use std::cell::RefCell;
use std::rc::Rc;

use cordy_sys::repl::{ReadResult, Repl, RunResult};
use cordy_sys::util::Noop;

use crate::drive::{guard, trace_of, End, Sink};
use crate::props::{judge, showing, Mode};
use crate::rf::natives::{HIDDEN, TABLE};
use crate::rng::{hash, Rng};
use crate::sup::*;

pub struct M<'a> { pub r: &'a mut Rng, pub names: Vec<String>, edges: bool, n: usize, finite: bool }

const FUNS: &[&str] = &["fn() -> 1", "fn(x) -> x", "fn(x) -> [x, x]", "fn(x) -> x == 1", "fn(x, y) -> x", "fn(x, y) -> [y, x]", "fn(x, y) -> str(x) < str(y)", "fn(x, y) -> -1", "fn(x, y, z) -> z", "fn(*x) -> x", "fn(x, y?) -> y", "fn(x, y = 2) -> (x, y)", "fn((a, b)) -> a", "fn((a, *b), c) -> b", "fn(x) -> nil", "fn(x) -> x + 1", "fn(x) -> 1 / 0", "fn(x) -> nil()", "fn(x) -> fn(y) -> x", "fn(x) { }", "fn(x) { return }", "fn(x) { assert x : 'no' }",
    "len", "int", "str", "print", "typeof", "(+)", "(- 1)", "(< 3)", "(not)", "(-)", "(in)", "(is)", "(is int)", "map(str)", "push(3)", "any", "list", "set", "dict", "heap", "vector", "function", "bool", "rational", "complex", "iterable", "min", "sort", "sum", "reverse", "range", "enumerate", "eval", "repr", "copy", "[1:]", "[:]", "[0]", "[::-1]", "(->a)", "(->m)", "S1", "S1->m", "M1", "M1->f", "S1(1, 2)->m", "memoize(fn(x) -> x)", "memoize(len)", "default(3)", "reduce(+)", "print . str", "zip([1, 2])", "map", "filter(fn(x) -> x)", "fr", "f3", "f3(1)", "f3(1, 2)", "loc()"];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in", "and", "or", "."];
const STRS: &[&str] = &["''", "'a'", "'abc'", "'abcdefgh'", "'é🦀'", "'a b c'", "'%d'", "'%s %s'", "'%'", "'%05x|%b'", "'('", "'[a-z]+'", "'1'", "'-12'", "'x -> x'", "'1 + 1'", "'nil'", "'[1, 2, 3]'", "'3/4'", "'fn() -> 3'", "'1i'", "'\\n'"];

impl<'a> M<'a> {
    pub fn new(r: &'a mut Rng, finite: bool) -> M<'a> { let edges = r.p(25); M { r, names: vec![], edges, n: 0, finite } }
    fn int(&mut self) -> String {
        if self.edges && self.r.p(40) { return self.r.pick(&["4611686018427387903", "(-4611686018427387903 - 1)", "-4611686018427387903", "4294967296", "2147483648", "-2147483649", "63", "64", "-64", "62", "1000", "1 << 40", "(1 << 61)", "-(1 << 61)"]).to_string() }
        self.r.range(-4, 6).to_string()
    }
    pub fn value(&mut self, d: u32) -> String {
        let k = self.r.n(if d > 0 { 30 } else { 14 });
        match k {
            0 => "nil".into(),
            1 => self.r.pick(&["true", "false"]).to_string(),
            2..=4 => self.int(),
            5 => { if self.edges { "2i".into() } else { self.r.pick(&["rational(1, 2)", "rational(3)", "1 / rational(3)", "(1 + 2i)", "3i", "rational('-7/3')"]).to_string() } }
            6..=8 => self.r.pick(STRS).to_string(),
            9 => { let f = *self.r.pick(FUNS); format!("({f})") }
            10 => self.r.pick(&["[]", "set()", "dict()", "heap()", "range(0)", "[1, 2, 3]", "(1, 2)", "{1, 2}", "{1: 2}", "vector()", "vector(1)"]).replace("()", if self.r.p(50) { "([])" } else { "()" }).replace("range([])", "range(0)").replacen("([])", "()", 1),
            11 => self.r.pick(&["range(5)", "range(3, -3, -2)", "enumerate('abc')", "enumerate([nil])", "range(1, 1)"]).to_string(),
            12 => self.r.pick(&["S1(1, 2)", "S2('x')", "S1", "M1", "S1(nil, S2(3))"]).to_string(),
            13 => "nil".into(),
            14..=16 => { let n = self.r.n(4); let e: Vec<String> = (0..n).map(|_| self.get(d - 1)).collect(); format!("[{}]", e.join(", ")) }
            17 => { let n = 2 + self.r.n(2); let e: Vec<String> = (0..n).map(|_| self.get(d - 1)).collect(); format!("({})", e.join(", ")) }
            18 => { let n = 1 + self.r.n(3); let e: Vec<String> = (0..n).map(|_| self.get(d - 1)).collect(); format!("{{{}}}", e.join(", ")) }
            19 | 20 => { let n = 1 + self.r.n(3); let e: Vec<String> = (0..n).map(|_| format!("{}: {}", self.get(d - 1), self.get(d - 1))).collect(); format!("{{{}}}", e.join(", ")) }
            21 => { let n = self.r.n(4); let e: Vec<String> = (0..n).map(|_| self.int()).collect(); format!("heap([{}])", e.join(", ")) }
            22 => { let f = self.r.pick(&["fn() -> []", "0", "fn() -> 1 / 0", "[]", "list", "fn(x) -> x"]).to_string(); let v = self.value(d - 1); if self.r.p(70) { format!("default({f}, dict())") } else { format!("default({f}, {v})") } }
            23 => format!("(eval {})", self.r.pick(STRS)),
            24 => { let v = self.get(d - 1); format!("memoize({v})") }
            _ => { let f = *self.r.pick(FUNS); format!("({f})") }
        }
    }
    fn get(&mut self, d: u32) -> String { if !self.names.is_empty() && self.r.p(55) { self.r.pick(&self.names).clone() } else { self.value(d) } }
    fn name(&mut self) -> String { if self.names.is_empty() { "z0".into() } else { self.r.pick(&self.names).clone() } }
    fn paren(s: String) -> String { if s.starts_with('-') || s.contains(" << ") { format!("({s})") } else { s } }
    fn native(&mut self) -> String {
        loop {
            let n = if self.r.p(12) { let x = self.r.pick(HIDDEN); if x.name.ends_with('s') { continue } x.shown } else { self.r.pick(TABLE).name };
            if matches!(n, "write_text" | "read_text" | "env" | "monitor" | "argv") { continue }
            if self.edges && matches!(n, "(*)" | "permutations" | "combinations" | "(**)" | "range") { continue }
            return n.to_string()
        }
    }
    fn args(&mut self, name: &str) -> Vec<String> {
        let arity = TABLE.iter().find(|n| n.name == name).map_or(2, |n| if n.args.is_empty() { 0 } else if n.args == "..." { self.r.n(4) } else { n.args.matches(',').count() + 1 });
        let n = match self.r.n(10) { 0 => self.r.n(5), 1 => arity + 1, _ => arity };
        (0..n).map(|i| {
            if name == "permutations" || name == "combinations" { if i == 0 { return self.r.range(-1, 3).to_string() } if self.finite { return "[1, 2, 3, 4]".into() } }
            // the usual roles of parameters, so that a call gets beyond its first check
            let role = TABLE.iter().find(|x| x.name == name).map_or("", |x| x.args.split(", ").nth(i).unwrap_or(""));
            if self.r.p(55) { match role {
                "f" | "predicate" | "key_or_cmp" | "replacer" | "value_or_predicate" => { let f = *self.r.pick(FUNS); return format!("({f})") }
                "it" | "iter" | "collection" | "this" | "other" | "dictionary" => { let mut v = self.get(2); for _ in 0..4 { if v.contains(['[', '{']) || self.names.contains(&v) { break } v = self.get(2) } return v }
                "index" | "start" | "stop" | "step" => return self.int(),
                "pattern" | "joiner" | "expr" => return self.r.pick(STRS).to_string(),
                _ => {}
            } }
            self.get(2)
        }).collect()
    }
    fn call(&mut self, f: &str, a: Vec<String>) -> String {
        let Some((last, init)) = a.split_last() else { return if self.r.p(50) { format!("{f}()") } else { format!("{f}(...[])") } };
        match self.r.n(8) {
            0..=2 => format!("{f}({})", a.join(", ")),
            3 if !init.is_empty() => format!("{f}({})({last})", init.join(", ")),
            3 | 4 => format!("({last} . {f})"),
            5 if !init.is_empty() => format!("({last} . {f}({}))", init.join(", ")),
            6 => format!("{f}(...[{}])", a.join(", ")),
            7 if !init.is_empty() => format!("{f}({}, ...{})", init.join(", "), last),
            _ => format!("{f}({})", a.join(", ")),
        }
    }
    fn slice(&mut self) -> String {
        let mut p = |s: &mut Self| match s.r.n(8) { 0..=2 => String::new(), 3 => "nil".into(), 4 => s.get(0), _ => s.int() };
        let (a, b) = (p(self), p(self));
        if self.r.p(50) { let c = p(self); format!("{a}:{b}:{c}") } else { format!("{a}:{b}") }
    }
    fn expr(&mut self) -> String {
        match self.r.n(24) {
            0..=9 => { let f = self.native(); let a = self.args(&f); self.call(&f, a) }
            10..=12 => {
                let (a, b) = (self.get(2), self.get(2));
                let mut o = *self.r.pick(OPS);
                if matches!(o, "*" | "**" | "<<") && self.edges { o = "-" }
                let rhs = if o == "is" || o == "is not" { if self.r.p(60) { self.r.pick(&["int", "str", "list", "S1", "any", "function", "iterable", "nil", "bool", "vector", "set", "dict", "heap", "complex", "rational", "M1"]).to_string() } else { b } } else { b };
                format!("({} {o} {})", Self::paren(a), Self::paren(rhs))
            }
            13 => { let a = self.get(2); let o = *self.r.pick(&["-", "!", "not "]); format!("({o}{})", Self::paren(a)) }
            14 => { let (a, b) = (self.get(2), self.get(1)); format!("({} [{b}])", Self::paren(a)) }
            15 => { let a = self.get(2); let s = self.slice(); format!("({} [{s}])", Self::paren(a)) }
            16 => { let a = self.get(2); let n = self.r.n(4); let b: Vec<String> = (0..n).map(|_| self.get(1)).collect(); format!("({})({})", a, b.join(", ")) }
            17 => { let a = self.get(2); let f = *self.r.pick(&["a", "b", "m", "f", "nofield"]); format!("({}->{f})", Self::paren(a)) }
            18 => { let (a, b) = (self.get(1), self.get(1)); format!("[...{}, {b}]", a) }
            19 => { let (a, b, c) = (self.get(1), self.get(1), self.get(1)); let (o, p) = (*self.r.pick(&["<", "<=", "==", "!="]), *self.r.pick(&[">", ">=", "==", "<"])); format!("({} {o} {} {p} {})", Self::paren(a), Self::paren(b), Self::paren(c)) }
            20 => { let (a, b) = (self.get(2), self.get(2)); format!("(if {a} then {b} else nil)") }
            21 => { let (a, b) = (*self.r.pick(STRS), self.get(2)); format!("({a} % {})", Self::paren(b)) }
            22 => { let (a, b) = (self.get(2), *self.r.pick(FUNS)); format!("({} . ({b}))", Self::paren(a)) }
            _ => { let (a, b) = (self.get(2), self.native()); let c = self.get(1); format!("({} . {b}({c}))", Self::paren(a)) }
        }
    }
    fn fresh(&mut self) -> String { self.n += 1; format!("v{}", self.n) }
    /// one statement on one line
    pub fn stmt(&mut self) -> String {
        let x = self.name();
        match self.r.n(30) {
            0..=8 => { let e = self.expr(); let n = self.fresh(); let s = if self.finite { format!("let {n} ; {n} = {e} ; print(repr({n}))") } else { format!("let {n} = {e} ; print(repr({n}))") }; self.names.push(n); s }
            9..=11 => { let e = self.expr(); format!("print({e})") }
            12 => { let (i, v) = (self.get(1), self.get(1)); format!("{x} [{i}] = {v}") }
            13 => { let v = self.get(1); let mut o = *self.r.pick(&["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "**=", "<<=", ".=", "max=", "min="]); if self.edges && matches!(o, "*=" | "**=" | "<<=") { o = "-=" } format!("{x} {o} {v}") }
            14 => { let (i, v) = (self.get(1), self.get(1)); let o = *self.r.pick(&["+=", "-=", ".=", "max="]); format!("{x} [{i}] {o} {v}") }
            15 => { let f = *self.r.pick(&["a", "b", "m", "zz"]); let v = self.get(1); format!("{x}->{} = {v}", if f == "zz" { "a" } else { f }) }
            16 => { let v = self.get(2); let p = *self.r.pick(&["a, b", "(a, b)", "*a, b", "a, *b, c", "(a, (b, c))", "_, a", "(*_, a)"]); let p = if p.starts_with('(') { p.to_string() } else { format!("({p})") }; format!("if true {{ let {p} = {v} ; print(a) }}") }
            17 => { let v = self.get(2); format!("for q in {v} {{ print(q) }}") }
            18 => { let (v, b) = (self.get(2), self.callback_body(&x)); format!("for q in {v} {{ {} }}", b.replace("X", "q")) }
            // collections changed while they are walked, self-reference
            19 => { let a = self.get(1); let f = *self.r.pick(&["push(A, X)", "X . push(X)", "X [0] = X", "X ['k'] = X", "X->a = X", "X . insert(0, X)", "X . push((1, X))", "X . push([X])", "X . default(X)", "X [X] = X", "X [(1, 2)] = [X]"]); f.replace('A', &a).replace('X', &x) }
            20..=25 => {
                let h = *self.r.pick(&["map", "filter", "flat_map", "sort_by", "sort_by", "min_by", "max_by", "reduce", "any", "all", "find", "rfind", "index_of", "rindex_of", "group_by", "for", "memo", "default", "replace", "eqkey"]);
                let two = matches!(h, "sort_by" | "reduce") || matches!(h, "min_by" | "max_by") && self.r.p(50);
                let b = self.callback_body(&x);
                let it = if self.r.p(75) { x.clone() } else { self.get(2) };
                let f = if two { format!("fn(p, q) {{ {} ; {} }}", b.replace("X", "p"), self.r.pick(&["1", "-1", "0", "p", "len(str(p)) - len(str(q))", "nil", "'x'", "[]"])) } else { format!("fn(p) {{ {} ; {} }}", b.replace("X", "p"), self.r.pick(&["p", "true", "nil", "[p]", "1", "false"])) };
                match h {
                    "for" => format!("for q in {it} {{ {} }}", b.replace("X", "q")),
                    "memo" => { let n = self.fresh(); let a = self.get(1); let s = format!("let {n} = memoize({f}) ; {n}({a}) ; print({n}({x}), {n}({a}))"); self.names.push(n); s }
                    "default" => { let n = self.fresh(); let a = self.get(1); let s = format!("let {n} = default(fn() {{ if g0 < 40 {{ {} }} ; g0 }}, dict()) ; {n} [{a}] ; print({n} [{x}], {n})", b.replace("X", "g0")); self.names.push(n); s }
                    "replace" => format!("print(replace('[a-z]', {f}, 'abc'))"),
                    "eqkey" => { let a = self.get(1); format!("let kk{0} = {{{x}: {x}}} ; {a} in kk{0} ; {x} . push({a}) ; print({x} in kk{0}, kk{0} [{x}])", { self.n += 1; self.n }) }
                    _ => format!("print({h}({f}, {it}))"),
                }
            }
            26 => { let v = self.get(1); format!("assert {v} : {x}") }
            27 => { let v = self.get(2); format!("if {v} {{ print('t') }} elif {x} {{ print('u') }} else {{ print('f') }}") }
            28 => { let v = self.get(2); let n = self.fresh(); let s = format!("let {n} = copy({v}) ; print({n} == {v}, {n} is typeof({v}))"); self.names.push(n); s }
            _ => { let (a, b) = (self.get(1), self.get(1)); format!("{x} = {} ; {x} == {b}", a) }
        }
    }
    /// what a callback does to the collection `x`; growth is bounded
    fn callback_body(&mut self, x: &str) -> String {
        let y = self.name();
        let s = *self.r.pick(&["pop(Y)", "clear(Y)", "grow(Y, X)", "grow(Y, 1)", "grow(Y, [X])", "remove(X, Y)", "remove(0, Y)", "pop_front(Y)", "Y [0] = nil", "Y [0] = X", "sort(Y)", "grow(Y, Y)", "insert(0, 1, Y)", "Y [X] = 1", "print(len(Y))", "Y = nil", "Y = X", "push_front(X, Y)", "reverse(Y)", "keys(Y)", "Y . map(str)", "copy(Y)", "X + 1", "X()", "eval('1')", "eval('[1, 2]')", "pop(Y) ; grow(Y, 9)", "Y->a = X", "repr(Y)", "Y in Y", "Y == X"]);
        let s = if matches!(s, "insert(0, 1, Y)" | "push_front(X, Y)" | "Y [X] = 1") { format!("if cnt() {{ {s} }}") } else { s.to_string() };
        s.replace('Y', if self.r.p(80) { x } else { &y })
    }
    pub fn prelude() -> Vec<String> {
        ["struct S1(a, b) { fn m(self, x) { (a, x) } fn t(x) { x } }", "struct S2(a)", "module M1 { fn f(x) { x } fn g() { 7 } }", "let g0 = 0, z0 = [1, 2, 3]", "fn cnt() { g0 += 1 ; g0 < 60 }", "fn grow(c, x) { if cnt() { push(x, c) } ; x }", "fn fr(x) -> if x is int and 0 < x < 9 then fr(x - 1) else x", "fn f3(a, b, c) -> [a, b, c]", "fn loc() { let q = [1] ; fn() { push(2, q) ; q [:3] } }"].iter().map(|s| s.to_string()).collect()
    }
    pub fn body(&mut self, n: usize) -> Vec<String> {
        let mut v = vec![];
        self.names.push("z0".into());
        let k = 1 + self.r.n(5);
        for _ in 0..k { let n = self.fresh(); let e = self.value(2); v.push(format!("let {n} = {e}")); self.names.push(n) }
        for _ in 0..n { v.push(self.stmt()) }
        v
    }
}

fn wf(text: &str) -> Option<String> {
    // one formatted error: a message, one location, and the quoted source
    if trace_of(text).is_none() { return Some(format!("the error is not formatted: {text:?}")) }
    None
}

/// single programs: the reference bounds the run and, where it can judge, decides what is printed
pub fn misuse(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut m = M::new(&mut r, false);
    let n = 1 + m.r.n(6);
    let b = m.body(n);
    let mut lines = M::prelude();
    lines.extend(b);
    let text = lines.join("\n") + "\n";
    let mut out = judge(c, text, Mode::Third, b"", false);
    out.nontrivial = true;
    out
}

/// sessions: after each failing entry the state set up at the start must be intact
pub fn canary(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut m = M::new(&mut r, true);
    let n = 4 + m.r.n(10);
    let b = m.body(n);
    let mut lines = M::prelude();
    let at = lines.len();
    lines.extend(b);
    let text = lines.join("\n");
    let h = hash(&text);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text } }
    // the same entries in the reference, to learn that they end
    if let crate::drive::Ref::Limit = crate::drive::reference(&text, b"", &[], 100_000) { return CaseOut { verdict: Verdict::Skip("step limit"), hash: h, nontrivial: false, text } }
    let sink = Sink(Rc::new(RefCell::new(Vec::new())));
    let mut repl = Repl::new(sink.clone(), Noop);
    let mut log = String::new();
    let mut k = 0;
    let mut go = |c: &mut Ctx, l: &str, log: &mut String| -> Result<String, String> {
        let before = sink.0.borrow().len();
        log.push_str(&format!(">>> {l}\n"));
        match guard(|| repl.run(ReadResult::Ok(l.to_string()))) {
            Ok(RunResult::Exit) | Ok(RunResult::Error(_)) => return Err("the session ended".into()),
            Ok(_) => {}
            Err(End::OutputLimit) => return Err("limit".into()),
            Err(End::Panic(p)) if p.starts_with("capacity overflow") => return Err("limit".into()),
            Err(e) => return Err(format!("the interpreter panicked: {e:?}")),
        }
        let got = String::from_utf8_lossy(&sink.0.borrow()[before..]).into_owned();
        log.push_str(&got);
        if repl.prompt() != ">>> " { return Err("a complete entry is continued".into()) }
        if got.contains("\n  at: line ") { c.count("entries that failed", 1) } else { c.count("entries that succeeded", 1) }
        Ok(got)
    };
    let canary = ["let ca0 = [1, 'x', {3: 4}], ca1 = 5", "struct CS(a, b) { fn sum(self) -> a + b }", "let ca2 = CS(2, 40), ca3 = memoize(fn(x) -> x * 2 + ca0[0])", "fn mk() { let n = 0 ; fn() { n += 1 ; n } }", "let ca4 = mk()"];
    for (i, l) in lines.iter().enumerate() {
        if i == at { for l in canary { if let Err(e) = go(c, l, &mut log) { return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: log } } } }
        let got = match go(c, l, &mut log) { Ok(g) => g, Err(e) if e == "limit" => return CaseOut { verdict: Verdict::Skip("memory or output limit"), hash: h, nontrivial: false, text }, Err(e) => return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: log } };
        let failed = got.contains("\n  at: ");
        if i < at && failed { return CaseOut { verdict: Verdict::Differ("the prelude fails".into()), hash: h, nontrivial: true, text: log } }
        if failed { if got.matches("\n  at: line ").count() != 1 && !got.contains("eval") && !got.contains("Undeclared identifier") && !got.contains("Expected a") { return CaseOut { verdict: Verdict::Differ(format!("not exactly one formatted error: {got}")), hash: h, nontrivial: true, text: log } } if let Some(e) = wf(&got) { return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: log } } }
        if failed && i >= at || i + 1 == lines.len() {
            k += 1;
            let want = format!("[1, 'x', {{3: 4}}] 5 42 {} {k} ok\n", 2 * k + 1);
            match go(c, &format!("print(ca0, ca1, ca2->sum(), ca3({k}), ca4(), if ca2 is CS then 'ok' else 'no') ;"), &mut log) {
                Ok(g) if g == want => c.count("state checks after an error", 1),
                Ok(g) => return CaseOut { verdict: Verdict::Differ(format!("state after an error: expected {want:?}, observed {g:?}")), hash: h, nontrivial: true, text: log },
                Err(e) => return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: log },
            }
        }
    }
    CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: true, text: log }
}
