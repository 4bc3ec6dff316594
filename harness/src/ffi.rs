//! C23: calls of native modules in the built command line tool. The same program with ordinary modules, whose functions say in Cordy what the
//! functions of the C library (/verif/harness/ffi/lib.c) say in C, is run in the reference.
use std::ffi::OsString;

use crate::cli::{crashed, exec, literal, phrase, Call, Scratch};
use crate::drive::{self, *};
use crate::props::showing;
use crate::rng::{hash, Rng};
use crate::sup::*;

fn libs() -> std::path::PathBuf { std::path::PathBuf::from(std::env::var_os("CORDYV_FFI").unwrap_or_else(|| "/verif/target/ffi".into())) }

/// what the functions of the library do, in Cordy
const MODEL: &str = r#"fn zz_fail(m) { print('<ERR>' + m) ; exit }
fn zz_check(x) {
    let t = typeof(x)
    if t == list or t == vector { for y in x { zz_check(y) } }
    elif t == str { if '<NUL>' in x { zz_fail('') } }
    elif not (t == int or t == bool or x == nil) { zz_fail('') }
}
fn zz_show(x) {
    let t = typeof(x)
    if t == int { return 'i' + str(x) }
    if t == str { return "'" + x + "'" }
    if t == list or t == vector { return '<' + (x . map(zz_show) . join(' ')) + '>' }
    str(x)
}
fn zz_say(name, xs) { zz_check(xs) ; (name + '/' + str(len(xs))) + (xs . map(fn(x) -> ' ' + zz_show(x)) . join('')) }
fn zz_back_(x) { let t = typeof(x) ; if t == list or t == vector { return vector(x . map(zz_back_)) } ; x }
fn zz_back(x) { zz_check(x) ; zz_back_(x) }
fn zz_is(x, t, w) { zz_check(x) ; if typeof(x) != t { zz_fail('args[0].ty == ' + w) } ; x }
fn zz_kind(x) { let t = typeof(x) ; if t == vector { return list } ; t }
fn zz_bytes(s) { let n = 0 ; for c in s { let k = ord(c) ; n += if k < 128 then 1 else if k < 2048 then 2 else if k < 65536 then 3 else 4 } ; n }
fn zz_sum(x) { zz_check(x) ; if not (typeof(x) == list or typeof(x) == vector) { zz_fail('args[0].ty == TY_ARRAY') } ; let n = 0 ; for y in x { if typeof(y) != int { zz_fail('v.ptr[i].ty == TY_INT') } ; n += y } ; n }
"#;

struct F { name: String, /// required, optional parameters
    req: usize, opt: usize, var: bool }
struct M { name: String, lib: char, fs: Vec<F>, /// functions with a fixed meaning that are declared
    fixed: Vec<&'static str>, broken: bool }

const FIXED: &[(&str, usize, &str)] = &[
    ("echo", 1, "zz_back(a)"), ("pack", 3, "vector([zz_back(a), zz_back(b), zz_back(c)])"), ("none", 0, "nil"), ("eat", 1, "zz_bytes(zz_is(a, str, 'TY_STR'))"),
    ("calls", 0, "<LIB> += 1"), ("sum", 1, "zz_sum(a)"), ("negate", 1, "not zz_is(a, bool, 'TY_BOOL')"), ("isnil", 1, "{ zz_check(a) ; a == nil }"),
    ("same", 2, "{ zz_check(a) ; zz_check(b) ; if zz_kind(a) != zz_kind(b) then false else (if typeof(a) == int or typeof(a) == str or a == nil then a == b else true) }"),
    ("fail", 1, "zz_fail(zz_is(a, str, 'TY_STR'))"), ("boom", 0, "zz_fail('a static message')"), ("tried", 1, "{ zz_is(a, bool, 'TY_BOOL') ; false }"), ("failin", 1, "{ zz_check(a) ; zz_fail('inner') }"), ("wide", 2, "{ zz_check(a) ; zz_check(b) ; vector([zz_back_(b), zz_back_(a)]) }"),
];

struct P<'a> { r: &'a mut Rng, n: String, p: String, ms: Vec<M>, vars: Vec<String>, fns: usize, fail: bool, strings: Vec<&'static str> }

impl P<'_> {
    fn say(&mut self, s: &str) { self.n += s; self.p += s }

    fn int(&mut self) -> i64 { let k = self.r.n(62); match self.r.n(8) { 0 => *self.r.pick(&[4611686018427387903, -4611686018427387903, 0, -1, 1, 255, 256, 65535, -128, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296]), 1 => (1i64 << k) - self.r.n(2) as i64, 2 => -(1i64 << k) + 1, _ => self.r.n(100) as i64 } }
    fn text(&mut self) -> String { if self.r.p(20) { (*self.r.pick(&["", "a", "seven77", "eight888", "nine99999", "éé", "🦀", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"])).to_string() } else { phrase(self.r, 24).replace('\0', "") } }

    /// an expression of the language for a value
    fn val(&mut self, d: usize) -> String {
        match self.r.n(if d == 0 { 12 } else { 20 }) {
            0 => "nil".into(), 1 => (*self.r.pick(&["true", "false"])).into(),
            2..=5 => { let i = self.int(); if i < 0 { format!("(0 - {})", -i) } else { i.to_string() } }
            6..=8 => { let t = self.text(); literal(&t) }
            9 => match self.r.n(6) { 0 => "(1 == 1)".into(), 1 => format!("(not {})", self.r.pick(&["true", "false"])), 2 => "len('four')".into(), 3 => { let t = self.text(); let k = 1 + self.r.n(9); format!("({} * {k})", literal(&t)) } 4 => "[7, 8, 9] [0]".into(), _ => "('ab' + 'cdefgh')".into() },
            10 | 11 => if self.vars.is_empty() { "nil".into() } else { self.r.pick(&self.vars).clone() },
            12..=15 => { let k = match self.r.n(10) { 0 => 12, _ => self.r.n(5) }; let v: Vec<String> = (0..k).map(|_| self.val(d - 1)).collect(); format!("[{}]", v.join(", ")) }
            16..=18 => { let k = self.r.n(4); let v: Vec<String> = (0..k).map(|_| self.val(d - 1)).collect(); format!("vector([{}])", v.join(", ")) }
            _ => (*self.r.pick(&["list(range(40))", "vector(range(300, 0, -7))", "range(30) . reduce(fn(a, b) -> [a, b])", "('abcdefghijkl' . list)", "[[[[[[]]]]]]", "['x' * 100, 'y' * 7]", "(range(5) . map(fn(i) -> 'k' * i))"])).to_string(),
        }
    }

    /// a value built by the library: what it is told to build, and the expression for it
    fn built(&mut self, d: usize) -> (String, String) {
        match self.r.n(if d == 0 { 7 } else { 10 }) {
            0 => { let b = self.r.p(50); ((if b { "t" } else { "f" }).into(), b.to_string()) }
            1 => { let b = self.r.p(50); ((if b { "T" } else { "F" }).into(), b.to_string()) }
            2 => ((*self.r.pick(&["n", "N"])).into(), "nil".into()),
            3 | 4 => { let i = self.int(); (format!("{}{i};", self.r.pick(&["i", "I"])), if i < 0 { format!("(0 - {})", -i) } else { i.to_string() }) }
            5 | 6 => { let t = self.text(); (format!("s{}:{t}", t.len()), literal(&t)) }
            _ => { let k = match self.r.n(8) { 0 => 17, _ => self.r.n(6) }; let (mut a, mut b) = (String::from("("), vec![]); for _ in 0..k { let (x, y) = self.built(d - 1); a += &x; b.push(y) } (a + ")", format!("vector([{}])", b.join(", "))) }
        }
    }

    fn declare(&mut self) {
        let k = self.ms.len();
        let name = (*self.r.pick(&["m", "native_module", "q", "lib_"])).to_string() + &k.to_string();
        let lib = if self.r.p(50) { 'A' } else { 'B' };
        let broken = self.r.p(3);
        let mut fs: Vec<F> = vec![];
        let (mut n, mut p) = (vec![], vec![]);
        let bad = |s: &str| if broken { "zz_fail('')".to_string() } else { s.to_string() };
        let mut names: Vec<String> = (0..10).map(|i| format!("f{i}")).collect();
        if self.r.p(10) { names.push("a_function_with_a_name_that_is_longer_than_any_other_of_this_library".into()) }
        for _ in 0..1 + self.r.n(7) {
            let name = names.remove(self.r.n(names.len()));
            let (req, opt, var) = (match self.r.n(9) { 0 => 0, 1 => 7, x => x % 4 }, if self.r.p(50) { 0 } else { self.r.n(3) }, self.r.p(25));
            let (mut a, mut b, mut all) = (vec![], vec![], vec![]);
            for i in 0..req { let x = format!("p{i}"); if self.r.p(15) { a.push("_".to_string()); } else { a.push(x.clone()) } b.push(x.clone()); all.push(x) }
            for i in 0..opt { let x = format!("o{i}"); let d = if self.r.p(40) { format!("{x}?") } else { let v = std::mem::take(&mut self.vars); let e = self.val(1); self.vars = v; format!("{x} = {e}") }; a.push(d.clone()); b.push(d); all.push(x) }
            if var { a.push("*rest".into()); b.push("*rest".into()); all.push("rest".into()) }
            n.push(format!("fn {name}({})", a.join(", ")));
            p.push(format!("fn {name}({}) {{ {} }}", b.join(", "), bad(&format!("zz_say('{lib}.{name}', [{}])", all.join(", ")))));
            fs.push(F { name, req, opt, var });
        }
        let mut fixed = vec![];
        for (f, k, body) in FIXED { if self.r.p(60) || *f == "echo" {
            let ps = ["a", "b", "c"][..*k].join(", ");
            n.push(format!("fn {f}({ps})"));
            let body = body.replace("<LIB>", &format!("zz_{lib}"));
            let body = if broken { "{ zz_fail('') }".to_string() } else if body.starts_with('{') { body } else { format!("{{ {body} }}") };
            p.push(format!("fn {f}({ps}) {body}"));
            fixed.push(*f);
        } }
        n.push("fn make(s)".into());
        n.push("fn nosuch(a, b?)".into());
        p.push("fn nosuch(a, b?) { zz_fail('') }".into());
        p.push(if broken { "fn make(s) { zz_fail('') }".into() } else { "fn make(s) -> s".into() });
        let sep = if self.r.p(30) { " " } else { "\n    " };
        self.n += &format!("native module {name} {{{sep}{}\n}}\n", n.join(sep));
        self.p += &format!("module {name} {{\n    {}\n}}\n", p.join("\n    "));
        self.ms.push(M { name, lib, fs, fixed, broken });
    }

    fn args(&mut self, k: usize) -> Vec<String> { (0..k).map(|_| self.val(2)).collect() }

    /// a call of a native function: its text in the two programs
    fn call(&mut self, d: usize) -> (String, String) {
        let m = self.r.n(self.ms.len());
        let mn = self.ms[m].name.clone();
        if self.r.p(25) { let (a, b) = self.built(2); let t = literal(&a); return (format!("{mn}->make({t})"), format!("{mn}->make({b})")) }
        if self.r.p(45) || self.ms[m].fs.is_empty() {
            let i = self.r.n(self.ms[m].fixed.len());
            let f = self.ms[m].fixed[i];
            if matches!(f, "fail" | "failin" | "boom") && !self.fail { return self.call(d) }
            let k = FIXED.iter().find(|x| x.0 == f).unwrap().1;
            let mut a = match f {
                "eat" | "fail" if self.r.p(90) => { let t = self.text(); vec![literal(&t)] }
                "sum" if self.r.p(90) => { let k = self.r.n(20); let v: Vec<String> = (0..k).map(|_| self.r.n(1000).to_string()).collect(); vec![if self.r.p(50) { format!("[{}]", v.join(", ")) } else { format!("vector([{}])", v.join(", ")) }] }
                "negate" | "tried" if self.r.p(90) => vec![(*self.r.pick(&["true", "false", "(1 > 2)"])).to_string()],
                "same" if self.r.p(50) => { let v = self.val(1); vec![v.clone(), v] }
                "echo" | "pack" if d > 0 && self.r.p(30) => { let mut v: Vec<(String, String)> = vec![]; for _ in 0..k { let c = self.call(d - 1); v.push(c) } return (format!("{mn}->{f}({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), format!("{mn}->{f}({})", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))) }
                _ => self.args(k),
            };
            if !self.fail && matches!(f, "eat" | "sum" | "negate" | "fail" | "tried") { a = vec![match f { "negate" | "tried" => "true".into(), "sum" => "[1, 2, 3]".into(), _ => { let t = self.text(); literal(&t) } }] }
            let t = self.form(&format!("{mn}->{f}"), a, k, 0, false);
            return (t.clone(), t)
        }
        let i = self.r.n(self.ms[m].fs.len());
        let (f, req, opt, var) = { let f = &self.ms[m].fs[i]; (f.name.clone(), f.req, f.opt, f.var) };
        let mut k = req + self.r.n(opt + 1);
        if k == req + opt && var { k += self.r.n(4) }
        if !var && self.fail && self.r.p(2) { k = req + opt + 1 + self.r.n(2) }
        let a = self.args(k);
        let t = self.form(&format!("{mn}->{f}"), a, req, opt, var);
        (t.clone(), t)
    }

    fn form(&mut self, f: &str, a: Vec<String>, req: usize, opt: usize, var: bool) -> String {
        match self.r.n(12) {
            // (a partial call)
            0 | 1 if req > 0 => { let j = self.r.n(req); if j == 0 { return format!("{f}({})", a.join(", ")) } format!("{f}({}) ({})", a[..j].join(", "), a[j..].join(", ")) }
            2 if !a.is_empty() => format!("{f}(...[{}])", a.join(", ")),
            3 if a.len() > 1 => { let j = self.r.n(a.len()); format!("{f}({}{}...vector([{}]))", a[..j].join(", "), if j > 0 { ", " } else { "" }, a[j..].join(", ")) }
            4 if a.len() == 1 && (req == 1 || req == 0 && (opt > 0 || var)) => format!("({} . ({f}))", a[0]),
            5 if a.len() == 2 && req == 2 => format!("({} . ({f}({})))", a[1], a[0]),
            6 => format!("(fn(g) -> g({}))({f})", a.join(", ")),
            7 if a.len() >= req && !a.is_empty() => format!("(fn(x) -> {f}({}x)) ({})", a[..a.len() - 1].iter().map(|x| format!("{x}, ")).collect::<String>(), a[a.len() - 1]),
            _ => format!("{f}({})", a.join(", ")),
        }
    }

    /// a function taking any single value, without failing
    fn unary(&mut self) -> String {
        let mut v: Vec<String> = vec![];
        for m in &self.ms { v.push(format!("{}->echo", m.name)); for f in &m.fs { if f.req == 1 || f.req == 0 && (f.opt > 0 || f.var) { v.push(format!("{}->{}", m.name, f.name)) } } for f in &m.fixed { if *f == "isnil" { v.push(format!("{}->isnil", m.name)) } } }
        self.r.pick(&v).clone()
    }

    fn stmt(&mut self, at: usize) {
        match self.r.n(22) {
            0 | 1 => { let (a, b) = self.call(1); let v = format!("v{at}"); self.n += &format!("let {v} = {a}\n"); self.p += &format!("let {v} = {b}\n"); self.vars.push(v.clone()); self.say(&format!("print({v}, repr({v}), typeof({v})) ;\n")) }
            2 => { let f = self.unary(); let vs: Vec<String> = (0..self.r.n(5)).map(|_| self.val(1)).collect(); self.say(&format!("print([{}] . map({f})) ;\n", vs.join(", "))) }
            3 => { let f = self.unary(); let vs: Vec<String> = (0..self.r.n(5)).map(|_| self.val(1)).collect(); self.say(&format!("for x in [{}] {{ print({f}(x)) ; print(repr({f}(x))) }}\n", vs.join(", "))) }
            4 => { let f = self.unary(); let v = self.val(2); self.say(&format!("let g{at} = {f}\nprint(g{at}({v}), g{at}(nil)) ;\n")) }
            5 => { let f = self.unary(); let k = 1 + self.r.n(5); self.say(&format!("fn r{at}(n) -> if n < 1 then nil else [{f}(n), r{at}(n - 1)]\nprint(r{at}({k})) ;\n")) }
            6 => { let m = self.r.n(self.ms.len()); if self.ms[m].fixed.contains(&"calls") { let n = self.ms[m].name.clone(); let k = self.r.n(6); self.say(&format!("print({n}->calls(), {n}->calls() ) ;\nfor i in range({k}) {{ {n}->calls() }}\nprint({n}->calls()) ;\n")) } }
            7 => { let v = self.val(0); let n = self.r.pick(&self.ms).name.clone(); self.say(&format!("print({n}->echo({v}) == {v}, typeof({n}->echo({v})) == typeof({v})) ;\n")) }
            8 => { let (a, b) = self.call(1); let v = self.val(1); self.n += &format!("print({a} == {v}, [{a}, 1] [1]) ;\n"); self.p += &format!("print({b} == {v}, [{b}, 1] [1]) ;\n") }
            9 => { let f = self.unary(); self.say(&format!("struct S{at}(a) {{ fn go(self, x) -> {f}([self->a, x]) }}\nprint(S{at}(3)->go('x')) ;\n")) }
            10 => if self.ms.len() < 3 { self.declare() },
            11 => if self.fail { let m = self.r.pick(&self.ms).name.clone(); let t = match self.r.n(8) { 0 => format!("{m}->nosuch(1)"), 1 => format!("{m}->echo(1.0)").replace("1.0", "1i"), 2 => format!("{m}->echo([1, [set()]])"), 3 => format!("{m}->echo(dict())"), 4 => format!("{m}->echo(print)"), 5 => format!("{m}->echo({m}->echo)"), 6 => format!("{m}->echo(range(3))"), _ => format!("{m}->echo(['x\0y'])") }; self.say(&format!("print({t}) ;\n")) },
            _ => { let k = 1 + self.r.n(3); let (mut a, mut b) = (vec![], vec![]); for _ in 0..k { let (x, y) = self.call(1); a.push(x); b.push(y) } self.n += &format!("print({}) ;\n", a.join(", ")); self.p += &format!("print({}) ;\n", b.join(", ")) }
        }
    }
}

/// the library uses the header of the interface in the documented ways: when that does not compile, there is nothing to call
pub fn header(_run: &Run, rep: &mut Report) {
    let Some(f) = std::env::var_os("CORDYV_HEADER") else { return };
    rep.violations.push(Violation { stream: "calls".into(), idx: 0, what: std::fs::read_to_string(f).unwrap_or_default(), text: String::new() });
}

pub fn calls(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    if std::env::var_os("CORDYV_HEADER").is_some() { return CaseOut { verdict: Verdict::Skip("no library"), hash: 0, nontrivial: false, text: String::new() } }
    let prompt = r.p(25);
    let fail = !prompt && r.p(60);
    let mut g = P { r: &mut r, n: String::new(), p: MODEL.replace("<ERR>", "\u{1}").replace("<NUL>", "\0") + "let zz_A = 0, zz_B = 0\n", ms: vec![], vars: vec![], fns: 0, fail, strings: vec![] };
    let (_, _) = (&g.fns, &g.strings);
    g.declare();
    if g.r.p(50) { g.declare() }
    let n = 3 + g.r.n(25);
    for k in 0..n { g.stmt(k) }
    let (native, model, ms) = (g.n, g.p, g.ms);
    let mut args: Vec<OsString> = vec![];
    if !prompt && r.p(30) { args.push("-o".into()) }
    for m in &ms {
        let lib = libs();
        let f = if m.broken { match r.n(4) { 0 => continue, 1 => "/none/lib.so".to_string(), 2 => lib.join("plain.so").to_string_lossy().into_owned(), _ => lib.join("text.so").to_string_lossy().into_owned() } } else { lib.join(if m.lib == 'A' { "a.so" } else { "b.so" }).to_string_lossy().into_owned() };
        args.push((*r.pick(&["-l", "--link"])).into());
        args.push(format!("{}={f}", m.name).into());
    }
    if r.p(10) { args.push("-l".into()); args.push("unused=/none/x.so".into()) }
    let text = format!("// {}{args:?}\n{native}\n// ==== the same with ordinary modules\n{model}", if prompt { "at the prompt, " } else { "" });
    let h = hash(&text);
    let out = |v: Verdict, nontrivial: bool| CaseOut { verdict: v, hash: h, nontrivial, text: text.clone() };
    if showing() { return out(Verdict::Skip("shown"), false) }
    let (mut want, end) = match drive::reference(&model, b"", &[], 300_000) {
        Ref::Done { out, end, .. } => (out, end),
        Ref::Rejected(e) => { if std::env::var_os("CORDYV_REJECTS").is_some() { eprintln!("rejected: {e}") } return out(Verdict::Skip("rejected by the reference parser"), false) }
        Ref::Limit => return out(Verdict::Skip("step limit"), false),
        Ref::Unspec(u) => return out(Verdict::Skip(u), false),
    };
    let mut error: Option<String> = None;
    if let Some(k) = want.find('\u{1}') { let m = want[k + 1..].trim_end_matches('\n').to_string(); want.truncate(k); error = Some(format!("OSError: {m}")); c.seen("error of the interface") }
    else if let RefEnd::Error { msg, .. } = &end { error = Some(msg.clone()); c.seen(&crate::props::kind_of(msg)) }
    if prompt && error.is_some() { return out(Verdict::Skip("fails"), false) }
    let d = Scratch::new();
    let o = if prompt {
        want = format!("Welcome to Cordy v{}! (exit with 'exit' or Ctrl-C)\n{want}", cordy_sys::SYS_VERSION);
        exec(&Call { args, cwd: &d.0, input: native.clone().into_bytes(), pieces: vec![], env: vec![("HOME".into(), d.0.clone().into_os_string()), ("TERM".into(), "xterm".into())] })
    } else {
        std::fs::write(d.0.join("main"), &native).unwrap();
        args.push("main".into());
        exec(&Call { args, cwd: &d.0, input: vec![], pieces: vec![], env: vec![] })
    };
    c.count("processes observed", 1);
    c.count("native functions declared", ms.iter().map(|m| m.fs.len() + m.fixed.len()).sum::<usize>() as u64);
    c.count("values described by the library", (want.matches("\nA.").count() + want.matches("\nB.").count()) as u64);
    if let Some(e) = crashed(&o) { return out(Verdict::Differ(e), true) }
    let (so, se) = (String::from_utf8_lossy(&o.out).into_owned(), String::from_utf8_lossy(&o.err).into_owned());
    if so != want {
        let k = want.lines().zip(so.lines()).position(|(a, b)| a != b).unwrap_or(want.lines().count().min(so.lines().count()));
        let clip = |s: Option<&str>| s.map(|s| s.chars().take(700).collect::<String>());
        return out(Verdict::Differ(format!("line {} of the output\nexpected {:?}\nobserved {:?}\nstandard error {:?}", k + 1, clip(want.lines().nth(k)), clip(so.lines().nth(k)), se)), true)
    }
    let v = match &error {
        None => if se.is_empty() { None } else { Some(format!("standard error {se:?}")) },
        Some(e) => {
            let se = se.replace("native fn", "fn");
            let e = if e.starts_with("Incorrect number of arguments for") { "Incorrect number of arguments for" } else { e };
            if se.starts_with(e) && se.contains("\n  at: line ") { None } else { Some(format!("expected the error {e:?}\nstandard error {se:?}")) }
        }
    };
    out(match v { Some(d) => Verdict::Differ(d), None => Verdict::Agree }, true)
}
