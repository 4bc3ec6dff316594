//! C20: interactive sessions, entry by entry, against the reference evaluated over the same history.
use std::cell::RefCell;
use std::rc::Rc;

use cordy_sys::repl::{ReadResult, Repl, RunResult};
use cordy_sys::util::Noop;

use crate::drive::{guard, norm, same_msg, End, Sink};
use crate::props::{kind_of, showing};
use crate::rf::interp::{Er, Interp, STEPS};
use crate::rf::{parse, value};
use crate::rng::{hash, Rng};
use crate::sup::*;

pub enum Entry {
    /// top-level statements, entered on one line (or as the lines of the single statement)
    Code(Vec<String>),
    /// text that must be rejected
    Bad(String),
    Blank,
}

/// Splits a program into its top-level statements.
pub fn split(text: &str) -> Vec<String> {
    let text = if let Some(t) = text.strip_prefix("fn main() {\n") { t.strip_suffix("}\nmain()\n").unwrap_or(t).lines().map(|l| format!("{}\n", l.strip_prefix("    ").unwrap_or(l))).collect::<String>() } else { text.to_string() };
    let mut v: Vec<String> = vec![];
    let mut do_ = false;
    for l in text.lines() {
        let t = l.trim_end();
        if t.trim().is_empty() { continue }
        let starts = |w: &str| t.starts_with(w) && !t[w.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_');
        let more = t.starts_with(' ') || t.starts_with('}') || starts("elif") || starts("else") || starts("then") || do_ && starts("while");
        if more && !v.is_empty() {
            let e = v.last_mut().unwrap();
            // after a closing brace at top level the statement would be complete, so the rest has to be on the same line
            if !t.starts_with(' ') && !t.starts_with('}') { e.push(' ') } else { e.push('\n') }
            e.push_str(t);
        } else { v.push(t.to_string()); do_ = false }
        if starts("do") { do_ = true }
    }
    v
}

const BAD: &[&str] = &[
    "zzz_none", "print(1) ; zzz_none", "(1 + 2)) ", ")", "1 + * 2", "break", "continue", "'a' = 3", "let n1 = (1 + ]", "struct Q(a, a)", "1->nofield", "fn g1() -> undeclared1", "let n1 = 1 ; n1 + undeclared2",
    "for i in [1] { fn k() -> i ; qqq }", "let n1, n1 = 1", "let n2 = n2b", "fn n1(a, a) -> a", "let n1 = 5 ; let n1 = 6", "else { 1 }", "struct N1(a) { fn m(self) -> nothere }", "return 1 +)", "[1, 2", "{ 3", "print(1", "fn n3(x) { y9 }", "if true { let n1 = 2 } ; n1",
    "let n4 = fn() -> n5x", "module M1 { fn a() -> b1b }", "'\\q'", "0x", "5 $ 6", "let = 3", "1 = 2", "assert )", "let n1 = 1, n2 = q7", "'x' % ]", "for in [1] {}", "[1, 2", "(", "struct S9(a) { fn f(self) { ",
];
/// closes what a bad entry left open, so that it is rejected rather than continued
pub fn bad(r: &mut Rng, names: &[String]) -> String {
    let b = *r.pick(BAD);
    if r.p(15) && !names.is_empty() { let n = r.pick(names); return format!("let {n} = 1") }
    match b { "[1, 2" => "[1, 2 }".into(), "{ 3" => "{ 3 )".into(), "print(1" => "print(1 ]".into(), "(" => "( ]".into(), "struct S9(a) { fn f(self) { " => "struct S9(a) { fn f(self) ( ".into(), b => b.into() }
}

/// Failing statements and closures whose variables are live when the error is raised.
pub fn extra(r: &mut Rng, k: usize) -> Vec<String> {
    let a = r.n(9) as i64;
    let v: Vec<&str> = match r.n(34) {
        0 => vec!["let ^f = []", "for i in range(3) { let z = i * 10 ; push(fn() -> z += 1, ^f) ; if i == 1 { [] [5] } }", "^f . map(fn(g) -> g())", "for j in range(2) { let y = j * 100 ; push(fn() -> y += 1, ^f) ; nil + 1 }", "^f . map(fn(g) -> g())", "^f . map(fn(g) -> g())"],
        1 => vec!["let ^a = #", "let ^b = ^a / 0", "^b", "let ^b = 7", "^b + ^a"],
        2 => vec!["fn ^f(x) { if x > 2 { nil->len } ; x }", "^f(1)", "^f(5)", "^f(2)"],
        3 => vec!["let ^a = [1, 2, 3]", "^a . map(fn(x) { if x == 2 { push(9, ^a) ; nil + x } ; x })", "^a", "^a [0] = #", "^a [77] = 1", "^a", "^a . pop", "^a"],
        4 => vec!["let ^c = nil", "fn ^mk() { let n = 0 ; ^c = fn() -> n += 1 ; ^c() ; n + nil }", "^mk()", "^c()", "^c()", "^mk()", "^c()"],
        5 => vec!["struct ^S(a, b) { fn sum(self) -> a + b }", "let ^s = ^S(1, #)", "^s->sum()", "^s->a = 'x'", "^s->sum()", "^s->a = 3", "^s->sum()", "^s"],
        6 => vec!["let ^m = memoize(fn(x) { print('call', x) ; 10 / x })", "^m(2)", "^m(0)", "^m(0)", "^m(2)"],
        7 => vec!["let ^d = default(fn() -> [], dict())", "^d['a'] . push(#)", "^d['b'] . push(nil + 1)", "^d", "^d['a']"],
        8 => vec!["let ^x = 1, ^y = 2", "^x, ^y = ^y, ^x", "^x, ^y = 1", "^x - ^y", "^x, ^y = (7, 8, 9)", "(^x, ^y)"],
        9 => vec!["eval('1 + #')", "eval('1 +')", "eval('nothere->foo')", "eval('[1] [4]')", "let ^e = eval('fn(x) -> x * 2')", "^e(21)", "eval('zz')", "^e(4)"],
        10 => vec!["if true { let ^q = 3 ; print(^q) ; ^q / 0 }", "let ^q = 5", "^q"],
        11 => vec!["fn ^a() -> ^b() ; fn ^b() -> #", "^a()", "^b() + ^a()"],
        12 => vec!["let ^l = []", "for i in range(4) { ^l . push(fn() -> i) }", "^l . map(fn(f) -> f())", "^l [2] ()", "for i in range(2) { ^l . push(fn() { i += 1 ; i }) }", "^l [4] ()", "^l [4] ()", "^l [5] ()"],
        13 => vec!["let ^h = heap([3, 1, 2])", "^h . pop", "^h . push(0)", "^h . pop", "^h . push(nil + 1)", "len(^h)", "^h . pop"],
        14 => vec!["let ^p = (+ 3)", "^p('x')", "^p(4)", "[1, 2] . map(^p)", "[1, nil] . map(^p)", "^p(5)"],
        15 => vec!["let ^a = 5", "let ^f = fn() -> ^a", "^a = ^a + 1", "^f()", "^a = ^a / 0", "^f()"],
        16 => vec!["assert 1 == 1 : 'ok'", "assert 1 == # : 'bad'", "assert true", "assert false", "1"],
        17 => vec!["let ^s = set([1])", "^s . push(2)", "^s . push([3])", "[3] in ^s", "^s [0]", "^s . remove(#)", "^s"],
        18 => vec!["fn ^r(n) { if n < 1 then 0 / 0 else ^r(n - 1) }", "^r(3)", "^r(12)", "let ^z = 1", "^z"],
        19 => vec!["let ^a = [3, 1, 2]", "^a . sort_by(fn(x, y) -> x - nil)", "sort(^a)", "^a", "^a . sort_by(fn(x, y) -> y - x)"],
        20 => vec!["let (^a, *^b) = range(#)", "^a", "^b", "let ^c, ^e = 1 , ^g = 2", "nil"],
        21 => vec!["module ^M { fn one() -> 1 ; fn two() -> one() + one() }", "^M->two()", "^M->one() / 0", "^M->two() + #"],
        22 => vec!["'a' ; 'b'", "print('x') ; nil ; 5", "nil", "print", "fn(x) -> x", "[nil]", "''"],
        23 => vec!["let ^x ; ^x = 4 ; ^x += 1", "^x", "let ^w ; nil + 1 ; let ^v = 2", "^w", "^x"],
        24 => vec!["fn ^f(a, b = 3, *c) -> [a, b, c]", "^f(1)", "^f()", "^f(1, 2, 3, 4)", "^f(...[1, 2])", "^f(...nil)", "^f(0)"],
        25 => vec!["let ^v = (1, 2, 3)", "^v . map(fn(x) -> x + #)", "^v + 1", "^v + nil", "^v [1] = 9", "^v"],
        26 => vec!["let ^k = 0", "while ^k < 5 { ^k += 1 ; if ^k == 3 { nil() } }", "^k", "while ^k < 5 { ^k += 1 } else { print('done') }", "^k", "loop { ^k -= 1 ; if ^k < 2 { break } }", "^k"],
        27 => vec!["fn ^o() { let x = 1 ; fn i() { x += 1 ; x } ; i }", "let ^i = ^o()", "^i()", "^i(3)", "^i()", "^i() + nil", "^i()"],
        28 => vec!["let ^a = [1, 2], ^b = ^a", "push(3, ^a)", "^b", "^a [0] += nil", "^b", "^a = nil", "^b"],
        29 => vec!["let ^g = []", "fn ^t(x) { let loc = x ; push(fn() { loc += 1 ; loc }, ^g) ; if x > 5 { '' + nil -1 } ; [] [x] }", "^t(1)", "^t(9)", "^g [0] ()", "^g [1] ()", "^g [0] ()", "let ^n = 50", "^g [1] ()", "^n"],
        30 => vec!["[1, 2, 3] . filter(fn(x) { let c = x ; push(fn() -> c, ^later) ; c > 1 })", "let ^late = [1, 2, 3] . map(fn(x) { let c = x ; fn() -> c * c })", "^late . map(fn(f) -> f())"],
        31 => vec!["[...nil, 1]", "[...[1], #]", "print(...[1, 2], ...3)", "print(...[1, 2], 3)", "[1, 2, ...range(3)]", "max(...[], ...5)", "max(...[1, 4], 2)"],
        32 => vec!["[1, [2, [3, nil + 1]]]", "[1, 2]", "{1: 2, 3: [] [1]}", "{1, 2, nil->x}", "{1: 2}", "(1, 2 / 0, 3)", "(1, 2)"],
        _ => vec!["let ^u = [[1], [2]]", "for i in ^u { i . push(#) ; if i [0] == 2 { i . push(i + nil) } }", "^u", "for (a, b) in ^u { print(a, b) }", "for (a, b) in [[1, 2], [3]] { print(a, b) }", "^u"],
    };
    v.iter().map(|s| s.replace('^', &format!("s{k}_")).replace('#', &a.to_string())).collect()
}

pub fn session(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut es: Vec<Entry> = vec![];
    let mut src: Vec<Vec<String>> = vec![];
    if r.p(55) {
        let pick = ["C01", "C02", "C03", "C04", "C05", "C21", "C11"];
        let mut w = crate::props::weights(pick[r.n(pick.len())]);
        w.errors += 8; w.layout = 0; w.budget = 8 + r.n(18) as i32; w.exit = 0;
        src.push(split(&crate::gen::G::new(&mut r, w).program()));
    }
    if r.p(35) { let pick = ["C11", "C14", "C13", "C14", "C15"]; let id = pick[r.n(pick.len())]; src.push(split(&crate::dir::D::new(&mut r).program(id))) }
    let n = if src.is_empty() { 1 + r.n(4) } else { r.n(3) };
    for k in 0..n { src.push(extra(&mut r, k)) }
    // the parts are interleaved: they share nothing but the session (and, for generated parts, the names of variables)
    let mut named = std::collections::HashSet::new();
    let mut names: Vec<String> = vec![];
    let mut pos = vec![0; src.len()];
    loop {
        let live: Vec<usize> = (0..src.len()).filter(|i| pos[*i] < src[*i].len()).collect();
        if live.is_empty() || es.len() > 90 { break }
        let i = *r.pick(&live);
        let mut group = vec![src[i][pos[i]].clone()];
        pos[i] += 1;
        while r.p(18) && pos[i] < src[i].len() && !group.last().unwrap().contains("//") && !group[0].contains('\n') && !src[i][pos[i]].contains('\n') { group.push(src[i][pos[i]].clone()); pos[i] += 1 }
        for g in &group { if let Some(t) = g.strip_prefix("let ").or(g.strip_prefix("fn ")) { let n: String = t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if !n.is_empty() && named.insert(n.clone()) { names.push(n) } } }
        es.push(Entry::Code(group));
        match r.n(24) { 0 | 1 => { let b = bad(&mut r, &names); es.push(Entry::Bad(b)) } 2 if !names.is_empty() => { let n = r.pick(&names).clone(); es.push(Entry::Code(vec![n])) } 3 => es.push(Entry::Blank), 4 => es.push(Entry::Code(vec!["eval('[1, 2] [0]')".into()])), _ => {} }
    }
    let shown: String = es.iter().map(|e| match e { Entry::Code(g) => format!("{}\n", g.join(" ; ")), Entry::Bad(b) => format!("{b}   // rejected\n"), Entry::Blank => "\n".into() }).collect();
    let h = hash(&shown);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text: shown } }
    let mut log = String::new();
    let (verdict, judged) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, &mut r, &es, &mut log))) { Ok(x) => x, Err(_) => (Verdict::Skip("reference panicked"), 0) };
    CaseOut { verdict, hash: h, nontrivial: judged >= 4, text: log }
}

fn clip(s: &str) -> String { s.chars().take(700).collect() }

/// Inserts line breaks at places inside brackets where the language allows them.
fn spread(r: &mut Rng, t: &str) -> String {
    let (mut out, mut depth, mut q, mut skip) = (String::new(), 0i32, None, false);
    let cs: Vec<char> = t.chars().collect();
    for (i, ch) in cs.iter().enumerate() {
        if *ch == '/' && q.is_none() && matches!(cs.get(i + 1), Some('/') | Some('*')) { return t.to_string() }
        out.push(*ch);
        if skip { skip = false; continue }
        match (q, *ch) { (Some(_), '\\') => skip = true, (Some(x), c) if x == c => q = None, (None, '\'' | '"') => q = Some(*ch), (None, '(' | '[') => depth += 1, (None, ')' | ']') => depth -= 1, (None, '{' | '}') => return t.to_string(), _ => {} }
        if q.is_none() && depth > 0 && matches!(*ch, ',') && cs.get(i + 1) == Some(&' ') && r.p(50) { out.push('\n') }
    }
    out
}

fn run(c: &mut Ctx, r: &mut Rng, es: &[Entry], log: &mut String) -> (Verdict, usize) {
    value::begin();
    STEPS.with(|s| s.set(60_000));
    let sink = Sink(Rc::new(RefCell::new(Vec::new())));
    let mut repl = Repl::new(sink.clone(), Noop);
    let mut i = Interp::new(&[]);
    // the accepted text, with the number of statements it holds
    let (mut text, mut done, mut globals) = (String::new(), 0usize, 0usize);
    let mut hidden = 0;
    let mut judged = 0;
    // for each entry: its first line in the accepted text and its own text, if they have the same lines
    let mut starts: Vec<(usize, Option<String>)> = vec![];
    for (ei, e) in es.iter().enumerate() {
        // what the entry is expected to do
        let (mut want, mut fail, mut stop, mut exit) = (String::new(), None, None, false);
        let lines: String;
        let mut next = None;
        match e {
            Entry::Blank => lines = String::new(),
            Entry::Bad(b) => {
                if parse::parse(&format!("{text}{b}")).is_ok() { continue }
                lines = b.clone();
            }
            Entry::Code(g) => {
                let mut pre = text.clone();
                let mut counts = vec![];
                let (mut whole, mut last) = (None, (0, 0));
                for (k, piece) in g.iter().enumerate() {
                    if k > 0 { pre.push_str(" ; ") }
                    pre.push_str(piece);
                    match parse::parse(&format!("{pre}\n;\n")) { Ok(p) => { counts.push((p.main.body.borrow().len(), p.globals.len())); if k + 1 == g.len() { whole = parse::parse(&pre).ok(); last = (p.main.body.borrow().len(), p.globals.len()) } } Err(_) => if k + 1 == g.len() { break } else { counts.push((usize::MAX, 0)) } }
                }
                let Some(p) = whole else { c.count("entries rejected by the reference parser", 1); continue };
                i.out.clear();
                let (n, res) = i.run_part(&p, done, true);
                want = std::mem::take(&mut i.out);
                if let Some(u) = value::UNSPEC.with(|u| u.get()) { stop = Some(u) }
                let joined = g.join(" ; ");
                lines = if g.len() == 1 && !joined.contains('\n') && r.p(20) { spread(r, &joined) } else { joined.clone() };
                match res {
                    Ok(()) => { next = Some((format!("{text}{joined}\n;\n"), last.0, last.1)) }
                    Err(Er::Limit) => stop = Some("step limit"),
                    Err(Er::Exit) => exit = true,
                    Err(Er::Rt(x)) => {
                        // the entry performed the statements before the failing one; its variables were not declared
                        let at = done + n;
                        let k = counts.iter().position(|x| x.0 != usize::MAX && x.0 > at).unwrap_or(g.len() - 1);
                        let kept = if k == 0 { String::new() } else { format!("{} ; ", g[..k].join(" ; ")) };
                        let base = if k == 0 { (done, globals) } else { counts[k - 1] };
                        if base.0 == usize::MAX || base.0 != at { stop = Some("a failing line that is only partly complete") }
                        else {
                            let new = p.globals.len() - base.1;
                            let mut t = format!("{text}{kept}");
                            if new > 0 { let hs: Vec<String> = (0..new).map(|q| format!("hidden_{hidden}_{q}")).collect(); hidden += 1; t.push_str(&format!("let {} ;", hs.join(", "))) }
                            t.push_str(&"\n".repeat(1 + g[k..].join(" ").matches('\n').count()));
                            t.push_str(";\n");
                            match parse::parse(&t) { Ok(q) => next = Some((t, q.main.body.borrow().len(), q.globals.len())), Err(_) => next = None }
                        }
                        fail = Some(x);
                    }
                }
            }
        }
        if let Some(s) = stop { c.count(&format!("session cut short: {s}"), 1); break }
        // the same lines in the real session
        let before = sink.0.borrow().len();
        let n = lines.split('\n').count();
        let start = text.matches('\n').count();
        if matches!(e, Entry::Code(_)) { let same = if let Entry::Code(g) = e { lines == g.join(" ; ") } else { false }; starts.push((start, same.then(|| lines.clone()))) }
        let mut ended = false;
        for (k, l) in lines.split('\n').enumerate() {
            log.push_str(&format!("{}{l}\n", repl.prompt()));
            let res = match guard(|| repl.run(ReadResult::Ok(l.to_string()))) { Ok(x) => x, Err(End::OutputLimit) => return (Verdict::Differ(format!("entry {ei} prints without end")), judged), Err(p) => return (Verdict::Differ(format!("entry {ei}: the interpreter panicked: {p:?}")), judged) };
            if let RunResult::Exit | RunResult::Error(_) = res { ended = true }
            if k + 1 < n && repl.prompt() != "... " && !matches!(e, Entry::Bad(_)) { return (Verdict::Differ(format!("entry {ei}: line {} was not continued", k + 1)), judged) }
        }
        let got = String::from_utf8_lossy(&sink.0.borrow()[before..]).into_owned();
        log.push_str(&got);
        if n > 1 { c.count("continued entries", 1) }
        if ended != exit { return (Verdict::Differ(format!("entry {ei}: session ended: expected {exit}, observed {ended}")), judged) }
        if repl.prompt() != ">>> " && !ended { return (Verdict::Differ(format!("entry {ei}: a complete entry is continued")), judged) }
        judged += 1;
        match (e, &fail) {
            (Entry::Bad(_), _) => {
                if !got.contains("\n  at: line ") { return (Verdict::Differ(format!("entry {ei}: invalid text was not reported as an error: {}", clip(&got))), judged) }
                c.count("entries rejected when compiled", 1);
            }
            (_, Some(x)) => {
                let Some(rest) = got.strip_prefix(&want) else { return (Verdict::Differ(format!("entry {ei}: expected output {:?} before the error, observed {:?}", clip(&want), clip(&got))), judged) };
                let msg = rest.split("\n  at: ").next().unwrap();
                if !same_msg(&x.msg, msg) { return (Verdict::Differ(format!("entry {ei}: expected error {:?}, observed {:?}", clip(&x.msg), clip(rest))), judged) }
                c.count("entries that failed at run time", 1);
                let at = |l: usize| -> Option<(usize, &String)> { let e = starts.iter().rev().find(|e| e.0 < l)?; Some((l - e.0, e.1.as_ref()?)) };
                let calls: Option<Vec<(String, usize)>> = x.calls.iter().map(|(n, l)| at(*l).map(|l| (n.clone(), l.0))).collect();
                if let (Some((l, src)), Some(calls), false) = (at(x.line), calls, x.msg == crate::drive::EVAL) {
                    if !x.calls.iter().any(|c| c.0 == "fn <eval>()") {
                        if let Some(d) = crate::drive::trace_differs(l, &calls, rest, &format!("{src}\n")) { return (Verdict::Differ(format!("entry {ei}: {d}")), judged) }
                        c.count("reports compared", 1);
                    }
                }
                c.seen(&kind_of(&x.msg));
            }
            _ => {
                if norm(&want) != norm(&got) { return (Verdict::Differ(format!("entry {ei}: expected {:?}, observed {:?}", clip(&want), clip(&got))), judged) }
                c.count("entries completed", 1);
            }
        }
        if exit { break }
        match (next, fail.is_some(), e) { (Some((t, d, g)), _, _) => { text = t; done = d; globals = g } (None, true, _) => { c.count("session cut short: later functions are undeclared", 1); break } _ => {} }
    }
    c.max("entries in a session", judged as u64);
    (Verdict::Agree, judged)
}
