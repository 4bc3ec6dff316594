//! The properties: for each, the streams of cases that decide it.
use crate::drive::{self, *};
use crate::gen::{G, W, BASE};
use crate::rng::hash;
use crate::sup::*;

pub fn showing() -> bool { std::env::var_os("CORDYV_SHOW").is_some() }

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Off, On, Third, Both }

/// The central monitor: the program runs in the reference and in the real machine, and everything observable is compared.
pub fn judge(c: &mut Ctx, text: String, mode: Mode, input: &[u8], trace: bool) -> CaseOut {
    let h = hash(&text);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text } }
    if text.contains("write_text") { return CaseOut { verdict: Verdict::Skip("writes files"), hash: h, nontrivial: false, text } }
    let r = reference(&text, input, &[], 200_000);
    let (mut nontrivial, mut outcome) = (false, "");
    if let Ref::Done { stats, end, out } = &r {
        nontrivial = stats.steps > 8 && (!out.is_empty() || matches!(end, RefEnd::Error { .. }));
        outcome = match end { RefEnd::Ok => "normal end", RefEnd::Exit => "exit", RefEnd::Error { .. } => "runtime error" };
        c.count("reference steps", stats.steps);
        c.count("user function calls", stats.calls);
        c.count("closures created", stats.closures);
        c.count("output bytes compared", out.len() as u64);
        c.max("call depth", stats.depth as u64);
        if let RefEnd::Error { msg, .. } = end { c.seen(&kind_of(msg)) }
    } else if let Ref::Rejected(why) = &r {
        let why = why.clone();
        return rejected(c, text, &why)
    }
    else if let Ref::Limit = r { return CaseOut { verdict: Verdict::Skip("step limit"), hash: h, nontrivial: false, text } }
    let opts: &[bool] = match mode { Mode::Off => &[false], Mode::On => &[true], Mode::Both => &[false, true], Mode::Third => if c.idx % 3 == 2 { &[true] } else { &[false] } };
    let mut verdict = Verdict::Agree;
    let mut seen: Vec<Obs> = vec![];
    for opt in opts {
        let o = drive::vm(&text, *opt, input, &[]);
        if let End::Panic(p) = &o.end { verdict = Verdict::Differ(format!("optimisation {opt}: the interpreter panicked: {p}")); break }
        // a failing constant expression may be reported when compiling
        if let (true, End::Compile(e)) = (*opt, &o.end) { if e.iter().all(|x| x.starts_with("TypeError: ") || x.starts_with("ValueError: ")) { verdict = Verdict::Skip("constant error reported when compiling"); break } }
        match drive::compare(&r, &o) {
            Verdict::Agree => {}
            Verdict::Skip(s) => { verdict = Verdict::Skip(s) }
            Verdict::Differ(d) => { verdict = Verdict::Differ(format!("optimisation {opt}: {d}")); break }
        }
        if trace { if let Some(d) = drive::compare_trace(&r, &o, &text) { if let Verdict::Agree = verdict { verdict = Verdict::Differ(format!("optimisation {opt}: {d}")); break } } }
        seen.push(o);
    }
    if let (Verdict::Agree | Verdict::Skip(_), [a, b]) = (&verdict, &seen[..]) {
        // the two configurations must agree whether or not the reference could judge
        if a.out != b.out || !(a.end == b.end || drive::same_place(&a.end, &b.end)) { verdict = Verdict::Differ(format!("the configurations differ\nwithout optimisation: {:?}\nwith optimisation: {:?}", a, b)) } else { c.count("configuration pairs equal", 1) }
    }
    if let Verdict::Agree = verdict { if !outcome.is_empty() { c.count(outcome, 1) } }
    CaseOut { verdict, hash: h, nontrivial, text }
}
/// What the reference does not accept as a program, the compiler must report.
pub fn rejected(c: &mut Ctx, text: String, why: &str) -> CaseOut {
    let h = hash(&text);
    if why.ends_with("not modelled") { return CaseOut { verdict: Verdict::Skip("native modules"), hash: h, nontrivial: false, text } }
    let v = cordy_sys::SourceView::new(String::from("main"), text.clone());
    let verdict = match drive::guard(|| cordy_sys::compiler::compile(false, &v).is_ok()) {
        Err(e) => Verdict::Differ(format!("the compiler panicked: {e:?}")),
        Ok(true) => Verdict::Differ(format!("a text that is not a program was accepted: {why}")),
        Ok(false) => { c.count("invalid programs rejected", 1); let why: String = why.chars().filter(|c| !c.is_ascii_digit()).take(40).collect(); c.seen(&format!("rejected: {why}")); Verdict::Agree }
    };
    CaseOut { verdict, hash: h, nontrivial: true, text }
}
/// error messages without their operands
pub fn kind_of(m: &str) -> String {
    let mut out = String::new();
    let mut q = false;
    for ch in m.lines().next().unwrap_or("").chars().take(160) { if ch == '\'' { q = !q; out.push(ch) } else if !q { if ch.is_ascii_digit() { if !out.ends_with('#') { out.push('#') } } else { out.push(ch) } } }
    format!("error: {}", out.chars().take(70).collect::<String>())
}

fn program(c: &mut Ctx, w: W, mode: Mode, id: &str) -> CaseOut {
    let mut r = c.r.clone();
    let mut text = String::new();
    for _ in 0..6 { text = G::new(&mut r, w).program(); if crate::rf::parse::parse(&text).is_ok() { break } c.count("generated programs redrawn", 1) }
    judge(c, text, mode, b"", id == "C21")
}

pub fn weights(id: &str) -> W {
    match id {
        "C01" => W { let_: 14, assign: 14, print: 6, if_: 6, loop_: 8, func: 12, block: 6, clos: 16, expr: 6, jump: 4, pat: 4, st: 0, assert: 0, structs: 0, shadow: 55, nest: 5, depth: 2, budget: 34, ..BASE },
        "C02" => W { let_: 9, assign: 10, print: 12, if_: 14, loop_: 18, func: 4, block: 6, clos: 2, expr: 3, jump: 16, pat: 2, st: 0, assert: 3, exit: 1, structs: 0, nest: 6, depth: 2, budget: 40, ..BASE },
        "C03" => W { func: 14, calls: 50, call: 40, print: 14, clos: 3, loop_: 3, st: 2, pat: 3, depth: 3, budget: 26, tracer: 0, ..BASE },
        "C04" => W { pat: 30, let_: 14, assign: 16, print: 8, st: 8, structs: 2, loop_: 6, func: 6, clos: 3, tracer: 0, depth: 2, ..BASE },
        "C05" => W { st: 30, structs: 4, print: 8, func: 5, call: 35, assign: 8, loop_: 4, clos: 4, pat: 6, depth: 3, ..BASE },
        "C06" => W { print: 40, let_: 16, assign: 16, tracer: 45, depth: 5, func: 3, call: 10, clos: 0, loop_: 1, if_: 2, block: 0, pat: 1, structs: 0, redundant: 10, budget: 16, jump: 0, ..BASE },
        "C07" => W { print: 20, let_: 14, depth: 4, errors: 6, exit: 3, if_: 12, loop_: 10, jump: 8, budget: 30, assert: 5, ..BASE },
        "C11" => W { print: 12, expr: 20, assign: 16, st: 8, structs: 1, clos: 5, ..BASE },
        "C21" => W { errors: 30, func: 14, call: 40, assert: 8, depth: 3, print: 8, ..BASE },
        _ => BASE,
    }
}
pub fn generated(c: &mut Ctx, id: &'static str) -> CaseOut { let mut w = weights(id); if c.r.p(20) { w.budget /= 3; w.depth += 1 } else if c.r.p(10) { w.budget *= 2 } let m = if id == "C07" { Mode::Both } else { Mode::Third }; program(c, w, m, id) }

pub fn directed(c: &mut Ctx, id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut text = String::new();
    for _ in 0..6 { text = crate::dir::D::new(&mut r).program(id); if crate::rf::parse::parse(&text).is_ok() { break } c.count("generated programs redrawn", 1) }
    judge(c, text, Mode::Third, b"", false)
}

/// programs over the whole grammar; those the reference rejects are still compiled
pub fn wild(c: &mut Ctx, id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let text = crate::wild::Wild::new(&mut r, id).program();
    if std::env::var_os("CORDYV_REJECTS").is_some() { if let Err(why) = crate::rf::parse::parse(&text) { let w: String = why.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(60).collect(); c.count(&format!("rejected: {w}"), 1); if c.idx < 60 { c.count(&format!("at {} {w}", c.idx), 1) } } }
    if id == "C17" || (!showing() && crate::rf::parse::parse(&text).is_err()) {
        let h = hash(&text);
        if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text } }
        if let Some(e) = crate::text::examine(c, &text) { return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text } }
        if id == "C17" { if let Err(why) = crate::rf::parse::parse(&text) { return rejected(c, text, &why) } return CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: true, text } }
        if let Err(why) = crate::rf::parse::parse(&text) { return rejected(c, text, &why) }
    }
    judge(c, text, if id == "C07" { Mode::Both } else { Mode::Third }, b"", id == "C21")
}

/// the programs of the repository's tests and documentation, as they are and with a few tokens changed
pub fn mutants(c: &mut Ctx, id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut text = String::new();
    for _ in 0..16 { let n = 1 + r.n(6); text = crate::corpus::mutant(&mut r, n, false); if crate::rf::parse::parse(&text).is_ok() || r.p(3) { break } c.count("mutants redrawn", 1) }
    if text.contains("monitor") || text.contains("env") { return CaseOut { verdict: Verdict::Skip("asks for the state of the machine"), hash: hash(&text), nontrivial: false, text } }
    judge(c, text, if id == "C07" { Mode::Both } else { Mode::Third }, b"one\ntwo 2\n", id == "C21")
}

const RULE: &str = "distinct programs whose execution in the reference model took more than 8 steps and printed something or failed, and whose observed output and outcome in the real machine were compared with it, and texts that the reference rejects, which the compiler has to reject";

pub fn get(id: &str) -> Option<Prop> { all().into_iter().find(|p| p.id == id) }
pub fn all() -> Vec<Prop> {
    let std = || vec!["the reference evaluator in /verif/harness/src/rf states the documented semantics; behaviour it marks as unspecified is skipped and counted"];
    let mut v = vec![];
    for id in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C21"] {
        v.push(Prop { id, rule: RULE, streams: vec![Stream { name: "generated", quick: 60_000, thorough: 3_000_000, f: generated }, Stream { name: "wild", quick: 30_000, thorough: 2_000_000, f: wild }, Stream { name: "mutants", quick: 24_000, thorough: 2_000_000, f: mutants }], assumptions: std(), extra: None });
    }
    for p in v.iter_mut().filter(|p| p.id == "C06" || p.id == "C07") { p.streams.push(Stream { name: "order", quick: 40_000, thorough: 3_000_000, f: crate::order::order }) }
    for id in ["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"] {
        let d = Stream { name: "directed", quick: 140_000, thorough: 4_000_000, f: directed };
        match v.iter_mut().find(|p| p.id == id) { Some(p) => p.streams.push(d), None => v.push(Prop { id, rule: RULE, streams: vec![d, Stream { name: "mutants", quick: 24_000, thorough: 2_000_000, f: mutants }], assumptions: std(), extra: None }) }
    }
    v.push(Prop { id: "C17", rule: "distinct texts of more than two characters that were compiled in both configurations, scanned, highlighted and disassembled, literals whose value was compared, and programs compared in two layouts", streams: vec![Stream { name: "texts", quick: 120_000, thorough: 12_000_000, f: crate::text::texts }, Stream { name: "literals", quick: 40_000, thorough: 3_000_000, f: crate::text::literals }, Stream { name: "layout", quick: 40_000, thorough: 3_000_000, f: crate::text::layout }, Stream { name: "wild", quick: 60_000, thorough: 4_000_000, f: wild }, Stream { name: "entries", quick: 40_000, thorough: 3_000_000, f: crate::text::entries }], assumptions: vec!["nesting deep enough to exhaust the stack of the compiler is not generated"], extra: None });
    v.push(Prop { id: "C18", rule: "distinct programs and sessions of operations on values of every type which were observed to end with a value or one formatted error", streams: vec![Stream { name: "misuse", quick: 60_000, thorough: 4_000_000, f: crate::misuse::misuse }, Stream { name: "canary", quick: 12_000, thorough: 1_000_000, f: crate::misuse::canary }], assumptions: std(), extra: None });
    v.push(Prop { id: "C19", rule: "distinct programs and sessions that compiled and were run with the address sanitizer (stream memcheck: valgrind) watching every access", streams: vec![Stream { name: "asan", quick: 24_000, thorough: 3_000_000, f: crate::mem::asan }, Stream { name: "freed", quick: 16_000, thorough: 2_000_000, f: crate::mem::freed }, Stream { name: "sessions", quick: 2_400, thorough: 400_000, f: crate::mem::sessions }, Stream { name: "memcheck", quick: 400, thorough: 40_000, f: crate::mem::asan }], assumptions: vec!["the standard library itself is not instrumented, its allocations are", "a program whose run in the reference evaluator leaves memory allocated has made a reference cycle and is not judged for leaks"], extra: None });
    v.push(Prop { id: "C20", rule: "distinct sessions of which at least 4 entries were judged: the output, prompt and error of every entry in the real session were compared with the reference evaluated over the same history", streams: vec![Stream { name: "sessions", quick: 24_000, thorough: 3_000_000, f: crate::session::session }], assumptions: std(), extra: None });
    v.push(Prop { id: "C22", rule: "distinct invocations of the built command line tool whose standard output, error stream, exit and files were compared", streams: vec![Stream { name: "programs", quick: 6_000, thorough: 600_000, f: crate::cli::programs }, Stream { name: "streams", quick: 6_000, thorough: 600_000, f: crate::cli::streams }, Stream { name: "files", quick: 5_000, thorough: 500_000, f: crate::cli::files }, Stream { name: "options", quick: 3_000, thorough: 300_000, f: crate::cli::options }, Stream { name: "prompt", quick: 3_000, thorough: 300_000, f: crate::cli::prompt }], assumptions: vec!["standard output stays open while the tool runs"], extra: None });
    v.push(Prop { id: "C23", rule: "distinct programs with native modules, linked to C libraries and run by the built command line tool, whose output and error were compared", streams: vec![Stream { name: "calls", quick: 16_000, thorough: 1_500_000, f: crate::ffi::calls }], assumptions: vec!["the libraries are compiled by gcc and clang for this machine"], extra: Some(crate::ffi::header) });
    v
}
