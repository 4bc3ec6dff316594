//! Runs programs in the real compiler and virtual machine, and in the reference model, and compares what was observed.
use std::cell::RefCell;
use std::io::{Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use cordy_sys::compiler;
use cordy_sys::util::Noop;
use cordy_sys::vm::{ExitType, VirtualMachine};
use cordy_sys::SourceView;

use crate::rf::interp::{Er, Interp, STEPS};
use crate::rf::{parse, value};
use crate::sup::Verdict;

#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok, Exit, Error { msg: String, text: String }, Compile(Vec<String>), Panic(String), OutputLimit }
#[derive(Clone, Debug)]
pub struct Obs { pub out: String, pub end: End }

const OUT_LIMIT: usize = 4 << 20;
struct LimitHit;

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<Vec<u8>>>);
impl Sink {
    pub fn new() -> Sink { Sink(Rc::new(RefCell::new(Vec::new()))) }
    pub fn take(&self) -> Vec<u8> { std::mem::take(&mut *self.0.borrow_mut()) }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if s.len() + b.len() > OUT_LIMIT { std::panic::panic_any(LimitHit) }
        s.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}"));
        if std::env::var_os("CORDYV_PANICS").is_some() { eprintln!("panic: {m} at {at}") }
    }));
}
/// Runs `f`; a panic is returned as its text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, End> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => if e.is::<LimitHit>() { Err(End::OutputLimit) } else { Err(End::Panic(LAST.with(|l| l.borrow().clone()))) }
    }
}

pub fn vm(text: &str, opt: bool, input: &[u8], argv: &[String]) -> Obs { vm_named("main", text, opt, input, argv) }
pub fn vm_named(name: &str, text: &str, opt: bool, input: &[u8], argv: &[String]) -> Obs {
    // (never write files of the machine)
    if text.contains("write_text") { return Obs { out: String::new(), end: End::OutputLimit } }
    let sink = Sink::new();
    let w = sink.clone();
    let end = guard(move || {
        let view = SourceView::new(String::from(name), String::from(text));
        let c = match compiler::compile(opt, &view) { Ok(c) => c, Err(e) => return End::Compile(e) };
        let mut vm = VirtualMachine::new(c, view, Cursor::new(input.to_vec()), w, Noop);
        vm.with_args(argv.to_vec());
        match vm.run_until_completion() {
            ExitType::Exit => End::Exit,
            ExitType::Return => End::Ok,
            ExitType::Yield => End::Panic("unexpected yield".into()),
            ExitType::Error(e) => {
                let text = vm.view().format(&e);
                let msg = text.split("\n  at: ").next().unwrap().to_string();
                End::Error { msg, text }
            }
        }
    });
    let out = String::from_utf8_lossy(&sink.0.borrow()).into_owned();
    Obs { out, end: end.unwrap_or_else(|e| e) }
}

pub enum Ref { Done { out: String, end: RefEnd, stats: Stats }, Rejected(String), Limit, Unspec(&'static str) }
#[derive(Debug, Clone)]
pub enum RefEnd { Ok, Exit, Error { msg: String, line: usize, calls: Vec<(String, usize)> } }
#[derive(Default, Clone, Debug)]
pub struct Stats { pub steps: u64, pub calls: u64, pub depth: usize, pub closures: u64 }

pub fn reference(text: &str, input: &[u8], argv: &[String], limit: u64) -> Ref {
    // a panic here is a double borrow: a collection that is its own key or is mutated by the operation reading it
    guard(|| reference_(text, input, argv, limit)).unwrap_or_else(|e| { if let Some(d) = std::env::var_os("CORDYV_PANICS") { let _ = std::fs::write(std::path::Path::new(&d).join(format!("{:x}.cor", crate::rng::hash(text))), format!("{text}\n# {e:?}")); } Ref::Unspec("reference panicked") })
}
fn reference_(text: &str, input: &[u8], argv: &[String], limit: u64) -> Ref {
    value::begin();
    STEPS.with(|s| s.set(limit));
    let p = match parse::parse(text) { Ok(p) => p, Err(e) => return Ref::Rejected(e) };
    let mut i = Interp::new(&p.globals);
    i.input = input.to_vec();
    i.argv = argv.to_vec();
    let r = i.run(&p);
    if i.out.len() > OUT_LIMIT / 4 { return Ref::Limit }
    let steps = limit - STEPS.with(|s| s.get());
    let end = match r {
        Ok(()) => RefEnd::Ok,
        Err(Er::Exit) => RefEnd::Exit,
        Err(Er::Limit) => return Ref::Limit,
        Err(Er::Rt(e)) => RefEnd::Error { msg: e.msg, line: e.line, calls: e.calls },
    };
    if let Some(u) = value::UNSPEC.with(|u| u.get()) { return if u == "limit" { Ref::Limit } else { Ref::Unspec(u) } }
    Ref::Done { out: std::mem::take(&mut i.out), end, stats: Stats { steps, calls: i.calls, depth: i.max_seen, closures: i.closures } }
}

pub const EVAL: &str = "Encountered compilation error(s) within 'eval':";
/// The text of a compile error inside `eval` is not compared.
pub fn same_msg(want: &str, got: &str) -> bool { if want == EVAL { got.starts_with(EVAL) } else { norm(want) == norm(got) } }

pub fn norm(s: &str) -> String { s.replace("'closure'", "'function'").replace("type closure", "type function").replace("and closure", "and function") }



fn clip(s: &str) -> String { if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1 } format!("{}…", &s[..k]) } else { s.to_string() } }

/// What the report says: the lines of the failing operation, and for each call the function and the line of the call, innermost first.
pub fn trace_of(text: &str) -> Option<(usize, usize, Vec<(String, usize)>)> {
    let k = text.find("\n  at: line ")?;
    let mut it = text[k + 1..].lines();
    let first = it.next()?.strip_prefix("  at: line ")?.split(" (").next()?;
    let (a, b) = match first.split_once(" - ") { Some((a, b)) => (a.parse().ok()?, b.parse().ok()?), None => { let n = first.parse().ok()?; (n, n) } };
    let mut calls: Vec<(String, usize)> = vec![];
    for l in it {
        if let Some(x) = l.strip_prefix("  at: `") { let (name, n) = x.rsplit_once("` (line ")?; calls.push((name.to_string(), n.strip_suffix(')')?.parse().ok()?)) }
        else if let Some(x) = l.strip_prefix("  ... above line repeated ") { let n: usize = x.split(' ').next()?.parse().ok()?; let last = calls.last()?.clone(); for _ in 0..n { calls.push(last.clone()) } }
        else { break }
    }
    Some((a, b, calls))
}

/// The quoted lines are those of the source, and the underline lies below the failing text. Returns what is wrong.
pub fn quote_of(text: &str, source: &str, a: usize, b: usize) -> Result<String, String> {
    let Some(k) = text.find("\n\n") else { return Err("no source is quoted".into()) };
    let lines: Vec<&str> = source.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let mut it = text[k + 2..].split('\n').map(|l| l);
    let w = (b + 1).to_string().len();
    for n in a..=b {
        let want = if lines.get(n - 1).map_or(true, |l| l.is_empty()) { format!("{n:w$} |") } else { format!("{n:w$} | {}", lines[n - 1]) };
        let got = it.next().unwrap_or("");
        if got != want { return Err(format!("quoted line {n}: expected {want:?}, observed {got:?}")) }
    }
    let u = it.next().unwrap_or("");
    let head = format!("{:w$} |", b + 1);
    let Some(u) = u.strip_prefix(&head) else { return Err(format!("no underline but {u:?}")) };
    if !u.trim_start().chars().all(|c| c == '^') || (a == b && !u.contains('^')) { return Err(format!("the underline is {u:?}")) }
    if a != b { return Ok(lines[a - 1..b].join("\n")) }
    // the underlined text: columns after the space
    let pre = u.chars().take_while(|c| *c != '^').count();
    let n = u.chars().filter(|c| *c == '^').count();
    let line = lines[a - 1];
    let skip = if line.is_empty() { 0 } else { 1 };
    if pre < skip { return Err(format!("the underline is {u:?}")) }
    Ok(line.chars().skip(pre - skip).take(n).collect())
}

pub fn compare(refr: &Ref, o: &Obs) -> Verdict {
    let (out, end) = match refr {
        Ref::Done { out, end, .. } => (out, end),
        Ref::Limit => return Verdict::Skip("limit"),
        Ref::Unspec(u) => return Verdict::Skip(u),
        Ref::Rejected(_) => return Verdict::Skip("rejected by the reference parser"),
    };
    if o.end == End::OutputLimit { return Verdict::Differ("the program prints without end".into()) }
    let same_end = match (end, &o.end) {
        (RefEnd::Ok | RefEnd::Exit, End::Ok | End::Exit) => true,
        (RefEnd::Error { msg, .. }, End::Error { msg: m, .. }) => same_msg(msg, m),
        _ => false,
    };
    if same_end && *out == o.out { return Verdict::Agree }
    let (we, oe) = (format!("{end:?}"), format!("{:?}", o.end));
    if *out != o.out {
        let k = out.lines().zip(o.out.lines()).position(|(a, b)| a != b).unwrap_or(out.lines().count().min(o.out.lines().count()));
        return Verdict::Differ(format!("output line {}: expected {:?}, observed {:?}\nexpected outcome {}\nobserved outcome {}", k + 1, out.lines().nth(k).map(clip), o.out.lines().nth(k).map(clip), clip(&we), clip(&oe)))
    }
    Verdict::Differ(format!("expected outcome {}\nobserved outcome {}", clip(&we), clip(&oe)))
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().expect("worker thread")
}

/// Line of the failing operation and chain of calls with the line of each call, innermost first.
pub fn compare_trace(r: &Ref, o: &Obs, source: &str) -> Option<String> {
    let (Ref::Done { end: RefEnd::Error { line, calls, .. }, .. }, End::Error { text, .. }) = (r, &o.end) else { return None };
    trace_differs(*line, calls, text, source)
}
pub fn trace_differs(line: usize, calls: &[(String, usize)], text: &str, source: &str) -> Option<String> {
    // a failing `eval` contains the reports of the compiler, followed by its own
    let own = text.strip_prefix("Encountered compilation error(s) within 'eval':\n").and_then(|t| t.rfind("\n\n  at: line ").map(|k| format!("Compilation error(s)\n{}", &t[k + 2..])));
    let text = own.as_deref().unwrap_or(text);
    let Some((a, b, seen)) = trace_of(text) else { return Some(format!("the report names no line: {}", clip(text))) };
    if line < a || line > b { return Some(format!("the failing operation is on line {line}, reported on line {a} - {b}\n{}", clip(text))) }
    if calls.len() != seen.len() { return Some(format!("{} active calls, {} reported\nexpected {calls:?}\n{}", calls.len(), seen.len(), clip(text))) }
    for (k, (c, s)) in calls.iter().zip(&seen).enumerate() {
        let name = if c.0 == "fn <eval>()" { "<script>" } else { &c.0 };
        if name != s.0 || c.1 != s.1 { return Some(format!("call {k}: expected {name} called on line {}, reported {} on line {}\n{}", c.1, s.0, s.1, clip(text))) }
    }
    if text.lines().find(|l| l.starts_with("  at: line ")).is_some_and(|l| l.ends_with(" (<eval>)")) { return None }
    quote_of(text, source, a, b).err().map(|e| format!("{e}\n{}", clip(text)))
}

/// The same error at the same place: the underlined parts may differ as long as they overlap; a bad argument of a slice may be blamed on the slice or on the operator that applies it
pub fn same_place(a: &End, b: &End) -> bool {
    let (End::Error { msg: m, text: x }, End::Error { msg: n, text: y }) = (a, b) else { return false };
    let carets = |l: &str| l.split_once(" |").is_some_and(|(n, c)| n.trim().bytes().all(|b| b.is_ascii_digit()) && c.contains('^') && c.trim().bytes().all(|b| b == b'^'));
    let (x, y): (Vec<&str>, Vec<&str>) = (x.split('\n').collect(), y.split('\n').collect());
    m == n && x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || (carets(p) && carets(q) && (m.ends_with("to be a int") || p.find('^') <= q.rfind('^') && q.find('^') <= p.rfind('^'))))
}
