//! Supervisor: runs the cases of one property in worker processes and observes each worker from outside.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Instant;

use crate::rng::{mix, Rng};

pub enum Verdict { Agree, Skip(&'static str), Differ(String) }

/// What one case observed.
pub struct CaseOut { pub verdict: Verdict, pub hash: u64, pub nontrivial: bool, pub text: String }

pub struct Ctx { pub r: Rng, pub seed: u64, pub idx: u64, pub thorough: bool, pub counts: BTreeMap<String, u64> }
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) { if let Some(v) = self.counts.get_mut(k) { *v += n } else { self.counts.insert(k.to_string(), n); } }
    pub fn max(&mut self, k: &str, n: u64) { let k = format!("max {k}"); let v = self.counts.entry(k).or_insert(0); *v = (*v).max(n) }
    pub fn seen(&mut self, k: &str) { self.counts.insert(format!("seen {k}"), 1); }
}

pub type CaseFn = fn(&mut Ctx, &'static str) -> CaseOut;
pub struct Stream { pub name: &'static str, pub quick: u64, pub thorough: u64, pub f: CaseFn }
pub struct Prop { pub id: &'static str, pub rule: &'static str, pub streams: Vec<Stream>, pub assumptions: Vec<&'static str>, pub extra: Option<fn(&Run, &mut Report)> }
pub struct Run { pub id: String, pub thorough: bool, pub seed: u64, pub jobs: usize }

pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), c if (c as u32) < 32 || c as u32 == 127 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } }
    r.push('"');
    r
}
fn line_esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r") }
fn line_unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => r.push('\n'), Some('r') => r.push('\r'), Some(c) => r.push(c), None => {} } } else { r.push(c) } }
    r
}

pub fn ctx(prop: &str, stream: usize, seed: u64, idx: u64, thorough: bool) -> Ctx {
    let key = mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ crate::rng::hash(prop) ^ mix(stream as u64 + 77).wrapping_add(mix(idx)));
    Ctx { r: Rng::new(key), seed, idx, thorough, counts: BTreeMap::new() }
}

fn limit(which: libc_resource, n: u64) { let l = [n, n]; unsafe { setrlimit(which, l.as_ptr()) }; }
#[allow(non_camel_case_types)] type libc_resource = i32;
extern "C" { fn setrlimit(r: i32, l: *const u64) -> i32; }

/// Worker process: runs the cases start, start + step, ... < end of one stream, reporting each on standard output.
pub fn worker(p: &Prop, stream: usize, seed: u64, thorough: bool, start: u64, step: u64, end: u64, cpu: u64) {
    if std::env::var_os("CORDYV_ASAN").is_none() { limit(9, 5 << 30) }
    limit(4, 0);
    if cpu > 0 { limit(0, cpu) }
    let s = &p.streams[stream];
    let mut total: BTreeMap<String, u64> = BTreeMap::new();
    let out = std::io::stdout();
    let mut idx = start;
    while idx < end {
        { let mut o = out.lock(); let _ = writeln!(o, "S {idx}"); }
        let mut c = ctx(p.id, stream, seed, idx, thorough);
        let r = (s.f)(&mut c, p.id);
        for (k, v) in c.counts { let e = total.entry(k.clone()).or_insert(0); if k.starts_with("max ") { *e = (*e).max(v) } else if k.starts_with("seen ") { *e = 1 } else { *e += v } }
        let mut o = out.lock();
        match r.verdict {
            Verdict::Agree => { let _ = writeln!(o, "D {} {:x}", if r.nontrivial { 'A' } else { 'T' }, r.hash); }
            Verdict::Skip(why) => { let _ = writeln!(o, "K {why}"); }
            Verdict::Differ(d) => { let _ = writeln!(o, "V {}\t{}", line_esc(&d), line_esc(&r.text)); }
        }
        if idx % 997 == start % 997 && idx < 400_000 { let mut t = r.text; if t.len() > 1200 { let mut k = 1200; while !t.is_char_boundary(k) { k -= 1 } t.truncate(k) } let _ = writeln!(o, "P {}", line_esc(&t)); }
        drop(o);
        idx += step;
    }
    let mut o = out.lock();
    for (k, v) in total { let _ = writeln!(o, "C {v} {}", line_esc(&k)); }
    let _ = writeln!(o, "E");
    let _ = o.flush();
}

#[derive(Default)]
pub struct Report {
    pub evals: u64, pub trivial: u64, pub hashes: HashSet<u64>, pub skips: BTreeMap<String, u64>, pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>, pub violations: Vec<Violation>, pub per_stream: BTreeMap<String, u64>, pub notes: Vec<String>,
}
#[derive(Clone)]
pub struct Violation { pub what: String, pub text: String, pub stream: String, pub idx: u64 }

enum Msg { Line(usize, String), Eof(usize, String) }

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some(rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?)
}

struct W { child: Child, cur: u64, start: u64, open: bool, ended: bool, mark: (u64, u64), }

pub fn exe() -> std::path::PathBuf { std::env::current_exe().unwrap() }

fn spawn(run: &Run, stream: usize, start: u64, step: u64, end: u64, cpu: u64) -> Child {
    let memcheck = crate::props::get(&run.id).map_or(false, |p| p.streams[stream].name == "memcheck");
    let mut c = Command::new(if memcheck { "valgrind".into() } else { exe() });
    if memcheck { c.args(["-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--main-stacksize=16000000"]).arg(std::env::var_os("CORDYV_PLAIN").unwrap_or_else(|| exe().into())).env("CORDYV_ASAN", "1"); }
    c.args(["worker", &run.id, &stream.to_string(), &run.seed.to_string(), if run.thorough { "thorough" } else { "quick" }, &start.to_string(), &step.to_string(), &end.to_string(), &cpu.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.spawn().expect("spawn worker")
}
/// Runs one case alone. None if it finished, otherwise how it ended.
fn alone(run: &Run, stream: usize, start: u64, step: u64, idx: u64) -> Option<String> {
    let out = spawn(run, stream, start, step, idx + 1, if start == idx { 60 } else { 0 }).wait_with_output().expect("wait");
    let so = String::from_utf8_lossy(&out.stdout);
    if out.status.success() && so.lines().any(|l| l == "E") { return None }
    let se = String::from_utf8_lossy(&out.stderr).into_owned();
    if se.contains("memory allocation of") || se.contains("capacity overflow") || se.contains("rss limit") { return Some("OOM".into()) }
    Some(format!("{}\n{}", out.status, tail(&se)))
}
fn tail(s: &str) -> String { let v: Vec<&str> = s.lines().collect(); v[v.len().saturating_sub(60)..].join("\n") }

pub fn case_text(p: &Prop, stream: usize, run: &Run, idx: u64) -> String {
    // the text of a crashing case is printed by a separate process that stops before running it
    let o = Command::new(exe()).env("CORDYV_SHOW", "1").args(["show", p.id, &stream.to_string(), &run.seed.to_string(), if run.thorough { "thorough" } else { "quick" }, &idx.to_string()]).output();
    o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
}

pub fn run(p: &Prop, run: &Run) -> Report {
    let mut rep = Report::default();
    let max_v: usize = std::env::var("CORDYV_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
    let cap: u64 = std::env::var("CORDYV_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if run.thorough { 3600 } else { 400 });
    let t0 = Instant::now();
    let only = std::env::var("CORDYV_STREAM").ok();
    for (si, s) in p.streams.iter().enumerate() {
        if let Some(o) = &only { if o != s.name { continue } }
        let scale: f64 = std::env::var("CORDYV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = ((if run.thorough { s.thorough } else { s.quick }) as f64 * scale) as u64;
        let before = rep.evals;
        let jobs = run.jobs.min(n.max(1) as usize);
        let (tx, rx) = mpsc::channel::<Msg>();
        let attach = |c: &mut Child, w: usize| {
            let so = c.stdout.take().unwrap();
            let se = c.stderr.take().unwrap();
            let tx = tx.clone();
            std::thread::spawn(move || {
                let h = std::thread::spawn(move || { let mut keep: Vec<String> = vec![]; let mut rd = BufReader::new(se); let mut b = vec![]; while rd.read_until(b'\n', &mut b).unwrap_or(0) > 0 { keep.push(String::from_utf8_lossy(&b).trim_end().to_string()); b.clear(); if keep.len() > 400 { keep.drain(100..300); } } keep.join("\n") });
                let mut rd = BufReader::new(so);
                let mut b = vec![];
                while rd.read_until(b'\n', &mut b).unwrap_or(0) > 0 { let _ = tx.send(Msg::Line(w, String::from_utf8_lossy(&b).trim_end_matches('\n').to_string())); b.clear() }
                let _ = tx.send(Msg::Eof(w, h.join().unwrap_or_default()));
            });
        };
        let mut ws: Vec<W> = vec![];
        for w in 0..jobs {
            let mut c = spawn(run, si, w as u64, jobs as u64, n, 0);
            attach(&mut c, w);
            ws.push(W { child: c, cur: w as u64, start: w as u64, open: true, ended: false, mark: (u64::MAX, 0) });
        }
        let mut hang_check = Instant::now();
        while ws.iter().any(|w| w.open) {
            let m = rx.recv_timeout(std::time::Duration::from_millis(500));
            match m {
                Ok(Msg::Line(w, l)) => {
                    let (k, rest) = l.split_at(l.len().min(1));
                    let rest = rest.strip_prefix(' ').unwrap_or(rest);
                    match k {
                        "S" => ws[w].cur = rest.parse().unwrap_or(0),
                        "D" => { rep.evals += 1; let (t, h) = rest.split_at(1); if t == "A" { rep.hashes.insert(u64::from_str_radix(h.trim(), 16).unwrap_or(0)); } else { rep.trivial += 1 } }
                        "K" => { rep.evals += 1; *rep.skips.entry(rest.to_string()).or_insert(0) += 1 }
                        "V" => {
                            rep.evals += 1;
                            let (d, t) = rest.split_once('\t').unwrap_or((rest, ""));
                            rep.violations.push(Violation { what: line_unesc(d), text: line_unesc(t), stream: s.name.into(), idx: ws[w].cur });
                        }
                        "C" => { let (n, k) = rest.split_once(' ').unwrap(); let n: u64 = n.parse().unwrap(); let e = rep.counts.entry(line_unesc(k)).or_insert(0); if k.starts_with("max ") { *e = (*e).max(n) } else if k.starts_with("seen ") { *e = 1 } else { *e += n } }
                        "P" => if rep.samples.len() < 12 { rep.samples.push(format!("[{}] {}", s.name, line_unesc(rest))) },
                        "E" => ws[w].ended = true,
                        _ => {}
                    }
                }
                Ok(Msg::Eof(w, se)) => {
                    let st = ws[w].child.wait().expect("wait");
                    ws[w].open = false;
                    let done = rep.violations.len() >= max_v || t0.elapsed().as_secs() > cap;
                    if !ws[w].ended && !done {
                        // the worker died within case `cur`
                        let cur = ws[w].cur;
                        rep.evals += 1;
                        if se.contains("memory allocation of") || se.contains("rss limit") { *rep.skips.entry("memory limit".into()).or_insert(0) += 1 } else {
                            let mut how = alone(run, si, cur, 1, cur);
                            if how.is_none() { let j = jobs as u64; how = alone(run, si, ws[w].start.max(cur.saturating_sub(400 * j) / j * j + cur % j), j, cur).map(|h| format!("{h}\n(needs the preceding cases of its worker)")) }
                            match how {
                                Some(h) if h == "OOM" => *rep.skips.entry("memory limit".into()).or_insert(0) += 1,
                                Some(h) => rep.violations.push(Violation { what: format!("the interpreter died or did not end: {h}"), text: case_text(p, si, run, cur), stream: s.name.into(), idx: cur }),
                                None => { *rep.skips.entry("worker ended, not reproducible".into()).or_insert(0) += 1; rep.notes.push(format!("stream {} case {cur}: worker ended with {st} once, not reproducible: {}", s.name, tail(&se))) }
                            }
                        }
                        if cur + (jobs as u64) < n && rep.violations.len() < max_v {
                            let next = cur + jobs as u64;
                            let mut c = spawn(run, si, next, jobs as u64, n, 0);
                            attach(&mut c, w);
                            ws[w] = W { child: c, cur: next, start: next, open: true, ended: false, mark: (u64::MAX, 0) };
                        }
                    }
                }
                Err(_) => {}
            }
            if rep.violations.len() >= max_v || t0.elapsed().as_secs() > cap { for w in &mut ws { if w.open { let _ = w.child.kill(); } } }
            if hang_check.elapsed().as_millis() > 1500 {
                hang_check = Instant::now();
                for w in &mut ws { if w.open {
                    if let Some(t) = cpu_ticks(w.child.id()) {
                        if w.mark.0 != w.cur { w.mark = (w.cur, t) }
                        // 40 s of processor time within one case
                        else if t - w.mark.1 > 4000 { let _ = w.child.kill(); }
                    }
                } }
            }
        }
        *rep.per_stream.entry(s.name.into()).or_insert(0) += rep.evals - before;
        if rep.violations.len() >= max_v { break }
    }
    rep
}
