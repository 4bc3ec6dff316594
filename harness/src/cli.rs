//! C22: the command line tool, observed as a process: standard streams, arguments, environment, files, options, prompt.
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::drive::{self, *};
use crate::props::{showing, weights};
use crate::rng::{hash, Rng};
use crate::sup::*;

/// A directory of its own for one case, removed afterwards.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("cordyv-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub struct Out { pub code: Option<i32>, pub out: Vec<u8>, pub err: Vec<u8>, pub late: bool }
pub struct Call<'a> { pub args: Vec<OsString>, pub cwd: &'a Path, pub input: Vec<u8>, /// sizes of the pieces in which the input arrives
    pub pieces: Vec<usize>, pub env: Vec<(OsString, OsString)> }

pub fn tool() -> PathBuf { PathBuf::from(std::env::var_os("CORDYV_CLI").unwrap_or_else(|| "/verif/target/cli/debug/cordy".into())) }

pub fn exec(call: &Call) -> Out { exec_within(call, 60) }
pub fn exec_within(call: &Call, seconds: u64) -> Out {
    let mut child = Command::new(tool()).args(&call.args).current_dir(call.cwd).env_clear().envs(call.env.iter().cloned())
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("the command line tool starts");
    let mut stdin = child.stdin.take().unwrap();
    let (input, pieces) = (call.input.clone(), call.pieces.clone());
    let feed = std::thread::spawn(move || {
        let mut at = 0;
        for p in pieces { if at >= input.len() { break } let e = (at + p).min(input.len()); if stdin.write_all(&input[at..e]).and_then(|_| stdin.flush()).is_err() { return } at = e; std::thread::sleep(Duration::from_micros(300)) }
        let _ = stdin.write_all(&input[at..]);
    });
    fn drain(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> { std::thread::spawn(move || { let mut v = vec![]; let _ = r.by_ref().take(64 << 20).read_to_end(&mut v); v }) }
    let (o, e) = (drain(child.stdout.take().unwrap()), drain(child.stderr.take().unwrap()));
    let t = Instant::now();
    let mut late = false;
    let status = loop {
        match child.try_wait() { Ok(Some(s)) => break Some(s), _ => {} }
        if t.elapsed() > Duration::from_secs(seconds) { late = true; let _ = child.kill(); break child.wait().ok() }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 150 } else { 2000 }));
    };
    let _ = feed.join();
    Out { code: status.and_then(|s| s.code().or(s.signal().map(|k| 1000 + k))), out: o.join().unwrap(), err: e.join().unwrap(), late }
}

fn show(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); let mut t: String = s.chars().take(900).collect(); if t.len() < s.len() { t += "..." } t }

/// what is wrong with any run, whatever it was asked to do
pub fn crashed(o: &Out) -> Option<String> {
    if o.late { return Some("it does not end".into()) }
    match o.code { Some(c) if c >= 1000 => return Some(format!("killed by signal {}\n{}", c - 1000, show(&o.err))), Some(101) => return Some(format!("it panicked\n{}", show(&o.err))), None => return Some("no exit status".into()), _ => {} }
    if String::from_utf8_lossy(&o.err).contains("panicked at") { return Some(format!("it panicked\n{}", show(&o.err))) }
    None
}
fn expect(o: &Out, out: &[u8], err: &[u8]) -> Option<String> {
    if let Some(e) = crashed(o) { return Some(e) }
    if o.out != out { let k = o.out.iter().zip(out).position(|(a, b)| a != b).unwrap_or(o.out.len().min(out.len())); return Some(format!("standard output differs at byte {k} (of {} expected, {} observed)\nexpected {:?}\nobserved {:?}\nstandard error {:?}", out.len(), o.out.len(), show(&out[k.saturating_sub(40)..]), show(&o.out[k.saturating_sub(40)..]), show(&o.err))) }
    if o.err != err { return Some(format!("standard error differs\nexpected {:?}\nobserved {:?}", show(err), show(&o.err))) }
    None
}
fn done(v: Option<String>, text: String) -> CaseOut { let h = hash(&text); CaseOut { verdict: match v { Some(d) => Verdict::Differ(d), None => Verdict::Agree }, hash: h, nontrivial: true, text } }
fn skip(w: &'static str, text: String) -> CaseOut { let h = hash(&text); CaseOut { verdict: Verdict::Skip(w), hash: h, nontrivial: false, text } }
fn os(s: &str) -> OsString { OsString::from(s) }

/// generated programs: the streams of the process against the reference, and its report against the one of the same program in process
pub fn programs(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let pick = ["C01", "C02", "C03", "C04", "C05", "C06", "C21", "C11"];
    let text = match r.n(10) {
        0 => { let n = 1 + r.n(4); crate::corpus::mutant(&mut r, n, false) }
        1 | 2 => crate::wild::Wild::new(&mut r, "C21").program(),
        _ => { let mut w = weights(pick[r.n(pick.len())]); w.budget = w.budget / 2 + 4; if r.p(40) { w.errors += 10 } if r.p(20) { w.exit += 6 } crate::gen::G::new(&mut r, w).program() }
    };
    if showing() { return skip("shown", text) }
    if ["monitor", "env", "write_text", "read_text", "native"].iter().any(|w| text.contains(w)) { return skip("asks for the state of the machine", text) }
    let input: &[u8] = b"one\ntwo 2\n";
    let want = reference(&text, input, &[], 100_000);
    let opt = r.p(30);
    let names = ["main", "a b.cor", "dir/x.cor", "é 🦀.cor", "./dir/../y", "-x.cor", "dir/%s{}.cor"];
    let name = names[r.n(names.len())];
    let d = Scratch::new();
    let _ = std::fs::create_dir(d.0.join("dir"));
    std::fs::write(d.0.join(name), &text).unwrap();
    let mut args = vec![];
    if opt { args.push(os(if r.p(50) { "-o" } else { "--optimize" })) }
    args.push(os(name));
    let (out, err): (Vec<u8>, Vec<u8>) = match &want {
        Ref::Limit => return skip("step limit", text),
        Ref::Unspec(u) => return skip(u, text),
        Ref::Rejected(_) => {
            let o = drive::vm_named(name, &text, opt, input, &[]);
            match &o.end { End::Compile(e) => (vec![], format!("{}\n", e.join("\n")).into_bytes()), _ => return skip("rejected by the reference parser", text) }
        }
        Ref::Done { out, .. } => {
            let o = drive::vm_named(name, &text, opt, input, &[]);
            match &o.end {
                End::Compile(e) => { if !opt { return skip("rejected", text) } (vec![], format!("{}\n", e.join("\n")).into_bytes()) }
                End::Error { text: t, .. } => { c.count("error reports compared", 1); (out.clone().into_bytes(), format!("{t}\n").into_bytes()) }
                End::Ok | End::Exit => (out.clone().into_bytes(), vec![]),
                End::Panic(p) => return done(Some(format!("panic: {p}")), text),
                _ => return skip("output limit", text),
            }
        }
    };
    c.count("bytes of standard output compared", out.len() as u64);
    let pieces = if r.p(30) { vec![1; 12] } else { vec![] };
    let o = exec(&Call { args, cwd: &d.0, input: input.to_vec(), pieces, env: vec![] });
    c.count("processes observed", 1);
    done(expect(&o, &out, &err), format!("// file {name:?}, optimisation {opt}\n{text}"))
}

/// a literal of the language for any text
pub fn literal(s: &str) -> String {
    let mut t = String::from("\"");
    for ch in s.chars() { match ch { '"' => t.push_str("\\\""), '\\' => t.push_str("\\\\"), '\n' => t.push_str("\\n"), '\t' => t.push_str("\\t"), '\r' => t.push_str("\\r"), ch => t.push(ch) } }
    t.push('"');
    t
}
pub fn phrase(r: &mut Rng, max: usize) -> String {
    let n = match r.n(12) { 0 => 0, 1 => r.n(max * 20 + 1), 2 => *r.pick(&[5, 6, 7, 8, 9, 15, 16, 17]), _ => r.n(max + 1) };
    let kind = r.n(3);
    (0..n).map(|_| match if kind == 0 { 0 } else { r.n(12) } { 10 => *r.pick(&['é', '🦀', '\u{301}', 'ß', '\u{feff}', '\u{10ffff}', '\u{a0}', '中', '\u{2028}']), 11 => *r.pick(&['"', '\'', '\\', '\t', ' ', '%', '{', '}', '\u{b}', '\u{c}', '\u{1b}']), _ => (32 + r.n(95) as u8) as char }).collect()
}

/// read, read_line, argv, env and print against a model of the streams
pub fn streams(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    // standard input
    let mut input: Vec<u8> = vec![];
    let lines = match r.n(8) { 0 => 0, 1 => 20 + r.n(200), _ => r.n(9) };
    for i in 0..lines {
        let mut l = phrase(&mut r, 30);
        if r.p(6) { l.push('\r') }
        if r.p(4) { l.insert(0, '\r') }
        if r.p(3) { l.push('\0') }
        if r.p(1) { l = l.repeat(700) }
        input.extend(l.as_bytes());
        if i + 1 < lines || r.p(60) { input.extend(if r.p(25) { &b"\r\n"[..] } else { b"\n" }) }
    }
    let spoiled = r.p(8) && { let k = r.n(input.len() + 1); let bad: &[u8] = [&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0xa6], &[0x80]][r.n(5)]; input.splice(k..k, bad.iter().copied()); std::str::from_utf8(&input).is_err() };
    let argv: Vec<String> = (0..r.n(5)).map(|_| match r.n(6) { 0 => (*r.pick(&["-o", "--help", "-d", "--link", "-", "--", "--format-no=x", ""])).to_string(), _ => phrase(&mut r, 12).replace('\0', "") }).collect();
    let mut env: Vec<(String, String)> = vec![];
    for k in 0..r.n(4) { env.push((format!("CV{}_{k}", *r.pick(&["", "é", "x y"])), phrase(&mut r, 12).replace('\0', ""))) }
    let mut envs: Vec<(OsString, OsString)> = env.iter().map(|(k, v)| (os(k), os(v))).collect();
    if r.p(10) { envs.push((os("CV_BAD"), OsString::from_vec(vec![b'a', 0xff, b'b']))) }
    if r.p(4) { envs.push((OsString::from_vec(vec![b'C', 0xfe]), os("1"))) }
    // the program, and what it prints
    let (mut p, mut out) = (String::new(), Vec::<u8>::new());
    let mut pos = 0usize;
    let mut dead = false; // a read met invalid text: the program stops there
    fn line(input: &[u8], pos: &mut usize) -> Option<String> {
        let rest = &input[*pos..];
        let k = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |k| k + 1);
        *pos += k;
        let s = std::str::from_utf8(&rest[..k]).ok()?;
        let s = s.strip_suffix('\n').map_or(s, |s| s.strip_suffix('\r').unwrap_or(s));
        Some(s.to_string())
    }
    let n = 1 + r.n(14);
    let mut ended = false;
    let mut failed = false;
    for _ in 0..n {
        let before = out.len();
        let mut say = |s: &str| { out.extend(s.as_bytes()); out.push(b'\n') };
        let mut bad = false;
        match r.n(19) {
            0 | 1 => { p += "print('[' + read_line() + ']')\n"; match line(&input, &mut pos) { Some(l) => say(&format!("[{l}]")), None => bad = true } }
            2 => { p += "(fn() { let l = read_line() ; print(len(l)) ; print(l, len(l), l) })()\n"; match line(&input, &mut pos) { Some(l) => { let k = l.chars().count(); say(&k.to_string()); say(&format!("{l} {k} {l}")) } None => bad = true } }
            3 => { let k = r.n(5); p += &format!("for i in range({k}) {{ print(i, read_line()) }}\n"); for i in 0..k { match line(&input, &mut pos) { Some(l) => say(&format!("{i} {l}")), None => { bad = true; break } } } }
            4 => { let k = r.n(4); p += &format!("range({k}) . map(fn(_) -> read_line()) . map(len) . print\n"); let mut v = vec![]; for _ in 0..k { match line(&input, &mut pos) { Some(l) => v.push(l.chars().count().to_string()), None => { bad = true; break } } } if !bad { say(&format!("[{}]", v.join(", "))) } }
            5 => { p += "(fn(a) { print(a) ; print(len(a)) })(read())\n"; match std::str::from_utf8(&input[pos..]) { Ok(s) => { let s = s.replace("\r\n", "\n"); say(&s); say(&s.chars().count().to_string()) } Err(_) => bad = true } pos = input.len() }
            6 => { p += "for w in range(2) { if read_line() . len > 3 { print('long') } else { print('short') } }\n"; for _ in 0..2 { match line(&input, &mut pos) { Some(l) => say(if l.chars().count() > 3 { "long" } else { "short" }), None => { bad = true; break } } } }
            7 => { p += "print(len(argv()))\n"; say(&argv.len().to_string()) }
            8 => { p += "for a in argv() { print('<' + a + '>') }\n"; for a in &argv { say(&format!("<{a}>")) } }
            9 => { p += "argv() . map(len) . print\n"; say(&format!("[{}]", argv.iter().map(|a| a.chars().count().to_string()).collect::<Vec<_>>().join(", "))) }
            10 => if let Some(k) = argv.len().checked_sub(1) { let k = r.n(k + 1); p += &format!("print(argv()[{k}], argv() [-{}])\n", k + 1); say(&format!("{} {}", argv[k], argv[argv.len() - 1 - k])) }
            11 | 12 => if !env.is_empty() { let (k, v) = r.pick(&env).clone(); p += &match r.n(3) { 0 => format!("print(env({}))\n", literal(&k)), 1 => format!("print(env()[{}])\n", literal(&k)), _ => format!("{} . env . print\n", literal(&k)) }; say(&v) }
            13 => { p += "print(env('CV_NONE'), 'CV_NONE' in env())\n"; say("nil false") }
            14 => { let t = phrase(&mut r, 40); p += &format!("print({})\n", literal(&t)); say(&t) }
            15 => { let (a, b) = (phrase(&mut r, 8), r.n(1000)); p += &format!("print({}, {b}, nil, true, [1, {b}])\n", literal(&a)); say(&format!("{a} {b} nil true [1, {b}]")) }
            16 => { let (t, k) = (phrase(&mut r, 10), r.n(4000)); p += &format!("print({} * {k})\n", literal(&t)); say(&t.repeat(k)) }
            17 => { let k = r.n(60); p += &format!("for i in range({k}) {{ print(i) ; print() }}\n"); for i in 0..k { say(&i.to_string()); say("") } }
            _ => if r.p(25) { let form = r.n(4); p += ["exit\n", "print([] [len(argv())])\n", "assert len(argv()) < 0\n", "(fn() { for x in [1] { if x == 1 { exit } } })()\n"][form]; ended = true; failed = form == 1 || form == 2 }
        }
        let _ = before;
        if bad { dead = true; break }
        if ended { if r.p(70) { p += "print('after')\n" } break }
    }
    if dead { p += "print('after')\n" }
    let input_shown = String::from_utf8_lossy(&input).into_owned();
    let text = format!("// input {:?}\n// arguments {argv:?}\n// environment {:?}\n{p}", input_shown.chars().take(3000).collect::<String>(), envs);
    if showing() { return skip("shown", text) }
    let d = Scratch::new();
    std::fs::write(d.0.join("main"), &p).unwrap();
    let mut args = vec![];
    if r.p(30) { args.push(os("-o")) }
    args.push(os("main"));
    args.extend(argv.iter().map(|a| os(a)));
    let pieces = match r.n(4) { 0 => vec![1; 40], 1 => (0..20).map(|_| 1 + r.n(50)).collect(), _ => vec![] };
    let len = input.len();
    let o = exec(&Call { args, cwd: &d.0, input, pieces, env: envs });
    c.count("processes observed", 1);
    c.count("bytes of standard input sent", len as u64);
    c.count("bytes of standard output compared", out.len() as u64);
    if spoiled { c.count("inputs of invalid text", 1) }
    if let Some(e) = crashed(&o) { return done(Some(e), text) }
    if dead || failed { if o.err.is_empty() { return done(Some(format!("the error is not reported (output {:?})", show(&o.out))), text) } c.count("errors after output observed", 1); return done(expect(&o, &out, &o.err.clone()), text) }
    done(expect(&o, &out, b""), text)
}

/// write_text and read_text against a model of the files of a directory
pub fn files(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let d = Scratch::new();
    let mut disk: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
    for n in ["sub", "sub/deep", "é dir"] { std::fs::create_dir(d.0.join(n)).unwrap() }
    let paths = ["a", "b.txt", "sub/c", "sub/deep/d.cor", "é dir/🦀.txt", "./e", "sub/../f", "with space", "-dash", "'q'", "x".repeat(200).leak()];
    let norm = |p: &str| -> String { match p { "./e" => "e".into(), "sub/../f" => "f".into(), p => p.into() } };
    for _ in 0..r.n(3) {
        let mut b = phrase(&mut r, 60).into_bytes();
        if r.p(30) { let k = r.n(b.len() + 1); b.splice(k..k, [*r.pick(&[0xffu8, 0xc3, 0x80])]); }
        if r.p(30) { b.extend(b"x\r\ny\rz\n\r\n") }
        let p = paths[r.n(6)];
        std::fs::write(d.0.join(p), &b).unwrap();
        disk.insert(norm(p), b);
    }
    let start: Vec<String> = disk.iter().map(|(k, v)| format!("{k:?}: {:?}", String::from_utf8_lossy(v))).collect();
    let (mut prog, mut out) = (String::new(), Vec::<u8>::new());
    let mut argv: Vec<String> = vec![];
    let n = 1 + r.n(12);
    let mut fail: Option<&'static str> = None;
    for _ in 0..n {
        let p = paths[r.n(paths.len())];
        let mut say = |s: &str| { out.extend(s.as_bytes()); out.push(b'\n') };
        match r.n(10) {
            0..=3 => {
                let mut t = match r.n(8) { 0 => phrase(&mut r, 20).repeat(r.n(200)), _ => phrase(&mut r, 80) };
                if r.p(15) { t += "\r\n" } if r.p(8) { t += "\rx" } if r.p(20) { t += "\n" }
                let form = match r.n(4) { 0 => { t = t.replace('\0', ""); argv.push(t.clone()); format!("write_text({}, argv()[{}])", literal(p), argv.len() - 1) } 1 => format!("{} . write_text {}", literal(&t), literal(p)), 2 => { t = t.repeat(3); format!("write_text({}, {} * 3)", literal(p), literal(&t[..t.len() / 3])) } _ => format!("write_text({}, {})", literal(p), literal(&t)) };
                let form = if form.contains(" . write_text ") { format!("{} . (write_text({}))", literal(&t), literal(p)) } else { form };
                prog += &form; prog.push('\n');
                disk.insert(norm(p), t.into_bytes());
            }
            4..=7 => {
                let form = r.n(3);
                prog += &match form { 0 => format!("print(read_text({}))\n", literal(p)), 1 => format!("(fn(t) {{ print(len(t)) ; print('<' + t + '>') }})(read_text({}))\n", literal(p)), _ => format!("{} . read_text . split('\\n') . len . print\n", literal(p)) };
                match disk.get(&norm(p)).map(|b| std::str::from_utf8(b)) {
                    None => { fail = Some("missing file"); break }
                    Some(Err(_)) => { fail = Some("file of invalid text"); break }
                    Some(Ok(t)) => { let t = t.replace("\r\n", "\n"); match form { 0 => say(&t), 1 => { say(&t.chars().count().to_string()); say(&format!("<{t}>")) } _ => say(&t.split('\n').count().to_string()) } }
                }
            }
            8 => if let Some((q, t)) = disk.iter().find(|(_, b)| std::str::from_utf8(b).is_ok()).map(|(q, b)| (q.clone(), String::from_utf8(b.clone()).unwrap())) {
                // a copy
                prog += &format!("write_text({}, read_text({}))\n", literal(p), literal(&q));
                disk.insert(norm(p), t.replace("\r\n", "\n").into_bytes());
            }
            _ => if r.p(30) {
                let k = r.n(6);
                prog += ["read_text('sub')\n", "write_text('sub', 'x')\n", "write_text('none/x', 'x')\n", "read_text('')\n", "read_text('a\\0b')\n", "write_text('a', 3)\n"][k].replace("\\0", "\0").as_str();
                fail = Some(["reading a directory", "writing a directory", "missing directory", "empty path", "path with a null character", "text of the wrong type"][k]);
                break
            } else { prog += "print('step')\n"; say("step") }
        }
    }
    if fail.is_some() { prog += "print('after')\nwrite_text('a', 'after')\n" }
    let text = format!("// files {}\n// arguments {argv:?}\n{prog}", start.join(", "));
    if showing() { return skip("shown", text) }
    // (the program itself lies outside of the directory)
    let d2 = Scratch::new();
    let main = d2.0.join("main");
    std::fs::write(&main, &prog).unwrap();
    let mut args = vec![];
    if r.p(30) { args.push(os("-o")) }
    args.push(main.into_os_string());
    args.extend(argv.iter().map(|a| os(a)));
    let o = exec(&Call { args, cwd: &d.0, input: vec![], pieces: vec![], env: vec![] });
    c.count("processes observed", 1);
    let mut v = crashed(&o);
    if v.is_none() { v = match fail { Some(w) => { c.seen(w); if o.err.is_empty() { Some(format!("{w}: no error is reported")) } else { expect(&o, &out, &o.err.clone()) } } None => expect(&o, &out, b"") } }
    if v.is_none() {
        let mut found: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
        for sub in ["", "sub", "sub/deep", "é dir"] { for e in std::fs::read_dir(d.0.join(sub)).unwrap().flatten() { if e.path().is_file() { let k = e.path().strip_prefix(&d.0).unwrap().to_string_lossy().into_owned(); found.insert(k, std::fs::read(e.path()).unwrap_or_default()); } } }
        c.count("files compared", disk.len() as u64);
        if found != disk { for k in disk.keys().chain(found.keys()) { if disk.get(k) != found.get(k) { v = Some(format!("file {k:?}: expected {:?}, found {:?}", disk.get(k).map(|b| show(b)), found.get(k).map(|b| show(b)))); break } } }
    }
    done(v, text)
}

fn unhtml(s: &str, skip: &[&str]) -> Result<String, String> {
    let mut t = String::new();
    let mut depth = 0;
    let mut rest = s;
    while let Some(k) = rest.find(|c| c == '<' || c == '&') {
        t += &rest[..k];
        rest = &rest[k..];
        if let Some(x) = rest.strip_prefix("</span>") { depth -= 1; if depth < 0 { return Err("unbalanced </span>".into()) } rest = x }
        else if let Some(x) = rest.strip_prefix("<span class=\"cordy-") { let e = x.find("\">").ok_or("broken span")?; if skip.contains(&&x[..e]) { return Err(format!("span of omitted class {}", &x[..e])) } if !["keyword", "constant", "native", "type", "number", "string", "syntax", "comment"].contains(&&x[..e]) { return Err(format!("span of class {}", &x[..e])) } depth += 1; rest = &x[e + 2..] }
        else if let Some((e, ch)) = [("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#39;", '\''), ("&amp;", '&')].iter().find(|x| rest.starts_with(x.0)) { t.push(*ch); rest = &rest[e.len()..] }
        else { return Err(format!("unescaped {:?}", rest.chars().take(12).collect::<String>())) }
    }
    if depth != 0 { return Err("unbalanced <span>".into()) }
    Ok(t + rest)
}

/// options, bad invocations, formatting and disassembly
pub fn options(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let d = Scratch::new();
    std::fs::create_dir(d.0.join("dir")).unwrap();
    let body = match r.n(6) { 0 => String::new(), 1 => " \n\t\r\n// nothing\n".into(), 2 => { let n = r.n(3); crate::corpus::mutant(&mut r, n, false) } 3 => crate::wild::Wild::new(&mut r, "C17").program(), _ => { let mut w = weights("C06"); w.budget = 10; crate::gen::G::new(&mut r, w).program() } };
    if ["monitor", "env", "write_text", "read_text", "native"].iter().any(|w| body.contains(w)) { return skip("asks for the state of the machine", body) }
    std::fs::write(d.0.join("main"), &body).unwrap();
    std::fs::write(d.0.join("bad"), [b'p', b'r', 0xff, 0xfe]).unwrap();
    std::fs::write(d.0.join("ok"), "print(1)\nprint(argv())\n").unwrap();
    let mut args: Vec<OsString> = vec![];
    #[derive(PartialEq)]
    enum K { Err, Help, Version, Dis(bool, bool), Fmt(bool, Vec<&'static str>), Ok(String) }
    let strs = |v: &[&str]| v.iter().map(|s| os(s)).collect::<Vec<_>>();
    let k = match r.n(17) {
        0 => { args = strs(&[*r.pick(&["-h", "--help"])]); if r.p(40) { args.extend(strs(&["main", "x"])) } K::Help }
        1 => { args = strs(&[*r.pick(&["-v", "--version"])]); if r.p(40) { args.extend(strs(&["none"])) } K::Version }
        2 => { args = strs(&[*r.pick(&["none", "dir/none", "", "dir", "bad", "--frob", "-x", "none\n"])]); K::Err }
        3 => { args = vec![OsString::from_vec(vec![b'm', 0xff])]; K::Err }
        4 => { args = strs(&["ok"]); args.push(OsString::from_vec(vec![b'm', 0xff])); K::Err }
        5 => { let m = ["-h", "--help", "-v", "--version", "-d", "--disassembly", "-f", "--format"]; let (a, b) = (r.n(8), r.n(8)); args = strs(&[m[a], m[b], "ok"]); K::Err }
        6 => { args = strs(&["--format-no=frob", "ok"]); if r.p(50) { args = strs(&["-f", "--format-no=keyword,,string", "ok"]) } K::Err }
        7 => { args = match r.n(4) { 0 => strs(&["-l"]), 1 => strs(&["--link", "ab", "ok"]), 2 => strs(&["-l", "a=b", "--link", "a=c", "ok"]), _ => strs(&["-o", "--link"]) }; K::Err }
        8 | 9 => { args = vec![]; if r.p(30) { args.push(os("-o")) } args.extend(match r.n(4) { 0 => strs(&["-l", "a=b"]), 1 => strs(&["--link", "a=none.so", "-l", "b=="]), _ => vec![] }); args.push(os("ok")); let a: Vec<&str> = ["-d", "x y", "-h", "", "--link", "é"][..r.n(6)].to_vec(); args.extend(strs(&a)); K::Ok(format!("1\n[{}]\n", a.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(", "))) }
        10..=12 => { let n = r.p(50); let o = r.p(40); args = strs(&[*r.pick(&["-d", "--disassembly"])]); if n { args.push(os("--no-line-numbers")) } if o { args.insert(r.n(args.len() + 1), os("-o")) } args.push(os("main")); if r.p(20) { args.push(os("arg")) } K::Dis(!n, o) }
        _ => {
            let style = r.p(50);
            args = strs(&[*r.pick(&["-f", "--format"])]);
            if !style { args.push(os("--format-no-style")) }
            let mut no = vec![];
            if r.p(50) { for x in ["keyword", "constant", "native", "type", "number", "string", "syntax", "comment"] { if r.p(30) { no.push(x) } } if !no.is_empty() { args.push(os(&format!("--format-no={}", no.join(",")))) } }
            args.push(os("main"));
            K::Fmt(style, no)
        }
    };
    let text = format!("// arguments {args:?}\n{body}");
    if showing() { return skip("shown", text) }
    let o = exec(&Call { args, cwd: &d.0, input: vec![], pieces: vec![], env: vec![] });
    c.count("processes observed", 1);
    if let Some(e) = crashed(&o) { return done(Some(e), text) }
    let (out, err) = (String::from_utf8_lossy(&o.out).into_owned(), String::from_utf8_lossy(&o.err).into_owned());
    let v = match k {
        K::Err => { c.seen("rejected invocation"); if err.trim().is_empty() { Some("the invocation is not reported as an error".into()) } else if !out.is_empty() { Some(format!("an invalid invocation prints {out:?}")) } else { None } }
        K::Help => { c.seen("help"); if !out.contains("Options") || !out.contains("--help") || !err.is_empty() { Some(format!("no help: {out:?} {err:?}")) } else { None } }
        K::Version => { c.seen("version"); if out.trim() != format!("Cordy v{}", cordy_sys::SYS_VERSION) || !err.is_empty() { Some(format!("no version: {out:?} {err:?}")) } else { None } }
        K::Ok(want) => { c.seen("program with options"); expect(&o, want.as_bytes(), b"") }
        K::Dis(n, opt) => {
            c.seen("disassembly");
            let b = body.clone();
            match guard(move || { let v = cordy_sys::SourceView::new("main".into(), b); cordy_sys::compiler::compile(opt, &v).map(|x| x.disassemble(&v, n)) }) {
                Err(e) => Some(format!("compiling panicked: {e:?}")),
                Ok(Ok(l)) => expect(&o, l.iter().map(|x| format!("{x}\n")).collect::<String>().as_bytes(), b""),
                Ok(Err(e)) => expect(&o, b"", format!("{}\n", e.join("\n")).as_bytes()),
            }
        }
        K::Fmt(style, no) => {
            c.seen("formatted code");
            if !err.is_empty() { Some(format!("formatting fails: {err}")) }
            else if style != out.contains("<style>") { Some("the style is not as requested".into()) }
            else {
                match out.find("<code class=\"cordy\"><pre>").and_then(|a| out.rfind("</pre></code>").map(|b| &out[a + 25..b])) {
                    None => Some(format!("no code in {out:?}")),
                    Some(x) => match unhtml(x, &no) {
                        Err(e) => Some(format!("{e} in {x:?}")),
                        Ok(t) => { let want = body.replace('\r', "").replace('\t', "    "); c.count("characters of formatted code compared", want.len() as u64); if t != want { Some(format!("the formatted code shows other text\nexpected {want:?}\nobserved {t:?}")) } else { None } }
                    }
                }
            }
        }
    };
    done(v, text)
}

/// the prompt, reading its entries from a pipe, against the same session in process
pub fn prompt(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let mut lines: Vec<String> = vec![];
    let free = r.p(50);
    if free { let pick = ["C01", "C02", "C03", "C04", "C05", "C11"]; let mut w = weights(pick[r.n(pick.len())]); w.errors += 8; w.layout = 0; w.budget = 8 + r.n(14) as i32; let t = crate::gen::G::new(&mut r, w).program(); lines.extend(crate::session::split(&t).iter().flat_map(|e| e.lines().map(|l| l.to_string()).collect::<Vec<_>>())) }
    for k in 0..r.n(4) { for e in crate::session::extra(&mut r, k) { lines.extend(e.lines().map(|l| l.to_string())) } }
    for _ in 0..r.n(3) { let k = r.n(lines.len() + 1); let names = vec!["a".to_string()]; let b = match r.n(6) { 0 => String::new(), 1 => "exit".into(), 2 => "argv() . print".into(), 3 => format!("print({})", literal(&phrase(&mut r, 20))), _ => crate::session::bad(&mut r, &names) }; lines.insert(k, b) }
    lines.retain(|l| !["monitor", "env", "write_text", "read_text", "native", "read(", "read_line"].iter().any(|w| l.contains(w)) && !l.contains('\r'));
    let crlf = r.p(15);
    let last = r.p(80);
    let text = lines.join("\n");
    if showing() { return skip("shown", text) }
    let d = Scratch::new();
    let end = if crlf { "\r\n" } else { "\n" };
    let mut input = lines.join(end);
    if last && !lines.is_empty() { input += end }
    let pieces = if r.p(20) { (0..30).map(|_| 1 + r.n(30)).collect() } else { vec![] };
    let o = exec_within(&Call { args: vec![], cwd: &d.0, input: input.into_bytes(), pieces, env: vec![(os("HOME"), d.0.clone().into_os_string()), (os("TERM"), os("xterm"))] }, if free { 5 } else { 60 });
    if free && (o.late || o.out.len() > 1 << 20 || o.code == Some(1006)) { return skip("step limit", text) } // the entries of a rearranged program may not end
    use cordy_sys::repl::{ReadResult, Repl, RunResult};
    let sink = Sink::new();
    let w = sink.clone();
    let ls = lines.clone();
    let res = guard(move || {
        crate::rf::value::begin();
        let mut p = Repl::new(w, cordy_sys::util::Noop);
        for l in ls { if !matches!(p.run(ReadResult::Ok(l)), RunResult::Ok) { return } }
        let _ = p.run(ReadResult::Exit);
    });
    if res.is_err() { return skip("judged by C20", text) }
    let want = format!("Welcome to Cordy v{}! (exit with 'exit' or Ctrl-C)\n{}", cordy_sys::SYS_VERSION, String::from_utf8_lossy(&sink.take()));
    c.count("processes observed", 1);
    c.count("prompt entries sent", lines.len() as u64);
    done(expect(&o, want.as_bytes(), b""), text)
}
#[allow(dead_code)] fn bytes(s: &OsStr) -> &[u8] { s.as_bytes() }
