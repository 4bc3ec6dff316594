//! C17: the compiler, highlighter and disassembler on any text; literals, comments and layout.
use cordy_sys::compiler::{self, ScanTokenType};
use cordy_sys::syntax::{self, BlockingFormatter, Formatter};
use cordy_sys::SourceView;

use crate::corpus::{self, tokens};
use crate::drive::{self, guard, quote_of, End};
use crate::props::{showing, weights};
use crate::rng::{hash, Rng};
use crate::sup::*;

fn view(t: &str) -> SourceView { SourceView::new(String::from("main"), String::from(t)) }

#[derive(PartialEq)]
enum C { Ok(Vec<String>), Err(Vec<String>) }

fn compile(t: &str, opt: bool) -> Result<C, String> {
    guard(|| {
        let v = view(t);
        match compiler::compile(opt, &v) { Ok(c) => { let a = c.disassemble(&v, true); let _ = c.disassemble(&v, false); C::Ok(a) } Err(e) => C::Err(e) }
    }).map_err(|e| format!("compiling (optimisation {opt}) panicked: {e:?}"))
}

/// each error: a message, one line of the source, and its text with an underline
fn bad_error(e: &str, t: &str) -> Option<String> {
    let n = t.split('\n').count();
    if e.starts_with('\n') || e.is_empty() { return Some("it has no message".into()) }
    // a message may itself quote text that spans lines: the location is the last one that is followed by a quotation
    let Some(k) = e.rfind("\n  at: line ") else { return Some("it names no line".into()) };
    let rest = &e[k + 12..];
    let Some(p) = rest.find(" (main)\n\n") else { return Some("it names no file or quotes nothing".into()) };
    let (a, b) = match rest[..p].split_once(" - ") { Some((a, b)) => (a, b), None => (&rest[..p], &rest[..p]) };
    let (Ok(a), Ok(b)) = (a.parse::<usize>(), b.parse::<usize>()) else { return Some("the line is no number".into()) };
    if a < 1 || b < a || b > n { return Some(format!("it names line {a} - {b} of {n}")) }
    quote_of(&e[k..], t, a, b).err()
}

#[derive(Default)]
struct Log { text: String, open: Option<(ScanTokenType, String)>, spans: Vec<(ScanTokenType, String)>, bad: Option<String>, blank: bool }
impl Formatter for &mut Log {
    fn begin(&mut self, ty: ScanTokenType) { if self.open.is_some() { self.bad = Some("nested highlights".into()) } self.open = Some((ty, String::new())) }
    fn end(&mut self, ty: ScanTokenType) { match self.open.take() { Some((t, s)) if t == ty => self.spans.push((t, s)), _ => self.bad = Some("highlight ended that did not begin".into()) } }
    fn push(&mut self, c: char) { self.text.push(c); match &mut self.open { Some((_, s)) => s.push(c), None => if !c.is_whitespace() { self.blank = true } } }
}

const KEYWORDS: &[&str] = &["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "break", "continue", "do", "struct", "exit", "assert", "module", "native"];
const CONSTANTS: &[&str] = &["true", "false", "nil", "and", "or", "not", "is", "in", "self"];

/// The class of a span must be possible for its text
fn bad_span(ty: ScanTokenType, s: &str) -> bool {
    let c = s.chars().next().unwrap_or(' ');
    match ty {
        ScanTokenType::Keyword => !KEYWORDS.contains(&s),
        ScanTokenType::Constant => !CONSTANTS.contains(&s),
        ScanTokenType::Number => !c.is_ascii_digit() || s.chars().any(|c| !c.is_ascii_alphanumeric() && c != '_'),
        ScanTokenType::String => c != '\'' && c != '"',
        ScanTokenType::Native | ScanTokenType::Type => !c.is_ascii_alphabetic() || s.chars().any(|c| !c.is_ascii_alphanumeric() && c != '_'),
        ScanTokenType::Syntax => s.contains(char::is_whitespace) || KEYWORDS.contains(&s) || CONSTANTS.contains(&s) || c.is_ascii_digit() || c == '\'' || c == '"',
        _ => false,
    }
}

fn highlight(t: &str, cut: usize, whole: bool) -> Option<String> {
    let k = t.char_indices().nth(cut).map_or(t.len(), |x| x.0);
    let (prefix, input) = (t[..k].to_string(), t[k..].to_string());
    let r = guard(|| {
        let mut a = Log::default();
        { let mut f = &mut a; syntax::scan(input.clone(), &prefix, &mut f); }
        let mut b = Log::default();
        { let mut f = BlockingFormatter::new(&mut b); syntax::scan(input.clone(), &prefix, &mut f); }
        (a, b)
    });
    let (a, b) = match r { Ok(x) => x, Err(e) => return Some(format!("highlighting panicked: {e:?}")) };
    for (name, l) in [("", &a), ("blocking ", &b)] {
        if l.text != input { return Some(format!("{name}highlighting changes the text: {:?}", l.text)) }
        if let Some(e) = &l.bad { return Some(format!("{name}highlighting: {e}")) }
        if l.open.is_some() { return Some(format!("{name}highlighting does not end a highlight")) }
    }
    if a.bad.is_none() && b.spans.iter().any(|s| s.1.contains('\n')) { return Some("the blocking highlighter spans a line end".into()) }
    if whole {
        if let Some((ty, s)) = a.spans.iter().find(|(ty, s)| bad_span(*ty, s)) { return Some(format!("{s:?} is highlighted as {ty:?}")) }
        if a.blank { return Some("text without a highlight".into()) }
    }
    None
}

fn spans(t: &str) -> Result<Vec<(usize, usize, ScanTokenType)>, String> {
    let r = guard(|| compiler::scan(&view(t)).into_iter().map(|(l, ty)| (l.start(), if l.is_empty() { l.start() } else { l.end() + 1 }, ty)).collect::<Vec<_>>());
    r.map_err(|e| format!("scanning panicked: {e:?}"))
}

pub fn examine(c: &mut Ctx, t: &str) -> Option<String> {
    let (a, b) = match (compile(t, false), compile(t, false)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return Some(e) };
    if a != b { return Some("compiling the same text twice gives different results".into()) }
    let o = match compile(t, true) { Ok(o) => o, Err(e) => return Some(e) };
    match (&a, &o) {
        (C::Ok(_), C::Err(e)) if !e.iter().all(|e| e.starts_with("TypeError: ") || e.starts_with("ValueError: ")) => return Some(format!("accepted without optimisation, with it: {e:?}")),
        _ => {}
    }
    for e in [&a, &o] { if let C::Err(es) = e {
        if es.is_empty() { return Some("rejected without an error".into()) }
        for e in es { if let Some(w) = bad_error(e, t) { return Some(format!("the error report is malformed: {w}\n{e}")) } c.count("compile errors examined", 1); c.seen(&drive_kind(e)) }
    } }
    if let C::Ok(d) = &a { c.count("texts accepted", 1); c.count("lines disassembled", d.len() as u64) } else { c.count("texts rejected", 1) }
    let n = t.chars().count();
    let s = match spans(t) { Ok(s) => s, Err(e) => return Some(e) };
    let mut last = 0;
    for (x, y, ty) in &s {
        if *x < last || y < x || *y > n { return Some(format!("token {x}..{y} ({ty:?}) overlaps, or lies outside of the text of {n} characters")) }
        if *ty != ScanTokenType::Blank { last = *y }
    }
    c.count("tokens scanned", s.len() as u64);
    // invalid characters yield no token, and would be shown like comments
    let scanned = !matches!(&a, C::Err(e) if e.iter().any(|e| e.contains("character") || e.contains("umeric") || e.contains("nterminated") || e.contains("number")));
    if let Some(e) = highlight(t, 0, scanned) { return Some(e) }
    let cut = c.r.n(n + 1);
    if let Some(e) = highlight(t, cut, false) { return Some(format!("with the first {cut} characters as prefix: {e}")) }
    c.count("highlightings compared", 4);
    // a line that continues earlier ones is highlighted like the same line of the whole text
    let ends: Vec<usize> = t.chars().enumerate().filter(|(i, ch)| *ch == '\n' && !s.iter().any(|(x, y, ty)| *ty != ScanTokenType::Blank && x <= i && y > i)).map(|x| x.0 + 1).collect();
    if scanned && !ends.is_empty() {
        let cut = *c.r.pick(&ends);
        let at = t.char_indices().nth(cut).map_or(t.len(), |x| x.0);
        let mut a = Log::default();
        { let mut f = &mut a; syntax::scan(t[at..].to_string(), &t[..at].to_string(), &mut f); }
        let ch: Vec<char> = t.chars().collect();
        let want: Vec<(ScanTokenType, String)> = s.iter().filter(|(x, y, ty)| *x >= cut && *ty != ScanTokenType::Blank && y > x).map(|(x, y, ty)| (*ty, ch[*x..*y].iter().collect())).collect();
        let got: Vec<(ScanTokenType, String)> = a.spans.into_iter().filter(|x| x.0 != ScanTokenType::Comment).collect();
        if want != got { return Some(format!("the lines after character {cut} are highlighted differently when continued: {want:?} and {got:?}")) }
        c.count("continued highlightings compared", 1);
    }
    None
}
fn drive_kind(e: &str) -> String { crate::props::kind_of(e.lines().next().unwrap_or("")).replace("error: ", "compile error: ") }

fn soup(r: &mut Rng) -> String {
    let n = r.n(40);
    match r.n(4) {
        0 => (0..n).map(|_| if r.p(80) { char::from_u32(32 + r.n(95) as u32).unwrap() } else { *r.pick(&['\n', '\r', '\t', '\0', 'é', '🦀', '\u{301}', '\u{2028}', '\u{feff}', '\u{7f}', '\u{a0}', '\'', '"', '\\']) }).collect(),
        1 => (0..n).map(|_| *r.pick(corpus::WORDS)).collect::<Vec<_>>().join(if r.p(50) { " " } else { "" }),
        2 => { let x = r.pick(&["/", "*", "'", "\"", "\\", "\n", " ", "a", "//", "/*", "*/", "\r\n", "0x", "0", ".", "..", "-", "1i"]).to_string(); (0..n).map(|_| if r.p(40) { x.clone() } else { r.pick(&["/", "*", "'", "\"", "\\", "\n", " ", "a", "0", ".", "-"]).to_string() }).collect() }
        _ => { let o = *r.pick(&["(", "[", "{", "fn(", "fn() {", "if x {", "loop {", "struct S {", "module M {", "fn f(a", "let x,", "for x in", "x[", "x(", "x->", "- ", "!", "not ", "1 +", "if true then ", "1, ", "{1: ", "fn f() -> ", "x = ", "x . ", "*", "..."]); let k = 1 + r.n(60); let mut s = o.repeat(k); if r.p(60) { s.push_str(&r.pick(&[")", "]", "}", "1", " x", "}\n", "1)"]).repeat(r.n(k + 2))) } s }
    }
}

pub fn any_text(r: &mut Rng) -> String {
    match r.n(20) {
        0..=1 => soup(r),
        2..=13 => { let n = r.n(5); let mut t = corpus::mutant(r, n, true); if r.p(10) { t = t.replace('\n', "\r\n") } else if r.p(4) { t = t.replace('\n', "\r") } t }
        14..=16 => { let n = 1 + r.n(4); let mut t = tokens(&{ let mut w = weights(*r.pick(&["C01", "C02", "C03", "C04", "C05", "C06"])); w.budget = 10; crate::gen::G::new(r, w).program() }); for _ in 0..n { corpus::edit(r, &mut t, true) } t.concat() }
        17 => { // two seeds glued at a random character
            let s = corpus::seeds();
            let (a, b) = (r.pick::<&str>(s).chars().collect::<Vec<_>>(), r.pick::<&str>(s).chars().collect::<Vec<_>>());
            let (i, j) = (r.n(a.len() + 1), r.n(b.len() + 1));
            a[..i].iter().chain(b[j..].iter()).collect()
        }
        18 => { let s = corpus::seeds(); let a = r.pick::<&str>(s).chars().collect::<Vec<_>>(); let i = r.n(a.len() + 1); a[..i].iter().collect() }
        _ => { let s = corpus::seeds(); let n = 1 + r.n(3); (0..n).map(|_| r.pick::<&str>(s).to_string()).collect::<Vec<_>>().join(if r.p(50) { "\n" } else { " " }) }
    }
}

pub fn texts(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let t = any_text(&mut r);
    c.r = r;
    let h = hash(&t);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text: t } }
    let verdict = match examine(c, &t) { Some(e) => Verdict::Differ(e), None => Verdict::Agree };
    CaseOut { verdict, hash: h, nontrivial: t.trim().len() > 2, text: t }
}

/// The text as the body of a function entered line by line: the session must take it exactly when the compiler takes it as a whole
pub fn entries(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let body = if r.p(40) { let mut w = weights(*r.pick(&["C01", "C02", "C03", "C04", "C05", "C06"])); w.budget = 10; crate::gen::G::new(&mut r, w).program() } else { any_text(&mut r) };
    let body = body.replace('\r', "");
    let body = if r.p(50) { let q = 2 + r.n(20) as u32; let mut o = String::new(); for ch in body.chars() { o.push(ch); if "([{=+/".contains(ch) && r.p(q) { o.push('\n') } } o } else { body };
    let t = format!("fn zz() {{\n{}\n}}", body.trim_end());
    let h = hash(&t);
    let out = |v: Verdict| CaseOut { verdict: v, hash: h, nontrivial: true, text: t.clone() };
    if showing() { return out(Verdict::Skip("shown")) }
    let mut depth = 0;
    let ts = tokens(&t);
    for (i, x) in ts.iter().enumerate() { match x.as_str() { "{" => depth += 1, "}" => depth -= 1, _ => {} } if depth < 1 && i > 5 && i + 1 < ts.len() { return out(Verdict::Skip("the function ends early")) } }
    let whole = match compile(&t, false) { Ok(x) => x, Err(e) => return out(Verdict::Differ(e)) };
    let sink = drive::Sink(std::rc::Rc::new(std::cell::RefCell::new(vec![])));
    let mut repl = cordy_sys::repl::Repl::new(sink.clone(), cordy_sys::util::Noop);
    let mut early = None;
    let lines: Vec<&str> = t.split('\n').collect();
    for (i, l) in lines.iter().enumerate() {
        if let Err(e) = guard(|| { repl.run(cordy_sys::repl::ReadResult::Ok(l.to_string())); }) { return out(Verdict::Differ(format!("line {} of the entry: {e:?}", i + 1))) }
        if repl.prompt() == ">>> " { if i + 1 < lines.len() { early = Some(i); } break }
    }
    let shown = String::from_utf8_lossy(&sink.0.borrow()).into_owned();
    let done = repl.prompt() == ">>> ";
    match (&whole, done, early) {
        (C::Ok(_), true, None) if shown.is_empty() => c.count("functions entered line by line", 1),
        (C::Ok(_), _, _) => return out(Verdict::Differ(format!("the whole text compiles; entered line by line (complete {done}, ended at {early:?}) it shows {shown:?}"))),
        (C::Err(_), true, _) if shown.contains("\n  at: line ") => c.count("entries rejected", 1),
        (C::Err(_), false, _) => c.count("entries still incomplete", 1),
        (C::Err(e), _, _) => return out(Verdict::Differ(format!("the whole text is rejected: {e:?}; entered line by line it shows {shown:?}"))),
    }
    if done {
        let before = sink.0.borrow().len();
        if let Err(e) = guard(|| { repl.run(cordy_sys::repl::ReadResult::Ok("print(40 + 2) ;".into())); }) { return out(Verdict::Differ(format!("the entry after it: {e:?}"))) }
        let got = String::from_utf8_lossy(&sink.0.borrow()[before..]).into_owned();
        if got != "42\n" { return out(Verdict::Differ(format!("the entry after it shows {got:?}"))) }
    }
    out(Verdict::Agree)
}

/// White space and comments that may stand between any two tokens
fn gap(r: &mut Rng) -> String {
    let n = r.n(3);
    (0..=n).map(|_| match r.n(9) { 0..=3 => " ".into(), 4 => "\t".into(), 5 => "/* a 'b' // c */".into(), 6 => "/**/".to_string(), 7 => "/* * / é🦀 */".into(), _ => "  ".into() }).collect()
}
fn eol(r: &mut Rng, cr: bool) -> String {
    let c = match r.n(8) { 0 => " // don't, it's \"over\"", 1 => " //", 2 => "  ", 3 => " /* x */", 4 => " // /* é */ 🦀", _ => "" };
    format!("{c}{}", if cr { "\r\n" } else { "\n" })
}

/// Literals: the generator knows the value, and writes it down in one of the ways the language offers
pub fn literals(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let (mut t, mut want) = (String::new(), String::new());
    let cr = r.p(25);
    let n = 1 + r.n(8);
    for _ in 0..n {
        for _ in 0..r.n(2) { t.push_str(&eol(&mut r, cr)) }
        let (lit, shown) = literal(&mut r);
        match r.n(9) {
            0 => { t.push_str(&format!("print({}{lit}{})", gap(&mut r), gap(&mut r))); want.push_str(&shown) }
            1 => { t.push_str(&format!("let v = {lit}{}print(v)", eol(&mut r, cr))); let k = t.rfind("let v").unwrap(); let nm = format!("v{k}"); t.replace_range(k + 4..k + 5, &nm); let k = t.rfind("print(v").unwrap(); t.replace_range(k + 6..k + 7, &nm); want.push_str(&shown) }
            2 => { let (l2, s2) = literal(&mut r); t.push_str(&format!("print({lit},{}{l2})", gap(&mut r))); want.push_str(&format!("{shown} {s2}")) }
            3 => { t.push_str(&format!("print([{lit}, 0][0])")); want.push_str(&shown) }
            4 => { t.push_str(&format!("print({{1: {lit}}}[1])")); want.push_str(&shown) }
            5 => { t.push_str(&format!("(fn(x) -> print(x))({lit}) ;{}", gap(&mut r))); want.push_str(&shown) }
            6 => { t.push_str(&format!("if true {{ print({lit}) }}")); want.push_str(&shown) }
            7 => { t.push_str(&format!("print(eval('{}'))", escape_all(&mut r, &lit))); want.push_str(&shown) }
            _ => { t.push_str(&format!("print{}({}{lit}{})", if r.p(20) { gap(&mut r) } else { String::new() }, if r.p(20) { eol(&mut r, cr) } else { String::new() }, if r.p(20) { eol(&mut r, cr) } else { String::new() })); want.push_str(&shown) }
        }
        want.push('\n');
        t.push_str(&eol(&mut r, cr));
    }
    if r.p(20) { t.truncate(t.trim_end().len()) }
    let h = hash(&t);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text: t } }
    if let Some(e) = examine(c, &t) { return CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: t } }
    let o = drive::vm(&t, c.idx % 2 == 1, b"", &[]);
    c.count("literals evaluated", n as u64);
    let verdict = if o.out == want && matches!(o.end, End::Ok | End::Exit) { Verdict::Agree } else { Verdict::Differ(format!("expected {want:?}\nobserved {:?} {:?}", o.out, o.end)) };
    CaseOut { verdict, hash: h, nontrivial: true, text: t }
}
/// a text written inside single quotes so that it denotes exactly `s`; carriage returns of the source are never part of a string
fn escape_all(r: &mut Rng, s: &str) -> String { quoted(r, s, '\'') }
fn quoted(r: &mut Rng, s: &str, q: char) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str(if r.p(70) { "\\n" } else { "\n" }),
            '\t' => o.push_str(if r.p(50) { "\\t" } else { "\t" }),
            '\r' => o.push_str("\\r"),
            '\'' | '"' => { if ch == q || r.p(30) { o.push('\\') } o.push(ch) }
            ch => o.push(ch),
        }
    }
    o
}
fn digits(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    if s == "0" { return s.into() }
    for (i, ch) in s.chars().enumerate() { if i > 0 && r.p(12) { o.push_str(if r.p(80) { "_" } else { "__" }) } o.push(if r.p(30) { ch.to_ascii_uppercase() } else { ch }) }
    if r.p(6) { o.push('_') }
    o
}
fn literal(r: &mut Rng) -> (String, String) {
    match r.n(14) {
        0..=5 => {
            let n = *r.pick(&[0usize, 1, 2, 5, 6, 7, 8, 9, 12, 30]);
            let s: String = (0..n).map(|_| match r.n(12) { 0 => '\'', 1 => '"', 2 => '\\', 3 => '\n', 4 => '\t', 5 => *r.pick(&['é', '🦀', '\u{301}', '日']), 6 => *r.pick(&['/', '*', '#', '$', '%', '{', ';', '`']), 7 => *r.pick(&['n', 't', 'r', 'x', '0']), 8 => '\r', _ => *r.pick(&['a', 'b', ' ', 'z', 'Q', '7']) }).collect();
            let q = if r.p(50) { '\'' } else { '"' };
            (format!("{q}{}{q}", quoted(r, &s, q)), s)
        }
        // a backslash before any other character stands for itself
        6 => { let x = *r.pick(&['a', 'b', 'x', 'u', '0', ' ', 'é', '{', 'N', '/']); (format!("'{x}\\{x}'"), format!("{x}\\{x}")) }
        7..=8 => { let v = number(r); let v = v.unsigned_abs() as i64; (digits(r, &v.to_string()).to_lowercase(), v.to_string()) }
        9 => { let v = number(r).unsigned_abs(); let z = "0".repeat(r.n(3)); let d = format!("{z}{v:x}"); (format!("0x{}", digits(r, &d)), v.to_string()) }
        10 => { let v = number(r).unsigned_abs(); let z = "0".repeat(r.n(3)); let d = format!("{z}{v:b}"); (format!("0b{}", digits(r, &d)), v.to_string()) }
        11 => { let v = number(r).unsigned_abs(); let d = digits(r, &v.to_string()); (format!("{d}{}", r.pick(&["i", "j"])), if v == 0 { "0".into() } else { format!("{v}i") }) }
        12 => { let w = *r.pick(&["nil", "true", "false"]); (w.into(), w.into()) }
        _ => { let v = number(r).unsigned_abs() as i64; (format!("(-{}{v})", if r.p(50) { gap(r) } else { String::new() }), (-v).to_string()) }
    }
}
fn number(r: &mut Rng) -> i64 { match r.n(6) { 0 => r.n(10) as i64, 1 => r.n(1000) as i64, 2 => (r.u64() >> 2) as i64 >> r.n(60), 3 => (1i64 << 62) - 1, 4 => (1i64 << r.n(62)) - r.n(2) as i64, _ => 0 } }

/// The same program in another layout
pub fn relayout(r: &mut Rng, t: &str) -> String {
    let cr = r.p(30);
    let rate = *r.pick(&[3u32, 10, 40]);
    let ts = tokens(t);
    let mut o = String::new();
    for (i, x) in ts.iter().enumerate() {
        if x == "\n" {
            if o.rsplit('\n').next().map_or(false, |l| !l.is_empty()) || r.p(30) { if r.p(rate) && !ts[..i].last().map_or(false, |p| p.starts_with("//")) { o.push_str(r.pick(&[" // note", "  ", " /* x */ ", "\t", " // 'quote", ";"]).trim_end_matches(';')) } }
            o.push_str(if cr { "\r\n" } else { "\n" });
            if r.p(rate) { let c = *r.pick(&["", "   ", "// a comment", "\t// it's", "/* block */", "/* two\nlines */"]); o.push_str(c); if !c.ends_with("*/") || true { o.push_str(if cr { "\r\n" } else { "\n" }) } }
        } else if x.trim().is_empty() {
            o.push_str(x);
            if r.p(rate) { o.push_str(&gap(r)) }
        } else {
            o.push_str(x);
            if x.ends_with('/') { o.push(' ') }
            let next = ts.get(i + 1).map(|s| s.as_str()).unwrap_or("\n");
            if !x.starts_with("//") && next != "\n" && r.p(rate) && !glued(x, next) { o.push_str(&gap(r)) }
        }
    }
    o
}
/// tokens that are one unit for the language although this tokenizer splits them
fn glued(a: &str, b: &str) -> bool { (a == "." && b == ".") || (a.ends_with('/') && (b.starts_with('/') || b.starts_with('*'))) }

pub fn layout(c: &mut Ctx, _id: &'static str) -> CaseOut {
    let mut r = c.r.clone();
    let t = if r.p(50) { let n = r.n(2); corpus::mutant(&mut r, n, false) } else { let mut w = weights(*r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C21"])); w.budget = 14; crate::gen::G::new(&mut r, w).program() };
    let u = relayout(&mut r, &t);
    let text = format!("{t}\n==== in another layout\n{u}");
    let h = hash(&text);
    let skip = |w| CaseOut { verdict: Verdict::Skip(w), hash: h, nontrivial: false, text: text.clone() };
    if showing() { return skip("shown") }
    if t.contains("monitor") || t.contains("read") || t.contains('`') { return skip("uses the environment") }
    if let drive::Ref::Limit = drive::reference(&t, b"", &[], 100_000) { return skip("step limit") }
    let rejected = matches!(drive::reference(&t, b"", &[], 100_000), drive::Ref::Rejected(_));
    let a = if rejected { None } else { Some(drive::vm(&t, false, b"", &[])) };
    let fail = |e: String| CaseOut { verdict: Verdict::Differ(e), hash: h, nontrivial: true, text: text.clone() };
    match a {
        Some(a) if !matches!(a.end, End::Compile(_) | End::OutputLimit | End::Panic(_)) => {
            let b = drive::vm(&u, false, b"", &[]);
            c.count("programs run in two layouts", 1);
            let same = a.out == b.out && match (&a.end, &b.end) { (End::Error { msg: x, .. }, End::Error { msg: y, .. }) => x == y || x.contains("eval"), (x, y) => x == y };
            if !same { return fail(format!("the layouts differ: {:?} {:?}\nin another layout: {:?} {:?}", a.out, a.end, b.out, b.end)) }
        }
        _ => {
            // rejected programs stay rejected, for the same reasons
            let (Ok(x), Ok(y)) = (compile(&t, false), compile(&u, false)) else { return fail("compiling panicked".into()) };
            let msgs = |c: &C| match c { C::Ok(_) => vec![], C::Err(e) => e.iter().map(|e| e.split("\n  at: line ").next().unwrap().to_string()).collect::<Vec<_>>() };
            c.count("texts compiled in two layouts", 1);
            if msgs(&x) != msgs(&y) && !t.contains("'") && !t.contains('"') { return fail(format!("the layouts are reported differently: {:?}\nin another layout: {:?}", msgs(&x), msgs(&y))) }
        }
    }
    CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: true, text }
}
