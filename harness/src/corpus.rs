//! The programs of the repository's tests and documentation, and mutations of them.
use crate::rng::Rng;

pub fn seeds() -> &'static [&'static str] {
    thread_local! { static S: &'static [&'static str] = Box::leak(include_str!("../../corpus/seeds.txt").split('\x1e').collect::<Vec<_>>().into_boxed_slice()); }
    S.with(|s| *s)
}

/// Splits into tokens, keeping every character: words, numbers, strings, comments, white space and symbols.
pub fn tokens(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let s = i;
        let c = cs[i];
        i += 1;
        if c.is_alphanumeric() || c == '_' { while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 } }
        else if c == '\'' || c == '"' { while i < cs.len() && cs[i] != c { if cs[i] == '\\' { i += 1 } i += 1 } i = (i + 1).min(cs.len()) }
        else if c == '/' && cs.get(i) == Some(&'/') { while i < cs.len() && cs[i] != '\n' { i += 1 } }
        else if c == '/' && cs.get(i) == Some(&'*') { while i < cs.len() && !(cs[i] == '/' && cs[i - 1] == '*' && i > s + 2) { i += 1 } i = (i + 1).min(cs.len()) }
        else if c == ' ' || c == '\t' || c == '\r' { while i < cs.len() && matches!(cs[i], ' ' | '\t' | '\r') { i += 1 } }
        else {
            const OPS: &[&str] = &["**=", "<<=", ">>=", "...", "->", "==", "!=", "<=", ">=", "**", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ".="];
            for o in OPS { let n = o.chars().count(); if s + n <= cs.len() && cs[s..s + n].iter().collect::<String>() == *o { i = s + n; break } }
        }
        v.push(cs[s..i].iter().collect());
    }
    v
}

pub const WORDS: &[&str] = &["let", "fn", "return", "if", "elif", "else", "then", "loop", "for", "in", "is", "not", "break", "continue", "do", "while", "struct", "module", "self", "exit", "assert", "native", "nil", "true", "false", "and", "or", "min", "max", "print", "len", "map", "x", "y", "a", "_", "0", "1", "2", "-1", "10", "4611686018427387903", "0xff", "0b101", "1i", "'a'", "'long enough string'", "''", "\"é\"", "[]", "{}", "()", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "+", "-", "*", "/", "%", "**", "|", "&", "^", "<<", ">>", "=", "+=", ".=", "==", "!=", "<", "<=", ">", ">=", "!", "@", "?", "...", "->", "\n", "\\", "$", "#", "//", "/*", "*/", "'", "\"", "`", "~", "é", "\u{1f980}", "\t", "\r\n", "\u{feff}", "\0", "eval", "default", "memoize"];

/// One mutant: `n` random edits of the tokens of a seed
pub fn mutant(r: &mut Rng, n: usize, wild: bool) -> String {
    let all: &[&str] = seeds();
    let mut t = tokens(*r.pick::<&str>(all));
    for _ in 0..n { edit(r, &mut t, wild) }
    t.concat()
}
fn word(x: &str) -> bool { !x.trim().is_empty() && !x.starts_with("//") && !x.starts_with("/*") }
pub fn edit(r: &mut Rng, t: &mut Vec<String>, wild: bool) {
    let all: &[&str] = seeds();
    let solid: Vec<usize> = (0..t.len()).filter(|i| word(&t[*i])).collect();
    if solid.is_empty() { t.push(r.pick(WORDS).to_string()); return }
    let i = *r.pick(&solid);
    let j = *r.pick(&solid);
    match r.n(if wild { 16 } else { 8 }) {
        // same class replacement
        0..=3 => {
            let c = t[i].chars().next().unwrap();
            let same: Vec<String> = solid.iter().map(|k| t[*k].clone()).filter(|x| { let d = x.chars().next().unwrap(); x != &t[i] && (c.is_ascii_digit() && d.is_ascii_digit() || (c.is_alphabetic() || c == '_') && (d.is_alphabetic() || d == '_') || matches!(c, '\'' | '"') && matches!(d, '\'' | '"')) }).collect();
            t[i] = if c.is_ascii_digit() { if r.p(50) || same.is_empty() { r.pick(&["0", "1", "2", "3", "7", "10", "63", "-1", "nil", "true", "'x'", "[1, 2]", "2i", "100"]).to_string() } else { r.pick(&same).clone() } }
                else if "+-*/%&|^<>=!".contains(c) && !matches!(t[i].as_str(), "->" | "=" | "!") { if t[i].ends_with('=') && !matches!(t[i].as_str(), "==" | "!=" | "<=" | ">=") { r.pick(&["+=", "-=", "*=", "|=", "^=", "<<=", ".="]).to_string() } else { r.pick(&["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "<", "<=", "==", "!=", ">", ">="]).to_string() } }
                else if c == '\'' || c == '"' { r.pick(&["''", "'a'", "'abc'", "'hello world'", "'é'", "3", "[1]"]).to_string() }
                else if !same.is_empty() { r.pick(&same).clone() } else { r.pick(WORDS).to_string() };
        }
        4 => t.swap(i, j),
        5 => { let x = t[j].clone(); t.insert(i, x) }
        6 => { t.remove(i); }
        // a piece of another seed
        7 => { let o = tokens(*r.pick::<&str>(all)); let a = r.n(o.len().max(1)); let b = (a + 1 + r.n(8)).min(o.len()); let at = i; for (k, x) in o[a.min(b)..b].iter().enumerate() { t.insert(at + k, x.clone()) } }
        8 => { let w = r.pick(WORDS).to_string(); t.insert(i, w) }
        9 => { t[i] = r.pick(WORDS).to_string() }
        10 => { let k = (i + 1 + r.n(6)).min(t.len()); t.drain(i..k); }
        11 => { t.truncate(i + 1) }
        12 => { t.drain(..i); }
        13 => { // one character
            let mut c: Vec<char> = t[i].chars().collect();
            let k = r.n(c.len() + 1);
            let x = match r.n(5) { 0 => char::from_u32(r.n(128) as u32).unwrap(), 1 => *r.pick(&['\'', '"', '\\', '\n', '/', '*', '{', '(', '[', '0', 'é', '\u{2028}', '🦀', '\u{301}']), _ => char::from_u32(32 + r.n(95) as u32).unwrap() };
            if r.p(60) || c.is_empty() { c.insert(k, x) } else { let n = c.len(); if r.p(50) { c[k.min(n - 1)] = x } else { c.remove(k.min(n - 1)); } }
            t[i] = c.into_iter().collect();
        }
        14 => { let k = (i + 1 + r.n(10)).min(t.len()); let piece: Vec<String> = t[i..k].to_vec(); let m = 1 + r.n(4); for _ in 0..m { for (q, x) in piece.iter().enumerate() { t.insert(k + q, x.clone()) } } }
        _ => { let n = 1 + r.n(12); let x = r.pick(&["(", "[", "{", "- ", "!", "not ", "fn() ", "fn(x) ", "if true then ", "x[", "f(", ". f ", "let ", "1 + ", "'", "/*"]).repeat(n); t.insert(i, x) }
    }
}
