//! Independent lexer for the reference model.
#[derive(Clone, Debug, PartialEq)]
pub enum T { Id(String), Kw(&'static str), Int(i64), Cplx(i64), Str(String), Op(&'static str), Nl, Eof }

#[derive(Clone, Debug)]
pub struct Tok { pub t: T, pub line: usize, pub pos: usize, pub end: usize }

const KW: [&str; 25] = ["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "break", "continue", "do", "true", "false", "nil", "struct", "exit", "assert", "module", "self", "native"];
const KW2: [&str; 2] = ["and", "or"];
const OPS: &[&str] = &[
    "**=", "<<=", ">>=", "...", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ".=", "==", "!=", "<=", ">=", "<<", ">>", "**", "->",
    "+", "-", "*", "/", "%", "&", "|", "^", ".", "=", "!", "<", ">", "(", ")", "[", "]", "{", "}", ",", ":", ";", "@", "?", "_",
];

/// `Err` means the text has a lexical error (the compiler must reject it).
pub fn lex(text: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut line) = (0, 1);
    let mut out = Vec::new();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    'outer: while i < c.len() {
        let start = i;
        let x = c[i];
        if x == '\n' { out.push(Tok { t: T::Nl, line, pos: i, end: i + 1 }); line += 1; i += 1; continue }
        if x == ' ' || x == '\t' || x == '\r' { i += 1; continue }
        if x == '/' && at(i + 1) == '/' { while i < c.len() && c[i] != '\n' { i += 1 } continue }
        if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') { if c[i] == '\n' { out.push(Tok { t: T::Nl, line, pos: i, end: i + 1 }); line += 1 } i += 1 } if i >= c.len() { return Err("unterminated block comment".into()) }
            i += 2;
            continue
        }
        if x.is_ascii_alphabetic() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
            let w: String = c[start..i].iter().collect();
            let t = match KW.iter().chain(KW2.iter()).find(|k| **k == w) { Some(k) => T::Kw(k), None => T::Id(w) };
            out.push(Tok { t, line, pos: start, end: i });
            continue
        }
        if x.is_ascii_digit() {
            let radix = if x == '0' { match at(i + 1) { 'x' => 16, 'b' => 2, _ => 10 } } else { 10 };
            let mut d = String::new();
            if radix != 10 { i += 2 }
            if radix == 10 && x == '0' {
                d.push('0');
                i += 1;
                if (at(i).is_ascii_alphanumeric() || at(i) == '_') && at(i) != 'i' && at(i) != 'j' { return Err("invalid numeric prefix".into()) }
            } else {
                while i < c.len() && (c[i].is_digit(radix) || c[i] == '_') { if c[i] != '_' { d.push(c[i]) } i += 1 }
            }
            let v = i64::from_str_radix(&d, radix).map_err(|e| e.to_string())?;
            let t = if (at(i) == 'i' || at(i) == 'j') { i += 1; if v == 0 { T::Int(0) } else { T::Cplx(v) } } else { T::Int(v) };
            out.push(Tok { t, line, pos: start, end: i });
            continue
        }
        if x == '\'' || x == '"' {
            let l0 = line;
            let mut s = String::new();
            i += 1;
            loop {
                if i >= c.len() { return Err("unterminated string".into()) }
                let y = c[i];
                i += 1;
                match y {
                    y if y == x => break,
                    '\n' => { out.push(Tok { t: T::Nl, line, pos: i - 1, end: i }); line += 1; s.push('\n') }
                    '\r' => {}
                    '\\' => match at(i) {
                        '\'' => { s.push('\''); i += 1 } '"' => { s.push('"'); i += 1 } '\\' => { s.push('\\'); i += 1 }
                        'n' => { s.push('\n'); i += 1 } 'r' => { s.push('\r'); i += 1 } 't' => { s.push('\t'); i += 1 }
                        _ => s.push('\\')
                    },
                    y => s.push(y)
                }
            }
            let _ = l0;
            out.push(Tok { t: T::Str(s), line, pos: start, end: i });
            continue
        }
        for op in OPS {
            let o: Vec<char> = op.chars().collect();
            if c[i..].starts_with(&o) {
                i += o.len();
                out.push(Tok { t: T::Op(op), line, pos: start, end: i });
                continue 'outer
            }
        }
        return Err(format!("invalid character {x}"))
    }
    out.push(Tok { t: T::Eof, line, pos: i, end: i });
    Ok(out)
}
