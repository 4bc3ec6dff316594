//! Directed programs: many uses of one family of operations on hostile values, written as templates.
//! A template such as `$n + $n` or `!insert $i $x $l` is filled with expressions or variables of the named kind.
use crate::rng::Rng;

pub struct D<'a> { pub r: &'a mut Rng, vars: Vec<(char, String)>, out: String, n: usize, pub wild: u32, pub vary: u32, last: String }

pub const STRS: &[&str] = &["", "a", "b", "ab", "ba", "abc", "abcdef", "abcdefg", "abcdefgh", "aaaa", "a a", " a ", "A", "aB", "Hello World", "0", "1", "-12", "007", "+3", "1.5", "3/4", "é", "日本語", "ßx", "ÀÉ", "🦀", "a🦀b", "éé", "  x\\ty ", "a\\nb", "a,b,,c", "one two  three", "x=1;y=2", "(a)", "[b]", "%", "100%", "\\\\", "#$^", "İ", "ﬀ", "nil", "zzzzzzzzzzzzzzzzzzzzzzzz", "the quick brown fox jumps over the lazy dog"];
const EDGE: &[&str] = &["0", "1", "-1", "2", "-2", "3", "-3", "7", "63", "64", "-64", "100", "4611686018427387903", "-4611686018427387903", "(-4611686018427387903 - 1)", "2305843009213693952", "-2305843009213693952", "4294967296", "-4294967296", "2147483647", "-2147483648", "1073741824", "3037000499", "3037000500", "0xff", "0b1011", "1000000007"];
const REGEX: &[&str] = &["a", "b", "ab", "a|b", "[a-c]", "[a-z]+", "(a)(b)", "(a)|(b)", "\\\\d+", "\\\\w+", "\\\\s", "\\\\s+", ",", " ", "x", ".", "..", "a+", "(?i)A", "^a", "b$", "(?<=a)b", "b(?=c)", "(.)\\\\1", "é", "[^a]", "o", "\\\\n", "(\\\\w)=(\\\\d)"];
const BADRE: &[&str] = &["(", "[", "*", "a{", "(?<", "\\\\", "(x+x+)+(?=y)\\\\1", ")"];

impl<'a> D<'a> {
    pub fn new(r: &'a mut Rng) -> D<'a> { D { r, vars: vec![], out: String::new(), n: 0, wild: 4, vary: 50, last: String::new() } }
    pub fn int(&mut self) -> String {
        match self.r.n(10) {
            0..=4 => self.r.range(-9, 9).to_string(),
            5 | 6 => self.r.pick(EDGE).to_string(),
            7 => { let k = self.r.range(1, 61); let s = if self.r.p(50) { 1 } else { -1 }; let d = self.r.range(-1, 1); (s * ((1i64 << k) + d)).to_string() }
            8 => self.r.range(-1000, 1000).to_string(),
            _ => { let k = self.r.range(0, 61); let b = self.r.range(-(1 << k), 1 << k); b.to_string() }
        }
    }
    pub fn small(&mut self) -> String { self.r.range(-6, 6).to_string() }
    pub fn string(&mut self) -> String {
        match self.r.n(8) {
            0 => { let n = self.r.n(12); let s: String = (0..n).map(|_| *self.r.pick(&['a', 'b', 'c', 'A', ' ', 'é', '🦀', '1', '.', ',', 'z'])).collect(); format!("'{s}'") }
            1 => format!("\"{}\"", self.r.pick(STRS)),
            _ => format!("'{}'", self.r.pick(STRS)),
        }
    }
    fn rat(&mut self) -> String {
        match self.r.n(5) { 0 => format!("rational({})", self.int()), 1 => format!("rational('{}/{}')", self.r.range(-30, 30), self.r.range(1, 12)), 2 => format!("(rational({}) / {})", self.int(), self.nonzero()), _ => format!("rational({}, {})", self.r.range(-12, 12), self.nonzero()) }
    }
    fn nonzero(&mut self) -> String { loop { let i = self.int(); if i != "0" { return i } } }
    fn cplx(&mut self) -> String {
        let im = match self.r.n(12) { 0 => self.r.range(1 << 20, 1 << 50), _ => self.r.range(1, 12) };
        match self.r.n(4) { 0 => format!("{im}i"), 1 => format!("({} - {im}i)", self.r.range(-9, 9)), _ => format!("({} + {im}i)", self.r.range(-9, 9)) }
    }
    fn elems(&mut self, d: u32) -> Vec<String> {
        let n = match self.r.n(12) { 0 => 0, 1 => 1, 10 => 7, 11 => 12, _ => 2 + self.r.n(4) };
        let k = *self.r.pick(&['k', 'k', 'k', 'i', 's', 's', 'b', 'P', 'P', 'n', 'r']);
        let k = if d == 0 && k == 'P' { 'k' } else { k };
        (0..n).map(|_| if self.r.p(6) { self.value('x', d.saturating_sub(1)) } else if k == 'P' { if self.r.p(50) { format!("({}, {})", self.r.n(3), self.r.n(3)) } else { let l = self.value('l', 0); l } } else { self.value(k, 0) }).collect()
    }
    /// An expression of a kind: b bool, i int, k small int, p positive small int, r rational, c complex, n number, s string, l list, v vector, t set, d dict, h heap, q range, e enumerate,
    /// I iterable, S indexable, C mutable collection, V vector of numbers, L list of lists, x anything, z simple anything
    pub fn value(&mut self, k: char, d: u32) -> String {
        match k {
            '0' => "nil".into(),
            'b' => self.r.pick(&["true", "false"]).to_string(),
            'i' => self.int(),
            'k' => self.small(),
            'p' => self.r.range(1, 6).to_string(),
            'u' => self.r.range(0, 6).to_string(),
            'o' => self.nonzero(),
            'r' => self.rat(),
            'c' => self.cplx(),
            'n' => { let k = *self.r.pick(&['i', 'i', 'i', 'k', 'k', 'b', 'r', 'r', 'c']); self.value(k, d) }
            's' => self.string(),
            '#' => match self.r.n(5) {
                0 => format!("'{}'", self.r.pick(&["4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "-4611686018427387903", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "+5", "-0", "--1", "+-1", "1_000", "0x10", "-0b11", "0X1", "1 ", " 1", "1e3", "", "-", "+", "٣"])),
                1 => { let i = self.int(); format!("'{}'", i.trim_matches(|c| c == '(' || c == ')')) }
                2 => { let i = self.nonzero(); format!("hex(abs({i}))") }
                3 => { let i = self.small(); format!("'{i}'") }
                _ => { let i = self.int(); format!("str({i})") }
            },
            'w' => format!("'{}'", self.r.pick(&["a", "b", "c", "é", "日", "x", "🦀"])),
            'R' => { if self.r.p(3) { format!("'{}'", self.r.pick(BADRE)) } else { format!("'{}'", self.r.pick(REGEX)) } }
            'l' => { let e = self.elems(d); format!("[{}]", e.join(", ")) }
            'v' => { let e = self.elems(d); if e.len() >= 2 { format!("({})", e.join(", ")) } else { format!("vector([{}])", e.join(", ")) } }
            'V' => { let n = 2 + self.r.n(2); let e: Vec<String> = (0..n).map(|_| if self.r.p(8) { self.value('V', 0) } else { self.value('n', 0) }).collect(); format!("({})", e.join(", ")) }
            'L' => { let n = self.r.n(4); let e: Vec<String> = (0..n).map(|_| { let k = *self.r.pick(&['l', 'v', 's', 'q', 't']); self.value(k, 0) }).collect(); format!("[{}]", e.join(", ")) }
            't' => { let e = self.elems(d); if e.is_empty() { "set()".into() } else if self.r.p(30) { format!("set([{}])", e.join(", ")) } else { format!("{{{}}}", e.join(", ")) } }
            'd' => {
                let e = self.elems(d);
                if e.is_empty() { return "dict()".into() }
                if self.r.p(20) { let v: Vec<String> = e.iter().map(|k| format!("({k}, {})", self.r.n(9))).collect(); return format!("dict([{}])", v.join(", ")) }
                let v: Vec<String> = e.into_iter().map(|k| { let v = if self.r.p(70) { self.small() } else { self.value('z', 0) }; format!("{k}: {v}") }).collect();
                format!("{{{}}}", v.join(", "))
            }
            'h' => { let n = if self.r.p(70) { self.r.n(3) } else { self.r.n(7) }; let k = *self.r.pick(&['k', 'k', 'i', 's', 'r']); let e: Vec<String> = (0..n).map(|_| self.value(k, 0)).collect(); format!("heap([{}])", e.join(", ")) }
            'q' => match self.r.n(6) {
                0 => format!("range({})", self.r.range(-2, 7)),
                1 => format!("range({}, {})", self.small(), self.small()),
                2 => format!("range(4611686018427387{}, 4611686018427387903, {})", self.r.range(880, 903), self.r.range(1, 30)),
                _ => { let s = loop { let s = self.r.range(-4, 4); if s != 0 { break s } }; format!("range({}, {}, {s})", self.r.range(-12, 12), self.r.range(-12, 12)) }
            },
            'e' => { let k = *self.r.pick(&['l', 's', 'q', 'v', 't']); format!("enumerate({})", self.value(k, d.saturating_sub(1))) }
            'I' => { let k = *self.r.pick(&['l', 'l', 'l', 'v', 't', 'd', 'h', 's', 's', 'q', 'q', 'e']); self.get(k, d) }
            'S' => { let k = *self.r.pick(&['l', 'l', 'l', 'v', 's', 's', 's', 'q', 'e']); self.get(k, d) }
            'C' => { let k = *self.r.pick(&['l', 'l', 't', 'd', 'h', 'v']); self.get(k, d) }
            'z' => { let k = *self.r.pick(&['0', 'b', 'k', 'i', 's', 's', 'w', 'k']); self.value(k, d) }
            _ => {
                let k = *self.r.pick(if d > 0 { &['0', 'b', 'k', 'i', 's', 's', 'r', 'c', 'l', 'v', 't', 'd', 'h', 'q', 'e', 'G'] } else { &['0', 'b', 'k', 'i', 's', 'w', 'r', 'c', '0', 'b', 'k', 'i', 's', 'w', 'q', 'G'] });
                if k == 'G' { self.r.pick(&["len", "int", "(+)", "(< 3)", "print", "typeof", "[1:]", "fn(x) -> x", "list", "push(3)"]).to_string().replace("fn(x) -> x", "(fn(x) -> x)") } else { self.value(k, d.saturating_sub(1)) }
            }
        }
    }
    /// a variable or an expression of a kind
    pub fn get(&mut self, k: char, d: u32) -> String {
        let w = self.wild;
        if w > 0 && self.r.n(200) < w as usize { return self.value('x', 1) }
        let c: Vec<&(char, String)> = self.vars.iter().filter(|v| v.0 == k).collect();
        let p = self.vary;
        if !c.is_empty() && self.r.p(p) { let i = self.r.n(c.len()); return c[i].1.clone() }
        self.value(k, d)
    }
    fn fun(&mut self, nargs: usize, traced: bool) -> String {
        let (name, body) = if nargs == 1 {
            let b = self.r.pick(&["x", "repr(x)", "[x, x]", "x == 1", "typeof(x)", "str(x)", "(x, 1)", "nil", "x is int", "str(x) + '!'", "len(repr(x))", "[x]", "len(str(x)) % 3", "x in [1, 2, 'a']", "not x", "x != 'a'", "len(str(x)) % 2 == 0"]).to_string();
            (format!("fn(x)"), b)
        } else {
            let b = self.r.pick(&["(x, y)", "x", "y", "str(x) + str(y)", "[x, y]", "repr(x) == repr(y)", "len(str(x)) - len(str(y))", "if str(x) < str(y) then -1 else if str(x) > str(y) then 1 else 0"]).to_string();
            (format!("fn(x, y)"), b)
        };
        if traced { let a = if nargs == 1 { "x" } else { "x, y" }; format!("({name} {{ print('call', {a}) ; {body} }})") } else { format!("({name} -> {body})") }
    }
    fn op(&mut self, ops: &[&str]) -> String { self.r.pick(ops).to_string() }
    /// Fills a template. `!name A B C` is a call in any of its equivalent forms.
    pub fn fill(&mut self, t: &str) -> String {
        if let Some(c) = t.strip_prefix('!') {
            let p: Vec<&str> = c.split(' ').collect();
            let a: Vec<String> = p[1..].iter().map(|x| self.fill(x)).collect();
            let (last, init) = a.split_last().unwrap();
            return match self.r.n(6) {
                0 | 1 => format!("{}({})", p[0], a.join(", ")),
                2 if init.len() == 2 => format!("{}({})({}, {last})", p[0], init[0], init[1]),
                2 if init.len() == 1 => format!("{}({})({last})", p[0], init[0]),
                3 if !init.is_empty() => format!("({last} . {}({}))", p[0], init.join(", ")),
                3 => format!("({last} . {})", p[0]),
                4 => format!("{}(...[{}])", p[0], a.join(", ")),
                _ => if init.is_empty() { format!("({last} . {})", p[0]) } else { format!("({last} . {}({}))", p[0], init.join(", ")) },
            }
        }
        let mut out = String::new();
        let mut it = t.chars().peekable();
        while let Some(c) = it.next() {
            if c != '$' { out.push(c); continue }
            let Some(k) = it.next() else { panic!("{t}") };
            let s = match k {
                '1' => self.fun(1, false), '2' => self.fun(2, false), '3' => self.fun(1, true), '4' => self.fun(2, true),
                '+' => self.op(&["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "+", "-", "*", "/", "%"]),
                '=' => self.op(&["==", "!=", "<", "<=", ">", ">="]),
                ':' => { // slice
                    let mut part = |s: &mut Self| match s.r.n(7) { 0 => String::new(), 1 => "nil".into(), 2 => s.int(), _ => s.r.range(-7, 7).to_string() };
                    let a = part(self); let b = part(self);
                    if self.r.p(60) { let c = match self.r.n(12) { 0 => String::new(), 1 => "nil".into(), 2 => "0".into(), 3 => self.int(), _ => self.r.range(-4, 4).to_string() }; format!("{a}:{b}:{c}") } else { format!("{a}:{b}") }
                }
                'F' => self.format(),
                '!' => { let k = it.next().unwrap(); let e = self.get(k, 2); self.last = if e.starts_with('-') { format!("({e})") } else { e }; self.last.clone() }
                '~' => self.last.clone(),
                '@' => self.cycle(),
                'H' => self.op(&["map", "filter", "flat_map", "group_by", "min_by", "max_by", "any", "all", "find", "index_of"]),
                '$' => "$".into(),
                k => { let e = self.get(k, 1); if e.starts_with('-') { format!("({e})") } else { e } }
            };
            out.push_str(&s);
        }
        out
    }
    /// Statements that build containers which reach each other (and themselves), then print them
    fn cycle(&mut self) -> String {
        let n = 2 + self.r.n(3);
        let mut st: Vec<String> = vec![];
        let mut kinds = vec![];
        for i in 0..n {
            let k = if i == 0 { *self.r.pick(&['l', 'l', 'v', 'd']) } else { *self.r.pick(&['l', 'l', 'v', 'd', 'd', 't', 'k', 'e', 'p']) };
            let mut part = |s: &mut Self| if i > 0 && s.r.p(75) { let j = s.r.n(i); match s.r.n(4) { 0 => format!("(c{j}, {})", s.r.n(4)), 1 => format!("[c{j}]"), _ => format!("c{j}") } } else { s.r.n(5).to_string() };
            let a = part(self); let b = part(self); let u = self.r.n(4);
            st.push(format!("let c{i} = {}", match k { 'l' => format!("[{a}, {b}]"), 'v' => format!("vector([{a}, {b}])"), 'd' => format!("{{{u}: {a}, '{u}': {b}}}"), 'k' => format!("{{{a}: {b}}}"), 't' => format!("set([{a}, {b}])"), 'p' => format!("push({a})"), _ => format!("enumerate([{a}, {b}])") }));
            kinds.push(k);
        }
        for _ in 0..1 + self.r.n(3) {
            let i = self.r.n(n); let j = self.r.n(n); let u = self.r.n(2);
            let e = match self.r.n(4) { 0 => format!("(c{j}, {u})"), 1 => format!("[c{j}]"), _ => format!("c{j}") };
            match kinds[i] { 'l' => st.push(match self.r.n(3) { 0 => format!("c{i}[{u}] = {e}"), 1 => format!("c{i} . push_front({e})"), _ => format!("c{i} . push({e})") }), 'v' => st.push(format!("c{i}[{u}] = {e}")), 'd' => st.push(format!("c{i}[{u}] = {e}")), _ => {} }
        }
        for _ in 0..1 + self.r.n(3) {
            let i = self.r.n(n);
            st.push(match self.r.n(7) { 0 => format!("print(repr(c{i}))"), 1 => format!("print('%s' % [c{i}])"), 2 => format!("print(str([c{i}, c{i}]))"), 3 => format!("print(copy(c{i}))"), 4 if kinds[i] == 'l' => format!("let m{i} = copy(c{i}) ; m{i} . push(7) ; print(m{i}, c{i})"), _ => format!("print(c{i})") });
        }
        st.join(" ; ")
    }
    fn format(&mut self) -> String {
        let n = self.r.n(4);
        let mut f = String::new();
        let mut args = vec![];
        for _ in 0..n {
            let pad = self.r.pick(&["", "", "3", "03", "8", "010", "1", "0", "12", "00", "20", "99999999999999999999"]).to_string();
            let pad = if self.r.p(93) && (pad == "00" || pad.len() > 10) { String::new() } else { pad };
            let c = *self.r.pick(&['d', 'd', 'x', 'b', 's', 's', 's']);
            let c = if self.r.p(1) { 'q' } else { c };
            f += &format!("{}%{pad}{c}", self.r.pick(&["", "a", " ", "%%", "é="]));
            args.push(if c == 's' { self.value('x', 1) } else { self.value('i', 0) });
        }
        if self.r.p(20) { f += *self.r.pick(&["%%", "!", " é", "%"]) }
        if self.r.p(4) { args.pop(); }
        if self.r.p(3) { args.push("1".into()); }
        let a = match (args.len(), self.r.n(4)) { (1, 0 | 1) => format!("({})", args[0]), (k, 2) if k > 1 => format!("({})", args.join(", ")), _ => format!("[{}]", args.join(", ")) };
        format!("('{f}' % {a})")
    }
    pub fn line(&mut self, s: &str) { self.out.push_str(s); self.out.push('\n') }
    pub fn bind(&mut self, k: char) { let k = match k { 'C' => *self.r.pick(&['l', 't', 'd', 'v', 'h']), 'I' => *self.r.pick(&['l', 't', 'd', 'v', 's', 'q', 'e']), k => k }; let e = self.value(k, 2); self.n += 1; let n = format!("{k}{}", self.n).to_lowercase(); let n = format!("v{n}"); self.line(&format!("let {n} = {e}")); self.vars.push((k, n)) }

    pub fn program(mut self, id: &str) -> String {
        let (kinds, count, tpl): (&[char], usize, &[&str]) = match id {
            "C08" => (&['i', 'i', 'n', 'r', 'c', 'V', 'b'], 9, C08),
            "C13" => (&['l', 's', 'v', 'l', 's', 'q'], 9, C13),
            "C14" => (&['l', 't', 'd', 'h', 'C'], 16, C14),
            "C15" => (&['l', 't', 'd', 'h', 's', 'q', 'v', 'e'], 6, C15),
            "C16" => (&['s', 's', 's', 'i'], 9, C16),
            "C11" => (&['l', 't', 'd', 'h', 'v', 'C', 'L'], 14, C11),
            "C10" => (&['l', 't', 'd', 'v', 's', 'x'], 8, C10),
            "C12" => (&['l', 't', 'd', 'v', 's', 'x', 'n'], 8, C12),
            _ => (&['l', 't', 'd', 'v', 's', 'n', 'x'], 8, C09),
        };
        if matches!(id, "C13" | "C14" | "C11") { self.vary = 85 }
        if id == "C14" || id == "C11" { self.wild = 1 }
        self.wild = if self.r.p(70) { 0 } else { self.wild };
        let nb = 1 + self.r.n(4);
        for _ in 0..nb { let k = *self.r.pick(kinds); self.bind(k) }
        if id == "C14" { let n = 1 + self.r.n(2); for _ in 0..n { let k = *self.r.pick(&['l', 't', 'd', 'h']); self.bind(k) } }
        if (id == "C14" || id == "C11") && self.r.p(40) && !self.vars.is_empty() { let v = self.vars[self.r.n(self.vars.len())].clone(); self.n += 1; let n = format!("w{}", self.n); self.line(&format!("let {n} = {}", v.1)); self.vars.push((v.0, n)) }
        let cnt = 1 + self.r.n(count * 2);
        for _ in 0..cnt {
            let t = *self.r.pick(tpl);
            if let Some(st) = t.strip_prefix('~') {
                let s = self.fill(st);
                if s.contains("let ") { self.line("if true {"); for l in s.split(" ; ") { self.line(&format!("    {l}")) } self.line("}") } else { for l in s.split(" ; ") { self.line(l) } }
                continue
            }
            let e = self.fill(t);
            match self.r.n(8) {
                0 => self.line(&format!("print(repr({e}))")),
                1 => { self.n += 1; let n = format!("q{}", self.n); self.line(&format!("let {n} = {e}")); self.line(&format!("print({n}, typeof({n}))")) }
                2 if !matches!(id, "C14") => { let e2 = self.fill(t); self.line(&format!("print({e}, {e2})")) }
                _ => self.line(&format!("print({e})")),
            }
            if matches!(id, "C14" | "C11") && self.r.p(40) || self.r.p(6) { let v: Vec<String> = self.vars.iter().map(|v| if v.0 == 'h' { format!("sort({})", v.1) } else { v.1.clone() }).collect(); self.line(&format!("print({})", v.join(", "))) }
        }
        let v: Vec<String> = self.vars.iter().map(|v| if v.0 == 'h' { format!("sort({})", v.1) } else { format!("repr({})", v.1) }).collect();
        if !v.is_empty() { self.line(&format!("print({})", v.join(", "))) }
        if self.r.p(25) { let b: String = self.out.lines().map(|l| format!("    {l}\n")).collect(); return format!("fn main() {{\n{b}}}\nmain()\n") }
        self.out
    }
}

const C08: &[&str] = &[
    "$n $+ $n", "$n $+ $n", "$i $+ $i", "$i $+ $i", "$i $+ $o", "$i / $o", "$i % $o", "$n / $o", "$n % $o", "$r $+ $r", "$c $+ $c", "$V $+ $V", "$V $+ $n", "$n $+ $V", "$i ** $u", "$n ** $u", "$r ** $k", "$k << $u", "$i << $k", "$i >> $k", "$i << $i", "$i >> $i",
    "-$n", "(!$n)", "not $n", "-$V", "(!$V)", "abs($n)", "!abs $n", "!abs $V", "!sqrt $i", "!sqrt $n", "sqrt($u * $u)", "sqrt(abs($i))", "!gcd $i $i", "!lcm $i $i", "gcd([$i, $k, $i])", "lcm([$k, $k, $k])", "gcd($k, $k, $k)", "!count_ones $i", "!count_ones $u", "!count_zeros $u",
    "!hex $i", "!bin $i", "hex(hex(abs($i)))", "bin(bin(abs($i)))", "int(str($i))", "!int $n", "!int $s", "!int $s $k", "!int $# ", "int($#)", "!int $# $k", "!bool $n", "!rational $n", "!rational $k $o", "!rational $s", "!real $n", "!imag $n", "!numer $n", "!denom $n", "sum($n, $n, $n)", "!sum $l", "min($i, $i, $n)", "max($i, $n, $i)", "!min $l", "!max $l",
    "$n $= $n", "$i $= $i", "$r $= $n", "$c == $n", "($i / $o) * $o + $i % $o", "$i & $i | $i ^ $i", "$n + $n * $n - $n", "min(int)", "max(int)", "$i == $r", "$b + $b", "$b * $i", "int($r)", "$V == $V", "$V < $V", "$V . sum", "reduce((+), $V)", "$k ** $k", "$x $+ $n", "$n $+ $x", "$s * $u", "$u * $l", "(0 - $i) >> $u", "2 ** $u ** $u", "$i . (+ $i)", "$i . (- $i)", "(/ $o)($i)", "(% $o)($i)", "(** $u)($k)", "(<< $u)($i)", 
];
const C13: &[&str] = &[
    "$S[$k]", "$S[$k]", "$l[$k]", "$s[$k]", "$v[$k]", "$q[$k]", "$e[$k]", "$d[$k]", "$S[$i]", "$S[$b]", "$S[$:]", "$S[$:]", "$S[$:]", "$l[$:]", "$s[$:]", "$v[$:]", "$q[$:]", "$e[$:]", "$s[$:]", "$t[$:]", "$h[$:]",
    "~$l[$k] = $z", "~$l[$u] = $z", "~$v[$u] = $z", "~$v[$k] = $z", "~$s[$k] = $w", "~$d[$k] = $z", "~$l[$u] += $k", "~$l[0] = $x", "~$l[-1] = $x", "$l[-1]", "$s[-1]", "len($S)", "len($S[$:])", "$S[$:] == $S", "$l[:] == $l", "$s[::-1]", "$l[::-1]",
    "$S . [$:]", "($S . [$:]) . len", "map([$k], $L)", "$q == $q", "$k in $q", "$k not in $q", "list($q)", "list($e)", "len($q)", "reverse($q)", "$q . list . len", "$q $= $q", "reverse($e)", "$e == $e", "sum($q)", "$q . map(+ 1)", "$i in $q", "repr($q)", "$e . map(fn((i, x)) -> (x, i))", "bool($q)", "$q . min", "$q . max", "index_of($k, $q)", "rindex_of($k, $q)", "find(> $k, $q)", "$l[$u][$u]", "$L[$u][$k]", "set($q)", "vector($q)", "zip($q, $q)", "zip($e, $q)", "($q, $q)[$b]",
];
const C14: &[&str] = &[
    "!push $z $l", "!push $z $l", "!push_front $z $l", "!pop $l", "!pop_front $l", "!insert $u $z $l", "!insert $k $z $l", "!remove $u $l", "!remove $k $l", "!peek $l", "len($l)", "$l == $l", "$z in $l", "$l + $l", "~$l[$u] = $z", "~$l[$k] += $l",
    "!push $k $t", "!push $z $t", "!push (1,$u) $t", "!pop $t", "!remove $k $t", "!remove $z $t", "!peek $t", "$k in $t", "$z in $t", "len($t)", "$t == $t", "$t | $t", "$t & $t", "$t ^ $t", "$t - $t", "!union $I $t", "!intersect $I $t", "!difference $I $t", "!union $t $t", "!push ($u,$u) $t", "($u, $u) in $t", "[$u] in $t",
    "~$d[$k] = $z", "~$d[$z] = $k", "~$d[$k] = $k", "$d[$k]", "$d[$z]", "!insert $z $z $d", "!insert $k $k $d", "!remove $k $d", "!remove $z $d", "!pop $d", "!peek $d", "$k in $d", "keys($d)", "values($d)", "len($d)", "$d == $d", "!default $k $d", "default((fn() -> []), $d)", "!default list $d", "~$d . default($k)", "~$d[$k] += 1", "$d . keys . len", "~$d[($u,$u)] = $k", "~$d[[$u]] = $k", "$d . map(fn((k, v)) -> k)",
    "~let dd = 0 ; let n = dict() . default(fn() { dd += 1 ; dd }) ; n[$u] = $z ; print(n[$u], n[$u], n, dd) ; n[$k] = nil ; print(n[$u], n[$k], n . pop, n[$u], dd, n)", "~$d[$k] = nil", "~$l[$u] = nil", "!push nil $t", "!insert $k nil $d", "~let n = $!d . default(fn() -> [$u]) ; n[$k] = nil ; print(n[$k], n[$u], n[$z], $~)",
    "!push $k $h", "!push $i $h", "!pop $h", "!pop $h", "!peek $h", "len($h)", "$h . sort", "$h == $h", "$k in $h",
    "!clear $C", "bool($C)", "list($C)", "set($C)", "copy($C)", "reverse($l)", "sort($l)", "counter($I)", "!index_of $k $l", "!find $k $l", "~for x in copy($C) { print(x) }", "!pop $C", "!push $k $C", "!remove $k $C", "!peek $C",
];
const C15: &[&str] = &[
    "!map $3 $I", "!map $1 $I", "!filter $3 $I", "!filter $1 $I", "!flat_map $3 $I", "!flat_map $1 $L", "!flat_map (fn(x)->x) $L", "!concat $L", "concat([$I, $I])", "zip($I, $I)", "zip($I, $I, $I)", "zip([$I, $I])", "!zip $L", "!reduce $4 $I", "!reduce $2 $I", "!reduce (+) $l", "!reduce max $I", "sum($I)", "min($I)", "max($I)", "!min $l", "!max $l", "min($k, $k, $k)", "max($z, $z)",
    "!min_by $3 $I", "!max_by $3 $I", "!min_by $1 $I", "!max_by $1 $I", "!min_by $4 $I", "!max_by $4 $I", "!sort $I", "sort($k, $k, $k)", "!sort_by $1 $I", "!sort_by (fn(a,b)->a-b) [$k,$k,$k,$k]", "!sort_by (fn(a,b)->b-a) [$k,$k,$k,$k,$k]", "!sort_by (-) [$k,$k,$k]", "!group_by $3 $I", "!group_by $p $I", "!group_by $k $I", "!group_by $1 $I", "!reverse $I", "reverse($k, $k, $k)", "!permutations $u [$k,$z,$k]", "!combinations $u [$k,$k,$z,$k]", "!permutations $k $I", "!combinations $k $I",
    "!any $3 $I", "!all $3 $I", "!any $1 $I", "!all $1 $I", "!find $3 $I", "!rfind $3 $I", "!index_of $3 $I", "!rindex_of $3 $I", "!find $z $I", "!rfind $z $I", "!index_of $z $I", "!rindex_of $z $I", "!index_of $w $s", "!rindex_of $w $s", "!counter $I", "list($I)", "set($I)", "vector($I)", "heap($I) . list . sort", "dict(zip($I, $I))", "dict(enumerate($I))", "list($z, $z)", "set($z, $z, $z)", "vector($z, $z)", "len($I)", "$I . enumerate . list", "keys($d)", "values($d)", "!map str $I", "!map repr $I", "$I . map($1) . filter($1) . len", "!map $I $I", "!filter $x $I", "!sort_by $x $I", "!group_by $x $I", "!reduce $x $I", "!map $3 $x", "join(',', $I)", "any(> $k, [$k,$k])", "all(< $k, [$k, $k])", "$I . sort . reverse", "any($k, $I)", "$I . list . copy",
    "~let hr = range($u, 40 ** 11, $p) ; print(hr . any(> $i), hr . find(fn(x) -> x % 7 == 3), hr . index_of(fn(x) -> x > 20), 39 in hr, hr[12], len(hr))", "~fn st(x) { if x > 12 then exit else x } ; print('go') ; range(40 ** 11) . $H(st)", "~fn st(x) { print(x) ; if x > 3 then [][x] else [x] } ; range($u, 40 ** 11, $p) . $H(st)", "~fn st(x) { print(x) ; if x > 3 then [][x] else [x] } ; enumerate(range(40 ** 11)) . $H(fn((i, x)) -> st(x))", "~for x in range(40 ** 11) . enumerate { if x[0] > 3 { break } ; print(x) }", "~print(zip(range(40 ** 11), $I)) ; print(zip($I, range(40 ** 11)))", "~print(range(3000) . map(fn(x) -> x * 2) . sum, range(9000) . filter(fn(x) -> x % 2) . len, range(5000) . group_by(fn(x) -> x // 3) . len, range(9999) . group_by(2) . len, range(5000) . counter . len)",
    "map((+ $k), [$k,$k,$k])", "map((- $k), [$k,$k])", "filter((> $k), $q)", "reduce((*), $q)", "$l . sort_by(len)", "[$s,$s,$s] . sort", "[$s,$s,$s] . max_by(len)", "[$s,$s,$s] . min_by(len)", "[$s,$s,$s] . group_by(len)", "[$s,$s] . map(to_upper)", "$d . map(fn((k,v)) -> (v,k))", "$d . filter(fn((k,v)) -> v) . dict",
];
const C16: &[&str] = &[
    "$s + $s", "$s + $x", "$x + $s", "$s * $u", "$u * $s", "$s $= $s", "$s $= $s", "$s == $s", "len($s)", "!trim $s", "!to_lower $s", "!to_upper $s", "!split $w $s", "!split '' $s", "split(' ', $s)", "!split ',' $s", "!split $R $s", "!join $s $I", "!join $s $l", "!join '' $s", "!replace $R $s $s", "!replace $R '-' $s", "!replace $R '$$1' $s", "!replace $R (fn(x)->repr(x)) $s", "!replace $R $3 $s", "!replace $R $1 $s", "!search $R $s", "!search $R $s", "!ord $w", "!ord $s", "!char $i", "!char $p", "!char ($u+200)", "char(ord($w))", "!int $s", "!int $s $z", "!hex $s", "!bin $s", "hex(hex(abs($i)))", "!hex $i", "!bin $i", "!int '$k'", "!int $#", "int($#, $k)", "!rational $#", "!hex '7f'", "!bin '-101'",
    "$F", "$F", "$F", "$F", "$s in $s", "$w in $s", "$s not in $s", "$s[$k]", "$s[$:]", "reverse($s)", "list($s)", "set($s)", "sort($s)", "counter($s)", "$s . map(ord)", "str($x)", "repr($s)", "repr($x)", "eval(repr($k))", "len(repr($s))", "$s . list . map(to_upper)", "[$s, $s] . sort", "{$s, $s, $s}", "{$s: 1, $s: 2}", "max($s)", "index_of($w, $s)", "$s is str", "bool($s)", "split($s, $s)", "$s . split('') . len", "($s + $s) . len", "($s * $u) . len", "trim(' ' + $s)", "$s . to_upper . to_lower", "concat([$s, $s])", "zip($s, $s)", "typeof($s)", "$s == ($s + '')", "($s + 'x')[:-1] == $s", "ord($s[0])", "find($w, $s)", "!to_lower $x", "!split $x $s", "!replace $R $x $s", "!join $x $I", "$s % $x",
];
const C11: &[&str] = &[
    "!push $z $l", "!push $l $l", "!push $C $l", "!pop $l", "~$l[0] = $C", "~$l[-1] = $l", "~$d[$k] = $C", "~$d[$k] = $l", "~$v[0] = $C", "~$v[$b] = $z", "!push $k $t", "!push $k $h", "copy($C)", "copy($l) == $l", "~$l . copy . push(1) . print", "sort($l)", "reverse($l)", "$l + $l", "$l * $u", "$l ** $u", "list($C)", "vector($C)", "set($l)", "~let n = copy($l) ; n . push(1) ; print(n, $l)", "~let n = $l[:] ; n . push(1) ; print(n, $l)", "~let n = reverse($l) ; n . push(1) ; print(n, $l)", "~let n = sort($l) ; n . push(1) ; print(n, $l)", "~let n = list($l) ; n . push(1) ; print(n, $l)", "~let n = values($d) ; n . push(1) ; print(n, $d)", "~let n = keys($d) ; n . push(99) ; print(n, $d)", "~let n = $l + [] ; n . push(1) ; print(n, $l)", "~let n = set($t) ; n . push(99) ; print(n, $t)", "~let n = heap($h) ; n . push(99) ; print(n, $h)", "~let n = dict($d) ; n[99] = 1 ; print(n, $d)", "~let n = vector($v) ; n[0] = 99 ; print(n, $v)",
    "~let n = $t | {1} ; n . push(98) ; print(n, $t)", "~let n = map(fn(x)->x, $L) ; n[0] . push(1) ; print(n)", "~let n = filter(fn(x)->true, $l) ; n . push(1) ; print(n, $l)", "~let n = $l * 1 ; n . push(1) ; print(n, $l)", "~let n = [[]] * 3 ; n[0] . push(1) ; print(n)", "~let n = [[]] ** 3 ; n[0] . push(1) ; print(n)", "~let n = push(1, $l) ; n . push(2) ; print(n, $l)", "~let n = clear($C) ; print(n)", "~let n = union([97], $t) ; n . push(96) ; print(n, $t)", "~let n = insert(0, 5, $l) ; n . push(6) ; print(n, $l)", "~let n = push_front(1, $l) ; n . pop ; print(n, $l)", "~let n = default(3, $d) ; n[77] ; print(n, $d)", "~let n = [$l, $l] ; n[0] . push(1) ; print(n, copy(n))", "~let n = [$l, $C] ; let m = copy(n) ; m[0] . push(5) ; n[0] . push(6) ; print(n, m)", "~let f = fn() -> $l ; f() . push(3) ; print(f())", "~for x in [$l, $l] { x . push(4) }", "~let g = fn(x) { x . push(7) ; nil } ; g($l) ; print($l)", "~let n = concat([$l]) ; n . push(1) ; print(n, $l)", "~let n = zip($l, $l) ; print(n)", "~let n = group_by(2, $l) ; print(n)",
    "~$@", "~let n = copy($!C) ; for e in n { if e is list { e . push(9) } else if e is vector { e[0] = 9 } } ; print(n, $~)", "~let n = [1, 2] ; let s = {n, $z} ; let c = copy(s) ; for e in c { if e is list { e . push(9) } } ; print(n, s, c)", "~let n = [1, 2] ; let s = {n: n, $z: $l} ; let c = copy(s) ; for k, e in c { if k is list { k . push(9) } else { e . push(4) } } ; print(n, s, c)", "~let n = [1, 2] ; let s = ([n, n], {3: n}, heap([n]), {n}) ; let c = copy(s) ; n . push(6) ; print(s, c) ; s[$u % 2][0] = $z ; print(s, c)", "~let n = filter(fn(x) -> true, $!C) ; print(n) ; clear($~) ; print(n, $~)", "~let n = map(fn(x) -> x, $!C) ; clear(n) ; print(n, $~)",
    "~let n = $v + 0 ; n[0] = 9 ; print(n, $v)", "~let n, m = ($l, $l) ; n . push(8) ; print(m)", "~let n = peek([$l]) ; n . push(1) ; print($l)", "~let n = {1: $l} ; n[1] . push(2) ; print(n, $l)", "~let n = $l[0:1] ; n . push(0) ; print(n)", "~let n = sort_by(fn(x)->repr(x), $l) ; n . push(0) ; print(n, $l)", "~let n = reduce(fn(a, b) -> a, [$l, $l]) ; n . push(3) ; print($l)", "~let n = max_by(len, [$l, $l]) ; n . push(3) ; print($l)", "~let n = copy($L) ; n . push(2) ; print(n, $L)", "~let *n, _ = [$l, $l] ; n[0] . push(1) ; print($l)",
];
const C10: &[&str] = &["~$@", "~$@", "repr($x)", "str($x)", "repr($l)", "repr($d)", "repr($t)", "repr($v)", "repr($s)", "repr($h)", "repr($q)", "repr($e)", "repr($r)", "repr($c)", "eval(repr($l)) == $l", "eval(repr($i)) == $i", "eval(repr($s))", "eval(repr($t))", "eval(repr($d))", "eval(repr($v))", "[$x, $x]", "($x, $x)", "{$z: $x}", "~let n = [1] ; n . push(n) ; print(n, repr(n))", "~let n = {1: 2} ; n[3] = n ; print(n)", "~let n = (1, 2) ; n[0] = n ; print(n)", "~let n = [$l] ; n[0] = [n, $x] ; print(n)", "~let n = heap() ; n . push(1) ; print(n)", "repr(repr($x))", "str(str($x))", "'%s' % [$x]", "$x + '' + $x", "repr(typeof($x))", "repr(push($k))", "repr($1)", "repr([$1, $2])"];
const C12: &[&str] = &["typeof($x)", "typeof($n)", "$x is $x", "$x is int", "$x is bool", "$n is rational", "$n is complex", "$x is iterable", "$x is any", "$x is function", "$x is str", "$x is list", "$x is not list", "$x is set", "$x is dict", "$x is heap", "$x is vector", "$x is nil", "$n is int", "bool($x)", "not $x", "if $x then 1 else 0", "$x and 1", "$x or 2", "~if $x { print('t') } else { print('f') }", "filter(bool, [$x, $x, $x])", "any(bool, [$x, $x])", "all(bool, [$x, $x])", "typeof($x) == typeof($x)", "[$x, $x] . filter(fn(y) -> y)", "[$x, $x] . map(typeof)", "[$x, $x, $x] . group_by(bool)", "$x is not nil", "($x is int) == not ($x is not int)", "~let n = 0 ; while $x and n < 2 { n += 1 } ; print(n)", "~do { print('do') } while not $x and false", "typeof([$x])", "typeof(typeof($x))", "$C is iterable", "$I is iterable", "typeof($I)", "typeof($I) == list", "$I is list"];
const C09: &[&str] = &["$!x == $~", "len({$!x, $~})", "{$!x: 1}[$~]", "[$!x, $~] . counter . values", "$!x in set([$~])", "index_of($!x, [$~])", "[$!x] == [$~]", "({$!x} | {$~}) . len", "($!e == $~, $~ in {$~}, {[$~]} == {[$~]})", "{$!e, $~, $e}", "$!x < $~", "$!x >= $~", "{($!x, 1): 2}[($~, 1)]", "$x == $x", "$x != $x", "$n $= $n", "$s $= $s", "$l $= $l", "$v $= $v", "$l == $v", "$t == $t", "$d == $d", "$t $= $t", "$h == $h", "$q == $q", "$x in [$x, $x]", "$n in {$n, $n}", "{$n, $n, $n}", "{$n: 1, $n: 2, $n: 3}", "sort([$n, $n, $n])", "min([$n, $n])", "max([$n, $n])", "counter([$n, $n, $n])", "sort([$l, $l, $l])", "sort([$s, $s, $s])", "max($l, $l)", "find($n, [$n, $n])", "index_of($x, [$x, $x])", "{$l, $l, $l}", "{$v: 1, $v: 2}", "{$t, $t}", "{$d, $d}", "[$n, $n] $= [$n, $n]", "($n, $n) $= ($n, $n)", "0 == false", "[0] == [false]", "{0, false, 0i, rational(0)}", "{1: 2, true: 3}", "set([$x, $x]) == set([$x, $x])", "[$x, $x] == [$x, $x]", "$t == set(reverse(list($t)))", "{$t} == {set(reverse(list($t)))}", "$d == dict(reverse(list($d)))", "len({$t, set(reverse(list($t)))})", "len({$d, dict(reverse(list($d)))})", "nil $= $n", "nil $= $x", "$b $= $n", "$r $= $i", "$c $= $n", "$r $= $r"];
