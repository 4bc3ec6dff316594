//! C19: memory safety under the address sanitizer and memcheck, and release of every value that is not part of a cycle.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

use crate::drive::{self, *};
use crate::props::{showing, weights};
use crate::rng::{hash, Rng};
use crate::sup::*;

/// Counts the live allocations and bytes of the process, as the sizes given when allocating and when freeing.
pub struct Counting;
static COUNT: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { COUNT.fetch_add(1, Relaxed); BYTES.fetch_add(l.size() as i64, Relaxed); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { COUNT.fetch_add(1, Relaxed); BYTES.fetch_add(l.size() as i64, Relaxed); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { COUNT.fetch_sub(1, Relaxed); BYTES.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed); } q }
}
pub fn live() -> (i64, i64) { (COUNT.load(Relaxed), BYTES.load(Relaxed)) }
fn diff(a: (i64, i64), b: (i64, i64)) -> (i64, i64) { (b.0 - a.0, b.1 - a.1) }

/// A panic of these kinds is a guard of an unsafe access that would otherwise have been made.
pub fn memory_panic(p: &str) -> bool { p.starts_with("assertion failed") || p.starts_with("unsafe precondition") || p.contains("ptr.rs") || p.contains("misaligned") || p.contains("null pointer") }

enum R { Done, Skip(&'static str) }
pub fn look(c: &mut Ctx, text: String, leaks: bool) -> CaseOut {
    let h = hash(&text);
    if showing() { return CaseOut { verdict: Verdict::Skip("shown"), hash: h, nontrivial: false, text } }
    let run_ref = || match reference(&text, b"", &[], 100_000) { Ref::Done { .. } => R::Done, Ref::Limit => R::Skip("step limit"), Ref::Rejected(_) => R::Skip("rejected by the reference parser"), Ref::Unspec(u) => R::Skip(u) };
    let first = run_ref();
    if let R::Skip(w @ ("step limit" | "rejected by the reference parser")) = first { return CaseOut { verdict: Verdict::Skip(w), hash: h, nontrivial: false, text } }
    let opt = c.idx % 3 == 2;
    // what the machine does is observed by the sanitizer; the result only has to be the same for every run of the same program
    let run_vm = |c: &mut Ctx| -> (Option<String>, u64, bool) {
        let o = drive::vm(&text, opt, b"", &[]);
        c.count("program runs observed", 1);
        let ran = !matches!(o.end, End::Compile(_));
        match &o.end {
            End::Panic(p) => (Some(p.clone()), 0, ran),
            End::OutputLimit => (Some("output limit".into()), 0, ran),
            e => { match e { End::Error { .. } => c.count("runs that ended with an error", 1), End::Compile(_) => c.count("runs that did not compile", 1), _ => c.count("runs that ended normally", 1) } (None, hash(&o.out) ^ hash(&format!("{e:?}")), ran) }
        }
    };
    let (p, h1, ran) = run_vm(c);
    if let Some(p) = p {
        let verdict = if memory_panic(&p) { Verdict::Differ(format!("the guard of an unsafe access failed: {p}")) } else { Verdict::Skip("panic, not of a memory access") };
        return CaseOut { verdict, hash: h, nontrivial: true, text }
    }
    if !leaks || !ran { return CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: ran, text } }
    if let R::Skip(_) = first { return CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: ran, text } }
    // a reference run that frees everything has made no cycle
    let a = live();
    let _ = run_ref();
    let b = live();
    if a != b { c.count("programs with a reference cycle", 1); return CaseOut { verdict: Verdict::Agree, hash: h, nontrivial: ran, text } }
    let mut deltas = vec![];
    for _ in 0..3 {
        let a = live();
        let (p, h2, _) = run_vm(c);
        if p.is_some() { return CaseOut { verdict: Verdict::Skip("panic, not of a memory access"), hash: h, nontrivial: ran, text } }
        let d = diff(a, live());
        if h1 != h2 { return CaseOut { verdict: Verdict::Differ("two runs of the same program differ".into()), hash: h, nontrivial: ran, text } }
        deltas.push(d);
        if d == (0, 0) { break }
    }
    let ok = deltas.last() == Some(&(0, 0));
    if ok { c.count("runs after which everything was freed", 1) }
    let verdict = if ok { Verdict::Agree } else { Verdict::Differ(format!("values are still allocated after the program ended: each run leaves (allocations, bytes) {deltas:?}, although no reference cycle was made")) };
    CaseOut { verdict, hash: h, nontrivial: ran, text }
}

const WEIGHTS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C21"];
const DIRS: &[&str] = &["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

pub fn source(r: &mut Rng) -> String {
    for _ in 0..6 {
        let t = match r.n(10) {
            0..=2 => { let mut w = weights(WEIGHTS[r.n(WEIGHTS.len())]); w.budget = 10 + r.n(20) as i32; if r.p(30) { w.errors += 10 } crate::gen::G::new(r, w).program() }
            3..=4 => { let id = DIRS[r.n(DIRS.len())]; crate::dir::D::new(r).program(id) }
            5 => { let n = r.n(4); crate::corpus::mutant(r, n, false) }
            6..=7 => { let fin = r.p(50); let mut m = crate::misuse::M::new(r, fin); let n = 1 + m.r.n(6); let b = m.body(n); let mut l = crate::misuse::M::prelude(); l.extend(b); l.join("\n") + "\n" }
            _ => owners(r),
        };
        if crate::rf::parse::parse(&t).is_ok() { return t }
    }
    "print(1)".into()
}

/// Programs about who holds a value: long and short strings, closures, iterators, partial calls, caches, errors while values are held.
fn owners(r: &mut Rng) -> String {
    let mut o = String::new();
    let n = 1 + r.n(5);
    for k in 0..n {
        let len = *r.pick(&[0usize, 1, 6, 7, 8, 9, 15, 30]);
        let s: String = (0..len).map(|_| *r.pick(&['a', 'b', 'é', ' ', 'z', '🦀', '1'])).collect();
        let i = *r.pick(&["0", "1", "-1", "4611686018427387903", "-4611686018427387904", "2305843009213693951", "-2305843009213693953", "1073741824", "4294967296"]);
        let v = match r.n(8) { 0 => i.to_string(), 1 => format!("'{s}'"), 2 => format!("['{s}', {i}]"), 3 => format!("('{s}', [{i}])"), 4 => format!("{{'{s}': [{i}]}}"), 5 => format!("heap(['{s}', 'q'])"), 6 => format!("fn(x) -> [x, '{s}']"), _ => format!("('{s}' + 'x' * {})", r.n(9)) };
        let t = *r.pick(&[
            "let a^ = #\nlet b^ = a^, c^ = [a^, b^]\nb^ = nil\nprint(a^, c^)",
            "fn f^() { let q = # ; fn() { let w = q ; q = [w, 1] ; w } }\nlet g^ = f^()\nprint(g^())\nprint(g^())\ng^ = nil",
            "fn f^() { let q = # ; let g = fn() { q } ; q = nil ; g }\nprint(f^()())",
            "for x in '%' + '%%' { print(x) }",
            "for x in [#, #, #] { let y = x ; if y == 1 { break } }",
            "for i, x in enumerate([#, '%']) { print(i, x) ; if i == 1 { break } }",
            "let p^ = (fn(a, b, c) -> [a, b, c])(#)\nlet q^ = p^(#)\nprint(q^(3))\nprint(p^(1, 2))\nprint(q^(#))",
            "let m^ = memoize(fn(x) -> [x, #])\nprint(m^('%'), m^('%'), m^(1))",
            "let l^ = [#, '%', #]\nl^ . push(#)\nprint(l^ . pop, l^ . pop_front, l^)\nl^ . clear",
            "let d^ = {'%': #, 1: 2}\nd^['%'] = '%%'\nd^ . remove('%')\nprint(d^)",
            "let d^ = default(fn() -> #, dict())\nprint(d^['%'])\nd^[1] . print\nprint(d^)",
            "struct S^(a, b) { fn m(self) { let t = a ; a = b ; b = t ; t } }\nlet s^ = S^(#, '%')\nprint(s^->m(), s^->m(), s^)\nlet t^ = s^->m\ns^ = nil\nprint(t^())",
            "let a^, *b^, c^ = [#, '%', #, 3]\nprint(a^, b^, c^)\na^, c^ = c^, a^",
            "print([#, '%', #] . map(fn(x) -> [x, x]) . filter(fn(x) -> true) . len)",
            "print(['%', '%%', '%'] . sort . group_by(len))",
            "print('%' . replace('[a-z]', fn(x) -> '%'))\nprint('%%' . split('b'))",
            "print('%d|%s' % [1, '%'])",
            "print(eval('[1, 2, \"abcdefghi\"]'))\nlet e^ = eval('fn(x) -> [x, \"abcdefghij\"]')\nprint(e^(#))",
            "let w^ = (#, #, '%')\nw^[0] = [w^[1]]\nprint(w^)",
            "let c^ = copy([#, ['%', #]])\nprint(c^)",
            "fn deep^(n, x) { if n == 0 then x else deep^(n - 1, [x]) }\nprint(deep^(30, #) . repr . len)",
            "let x^ = [] ; for i in range(40) { x^ = [x^, i] }\nx^ = nil",
            "fn bad^(x) { let y = [x, #] ; let z = fn() { y } ; z() + nil }\nprint(#)\nif false { bad^(1) }",
            "let k^ = [1, 2, 3]\nlet it^ = k^ . map(fn(x) -> (k^ . pop, x) . list)\nprint(it^)",
            "let fs^ = []\nfor i in range(3) { let j = [i, '%'] ; fs^ . push(fn() { j . push(1) ; j }) }\nprint(fs^[0](), fs^[2](), fs^[0]())",
            "let h^ = heap([(3, '%'), (1, '%%'), (2, '%')])\nprint(h^ . pop)\nh^ . push((0, 'z'))\nprint(h^ . pop)",
            "print({#, '%'} . len, {[#], ['%']} . list . len)",
            "let z^ = '%' * 3 + '%%'\nprint(z^[0:4], z^[::-1], z^ . list . len, z^ . to_upper)",
            "print([[#, '%']] . permutations(1), combinations(2, [#, '%', 3]))",
            "print(reduce(fn(a, b) -> [a, b], [#, '%', #]))\nprint([#, #] . zip(['%', '%%']))",
            "print(# . typeof, '%' is str, [#] is list)",
            "fn v^(*xs) -> xs\nprint(v^(#, ...['%', #], ...'%'))",
            "fn o^(a, b = [#, '%']) -> [a, b]\nprint(o^(1), o^(1, 2), o^(#))",
            "let y^ = # ; do { let t = [y^] ; y^ = t } while len(repr(y^)) < 30\nprint(y^ . repr . len)",
        ]);
        let s2 = s.replace('b', "c");
        let mut t = t.replace('^', &format!("{k}_")).replace("%%", &s2).replace("'%d|%s' %", "'\u{1}d|\u{1}s' \u{1}").replace('%', &s).replace('\u{1}', "%");
        while t.contains('#') { t = t.replacen('#', &v, 1) }
        o.push_str(&t);
        o.push('\n');
    }
    // an error while the values above are held, at the top level or in calls
    match r.n(6) { 0 => o.push_str("print(1 + [nil][0])\n"), 1 => o.push_str("fn die(n, x) { let y = [x] ; if n == 0 { y[5] } else { die(n - 1, y) } }\ndie(4, 'abcdefghijk')\n"), 2 => o.push_str("[1, 2, 'abcdefghij'] . map(fn(x) -> x + nil)\n"), 3 => o.push_str("exit\n"), _ => {} }
    o
}

pub fn asan(c: &mut Ctx, _id: &'static str) -> CaseOut { let mut r = c.r.clone(); let t = source(&mut r); look(c, t, false) }
pub fn freed(c: &mut Ctx, _id: &'static str) -> CaseOut { let mut r = c.r.clone(); let t = source(&mut r); look(c, t, true) }
/// sessions keep constants, functions and patterns of all earlier entries alive
pub fn sessions(c: &mut Ctx, id: &'static str) -> CaseOut {
    let mut o = if c.idx % 2 == 0 { crate::session::session(c, id) } else { crate::misuse::canary(c, id) };
    c.count("sessions observed", 1);
    if let Verdict::Differ(d) = &o.verdict { if !memory_panic(d.rsplit("panicked: ").next().unwrap_or("").trim_start_matches("Panic(\"")) || !d.contains("panicked") { o.verdict = Verdict::Skip("differs, not by a memory access") } }
    o.nontrivial = true;
    o
}
