mod cli;
mod corpus;
mod dir;
mod drive;
mod ffi;
mod gen;
mod mem;
mod misuse;
mod order;
mod props;
mod rf;
mod rng;
mod session;
mod sup;
mod text;
mod wild;

use drive::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;
use std::io::Write;

fn validate(path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let (mut agree, mut differ, mut n) = (0, 0, 0);
    let mut skips = std::collections::BTreeMap::new();
    for (i, p) in text.split('\x1e').enumerate() {
        n += 1;
        eprintln!("#{i}");
        let r = reference(p, b"", &[], 300_000);
        if let Ref::Limit = r { *skips.entry("limit").or_insert(0) += 1; continue }
        let o = vm(p, false, b"", &[]);
        if let Ref::Rejected(e) = &r {
            if !matches!(o.end, End::Compile(_)) { println!("=== {i} REJECTED by reference: {e}\n{p}\n"); }
            *skips.entry("rejected").or_insert(0) += 1;
            continue
        }
        match compare(&r, &o) {
            sup::Verdict::Agree => agree += 1,
            sup::Verdict::Skip(s) => *skips.entry(s).or_insert(0) += 1,
            sup::Verdict::Differ(d) => { differ += 1; println!("=== {i} DIFFER {d}\n{p}\n"); }
        }
    }
    println!("{n} programs: agree {agree} differ {differ} skips {skips:?}");
}

fn evidence(p: &sup::Prop, run: &sup::Run, rep: &sup::Report, wall: f64, dir: &str) {
    use sup::esc;
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", esc(p.id), esc(if run.thorough { "thorough" } else { "quick" }), run.seed);
    j += " \"coverage\": {\n";
    j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", rep.evals, rep.hashes.len(), esc(p.rule));
    let skipped: u64 = rep.skips.values().sum();
    j += &format!("  \"judged\": {},\n  \"skipped\": {},\n  \"trivial\": {},\n", rep.evals - skipped, skipped, rep.trivial);
    j += &format!("  \"skip_reasons\": {{{}}},\n", rep.skips.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    j += &format!("  \"streams\": {{{}}},\n", rep.per_stream.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    let seen: Vec<String> = rep.counts.keys().filter_map(|k| k.strip_prefix("seen ")).map(esc).collect();
    j += &format!("  \"observed\": {{{}}},\n", rep.counts.iter().filter(|(k, _)| !k.starts_with("seen ")).map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    j += &format!("  \"distinct_observed_kinds\": {},\n  \"observed_kinds\": [{}],\n", seen.len(), seen.join(", "));
    j += &format!("  \"samples\": [{}]\n }},\n", rep.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   "));
    j += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"notes\": [{}],\n", rep.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"wall_s\": {wall:.1},\n \"violations\": [{}]\n}}\n", rep.violations.iter().map(|v| esc(&v.what)).collect::<Vec<_>>().join(",\n  "));
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/{}.json", p.id), j).unwrap();
}

fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let p = props::get(id).expect("unknown property");
    let run = sup::Run { id: id.to_string(), thorough: tier == "thorough", seed, jobs: std::env::var("CORDYV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) };
    let t0 = std::time::Instant::now();
    let mut rep = sup::run(&p, &run);
    if let Some(x) = p.extra { x(&run, &mut rep) }
    let dir = std::env::var("CORDYV_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    evidence(&p, &run, &rep, t0.elapsed().as_secs_f64(), &dir);
    println!("{id}: {} cases, {} judged nontrivial and distinct, skipped {:?}, {:.1} s", rep.evals, rep.hashes.len(), rep.skips, t0.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(format!("{dir}/replay"));
    known(id);
    for (i, v) in rep.violations.iter().enumerate() {
        let path = format!("{dir}/replay/{id}-{i}.txt");
        let body = format!("property {id} stream {} seed {} tier {tier} case {}\nreplay: /verif/check.sh replay {path}\n\n{}\n\n==== input ====\n{}\n", v.stream, run.seed, v.idx, v.what, v.text);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={id} replay={path}");
        println!("{}", v.what.lines().take(8).collect::<Vec<_>>().join("\n"));
    }
    if rep.hashes.is_empty() && rep.violations.is_empty() { eprintln!("{id}: nothing was judged"); return 2 }
    if rep.violations.is_empty() { 0 } else { 1 }
}

/// Reports the recorded findings of this property which the tree still shows: the input is run, and its output compared with the recorded, wrong one.
fn known(id: &str) {
    let root = std::env::var("CORDYV_ROOT").unwrap_or_else(|_| "/verif".into());
    let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.txt")) else { return };
    for l in t.lines() {
        let Some(l) = l.strip_prefix(&format!("KNOWN-FINDING: property={id} input=")) else { continue };
        let (path, what) = l.split_once(' ').unwrap_or((l, ""));
        let (Ok(input), Ok(seen)) = (std::fs::read_to_string(format!("{root}/{path}")), std::fs::read_to_string(format!("{root}/{}", path.replace(".cor", ".out")))) else { eprintln!("missing {path}"); continue };
        let text = on_big_stack(move || { let o = vm(&input, false, b"", &[]); o.out + &match o.end { End::Error { text, .. } => text, End::Compile(e) => e.join("\n"), End::Panic(p) => p, _ => String::new() } });
        if text.trim() == seen.trim() { println!("KNOWN-FINDING: property={id} {what} ({path})") }
    }
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a[1].as_str() {
        "check" => check(&a[2], &a[3], a[4].parse().unwrap()),
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let w: Vec<&str> = t.lines().next().unwrap().split(' ').collect();
            let p = props::get(w[1]).unwrap();
            let s = p.streams.iter().position(|s| s.name == w[3]).expect("stream");
            let (seed, idx, th) = (w[5].parse().unwrap(), w[9].parse().unwrap(), w[7] == "thorough");
            on_big_stack(move || {
                let mut c = sup::ctx(p.id, s, seed, idx, th);
                match (p.streams[s].f)(&mut c, p.id).verdict { sup::Verdict::Agree => { println!("no violation"); 0 } sup::Verdict::Skip(w) => { println!("not judged: {w}"); 0 } sup::Verdict::Differ(d) => { println!("VIOLATION property={} \n{d}", p.id); 1 } }
            })
        }
        "worker" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (id, stream, seed, th, start, step, end, cpu) = (a[2].clone(), n(3) as usize, n(4), a[5] == "thorough", n(6), n(7), n(8), n(9));
            on_big_stack(move || sup::worker(&props::get(&id).unwrap(), stream, seed, th, start, step, end, cpu));
            0
        }
        "show" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (id, stream, seed, th, idx) = (a[2].clone(), n(3) as usize, n(4), a[5] == "thorough", n(6));
            on_big_stack(move || { let p = props::get(&id).unwrap(); let mut c = sup::ctx(p.id, stream, seed, idx, th); let o = (p.streams[stream].f)(&mut c, p.id); println!("{}", o.text) });
            0
        }
        "validate" => { let f = a[2].clone(); on_big_stack(move || validate(&f)); 0 }
        "list" => { for p in props::all() { println!("{} {}", p.id, p.streams.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")) } 0 }
        "one" => {
            // run one program read from a file under the reference and both configurations
            let f = a[2].clone();
            on_big_stack(move || {
                let t = std::fs::read_to_string(&f).unwrap();
                let r = reference(&t, b"", &[], 3_000_000);
                match &r { Ref::Done { out, end, .. } => println!("reference:\n{out}\n{end:?}"), Ref::Rejected(e) => println!("rejected {e}"), Ref::Limit => println!("limit"), Ref::Unspec(u) => println!("unspec {u}") }
                for o in [false, true] { let x = vm(&t, o, b"", &[]); println!("opt {o}:\n{}\n{:?}", x.out, x.end); }
            });
            0
        }
        "session" => {
            // runs the lines of a file as entries of a session, with times
            let f = a[2].clone();
            on_big_stack(move || {
                let t = std::fs::read_to_string(&f).unwrap();
                let mut r = cordy_sys::repl::Repl::new(std::io::stdout(), cordy_sys::util::Noop);
                for l in t.lines() { println!(">>> {l}"); let t0 = std::time::Instant::now(); let x = guard(|| { r.run(cordy_sys::repl::ReadResult::Ok(l.to_string())); }); if x.is_err() { println!("{:?}", x.err()); break } if t0.elapsed().as_millis() > 200 { println!("    {:?}", t0.elapsed()) } }
            });
            0
        }
        "judge" => {
            // exit 1 when a program read from a file is observed to differ from the reference
            let f = a[2].clone();
            on_big_stack(move || {
                let t = std::fs::read_to_string(&f).unwrap();
                let mut c = sup::ctx("C07", 0, 1, 0, false);
                let o = props::judge(&mut c, t, props::Mode::Both, b"", false);
                match o.verdict { sup::Verdict::Agree => { println!("agree"); 0 } sup::Verdict::Skip(w) => { println!("skip {w}"); 0 } sup::Verdict::Differ(d) => { println!("DIFFER {d}"); 1 } }
            })
        }
        _ => panic!("unknown command"),
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
