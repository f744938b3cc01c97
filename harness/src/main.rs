#[cfg(feature = "lits")]
#[macro_use]
extern crate la;

mod alloc;
mod cf;
mod engine;
mod gen;
mod props;
mod rat;
mod refm;

use engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::Command;
use std::sync::atomic::Ordering;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Guarded = alloc::Guarded;

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const RLimit) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
fn limit(what: i32, v: u64) {
    unsafe {
        setrlimit(what, &RLimit { cur: v, max: v });
    }
}

struct Args {
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}
fn args() -> Args {
    let mut a = Args { pos: vec![], opt: BTreeMap::new() };
    let mut it = std::env::args().skip(1).peekable();
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            let v = if it.peek().map_or(true, |y| y.starts_with("--")) { String::new() } else { it.next().unwrap() };
            a.opt.insert(k.to_string(), v);
        } else {
            a.pos.push(x);
        }
    }
    a
}
impl Args {
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.opt.get(k).cloned().unwrap_or(d.to_string())
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn find(id: &str) -> Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn read_known(path: &str) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut property = String::new();
                let mut sig = String::new();
                let mut text = Vec::new();
                for w in rest.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        property = x.into();
                    } else if let Some(x) = w.strip_prefix("sig=") {
                        sig = x.into();
                    } else {
                        text.push(w);
                    }
                }
                v.push(Known { property, sig, text: text.join(" ") });
            }
        }
    }
    v
}

/// The replay file has the whole text.
fn short(t: &str) -> String {
    if t.chars().count() <= 1200 {
        return t.to_string();
    }
    format!("{} ... ({} characters)", t.chars().take(1200).collect::<String>(), t.chars().count())
}

struct GroupRun {
    name: String,
    st: Stats,
    wall: f64,
}

/// What another pass (the other build) covered, as lines "name|cases|discarded|nontrivial|distinct|wall|labels".
struct Absorbed {
    lines: Vec<Vec<String>>,
}
impl Absorbed {
    fn read(path: Option<&String>) -> Absorbed {
        let t = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        Absorbed { lines: t.lines().map(|l| l.splitn(7, '|').map(|x| x.to_string()).collect::<Vec<_>>()).filter(|v| v.len() == 7).collect() }
    }
    fn sum(&self, k: usize) -> u64 {
        self.lines.iter().map(|l| l[k].parse::<u64>().unwrap_or(0)).sum()
    }
}
fn emit(path: &str, runs: &[GroupRun]) {
    let mut o = String::new();
    for r in runs {
        let labels: Vec<String> = r.st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = writeln!(o, "{}|{}|{}|{}|{}|{:.2}|{}", r.name, r.st.evaluations, r.st.discarded, r.st.nontrivial, r.st.distinct.len(), r.wall, labels.join(", "));
    }
    std::fs::write(path, o).expect("write the pass summary");
}

#[allow(clippy::too_many_arguments)]
fn evidence(path: &str, p: &Property, tier: &str, seed: u64, runs: &[GroupRun], wall: f64, violations: u64, extra: &str, more: &Absorbed) {
    let sum = |f: &dyn Fn(&Stats) -> u64| runs.iter().map(|r| f(&r.st)).sum::<u64>();
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n", js(p.id), js(tier), seed);
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", sum(&|s| s.evaluations) + more.sum(1), sum(&|s| s.distinct.len() as u64) + more.sum(4), js(p.rule));
    let _ = write!(o, "  \"discarded\": {},\n", sum(&|s| s.discarded) + more.sum(2));
    let mut samples: Vec<String> = Vec::new();
    for r in runs {
        samples.extend(r.st.samples.iter().map(|s| js(s)));
    }
    if samples.is_empty() {
        samples.push(js(if extra.is_empty() { "no case completed" } else { extra }));
    }
    let _ = write!(o, "  \"samples\": [\n   {}\n  ],\n  \"groups\": {{\n", samples.join(",\n   "));
    for (i, r) in runs.iter().enumerate() {
        let labels: Vec<String> = r.st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = write!(
            o,
            "   {}: {{\"cases\": {}, \"out_of_domain\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"labels\": {{{}}}}}{}\n",
            js(&r.name), r.st.evaluations, r.st.discarded, r.st.nontrivial, r.st.distinct.len(), r.wall, labels.join(", "),
            if i + 1 < runs.len() + more.lines.len() { "," } else { "" }
        );
    }
    for (i, l) in more.lines.iter().enumerate() {
        let _ = write!(
            o,
            "   {}: {{\"cases\": {}, \"out_of_domain\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {}, \"labels\": {{{}}}}}{}\n",
            js(&format!("{} (without overflow checks and debug assertions)", l[0])), l[1], l[2], l[3], l[4], l[5], l[6],
            if i + 1 < more.lines.len() { "," } else { "" }
        );
    }
    let assum: Vec<String> = p.assumptions.iter().map(|a| js(a)).collect();
    let _ = write!(o, "  }}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", assum.join(", "), wall, violations);
    if !path.is_empty() {
        if let Some(d) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, o).expect("write evidence");
    }
}

#[allow(clippy::too_many_arguments)]
fn write_replay(dir: &str, mode: &str, id: &str, group: &str, seed: u64, index: u64, kind: &str, choices: &[u64], text: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}.replay", dir, id, group.replace([' ', '/'], "_"));
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let body = format!(
        "# la-pbt replay v1: /verif/run.sh replay <this file>\nmode {}\nproperty {}\ngroup {}\nseed {}\nindex {}\nkind {}\nchoices {}\n{}\n",
        mode, id, group, seed, index, kind, ch.join(" "),
        text.lines().map(|l| format!("# {}", l)).collect::<Vec<_>>().join("\n")
    );
    std::fs::write(&path, body).expect("write replay");
    path
}

fn worker(a: &Args) -> i32 {
    let id = a.pos[1].clone();
    let p = find(&id);
    let tier = a.s("tier", "quick");
    let seed = a.num("seed", 1);
    let threads = a.num("threads", 8) as usize;
    let known = read_known(&a.s("known", ""));
    let track = a.opt.get("track").cloned();
    let only = a.opt.get("group").cloned();
    let scale = a.opt.get("scale").and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    let hang = a.num("hang", 60);
    CALIBRATE.store(a.opt.contains_key("calibrate"), Ordering::Relaxed);
    limit(RLIMIT_AS, 20 << 30);
    limit(RLIMIT_CORE, 0);
    let t0 = Instant::now();
    let mut runs = Vec::new();
    let mut rc = 0;
    for g in &p.groups {
        if only.as_ref().map_or(false, |o| o != g.name) {
            continue;
        }
        let cases = if tier == "thorough" { g.thorough } else { g.quick };
        let cases = ((cases as f64 * scale) as u64).max(1);
        let tg = Instant::now();
        match run_group(&p, g, cases, seed, threads, &known, track.as_deref(), hang) {
            Err(i) => {
                println!("HANG {} {}", g.name, i);
                return 3;
            }
            Ok((st, failure)) => {
                for (sig, n) in &st.known {
                    let text = known.iter().find(|k| k.property == id && &k.sig == sig).map(|k| k.text.clone()).unwrap_or_default();
                    println!("KNOWN-FINDING: property={} {} ({} cases)", id, text, n);
                }
                if a.opt.contains_key("calibrate") {
                    println!("# {}/{}: {} cases, {} discarded, {} nontrivial, {} distinct, {:.2} s", id, g.name, st.evaluations, st.discarded, st.nontrivial, st.distinct.len(), tg.elapsed().as_secs_f64());
                    for (k, v) in &st.maxima {
                        println!("#    max {:<28} {:.4e}  (case {})", k, v.0, v.1);
                    }
                    if a.opt.contains_key("labels") {
                        for (k, v) in &st.labels {
                            println!("#    label {:<28} {}", k, v);
                        }
                    }
                }
                runs.push(GroupRun { name: g.name.to_string(), st, wall: tg.elapsed().as_secs_f64() });
                if let Some(f) = failure {
                    let text = format!("{}\n{}", f.msg, f.notes.join("\n"));
                    let path = write_replay(&a.s("replays", "/verif/replays"), &a.s("mode", "checked"), &id, f.group, seed, f.index, "case", &f.choices, &text);
                    println!("{}/{}: case {} fails (shrunk from {} to {} choices in {} attempts)", id, f.group, f.index, f.shrunk_from, f.choices.len(), f.shrink_tries);
                    println!("  {}", short(&f.msg));
                    for n in &f.notes {
                        println!("  {}", short(n));
                    }
                    println!("VIOLATION property={} replay={}", id, path);
                    rc = 1;
                    break;
                }
            }
        }
    }
    let more = Absorbed::read(a.opt.get("absorb"));
    match a.opt.get("emit") {
        Some(f) if rc == 0 => emit(f, &runs),
        _ => evidence(&a.s("evidence", ""), &p, &tier, seed, &runs, t0.elapsed().as_secs_f64(), rc as u64, "", &more),
    }
    if rc == 0 && !a.opt.contains_key("emit") {
        let (e, d, n): (u64, u64, u64) = runs.iter().fold((0, 0, 0), |x, r| (x.0 + r.st.evaluations, x.1 + r.st.discarded, x.2 + r.st.distinct.len() as u64));
        let (e, d, n) = (e + more.sum(1), d + more.sum(2), n + more.sum(4));
        println!("{}: held on {} cases ({} out of domain, {} distinct non-trivial), {:.1} s", id, e, d, n, t0.elapsed().as_secs_f64());
    }
    rc
}

/// Run one random case by index, in this process, under CPU and memory limits.
fn one_case(a: &Args) -> i32 {
    let id = a.pos[1].clone();
    let p = find(&id);
    PRINT.store(a.opt.contains_key("print"), Ordering::Relaxed);
    limit(RLIMIT_CPU, a.num("cpu", 30));
    limit(RLIMIT_AS, 8 << 30);
    limit(RLIMIT_CORE, 0);
    let g = p.groups.iter().find(|g| g.name == a.s("group", "")).expect("group");
    let f = g.f;
    let (seed, idx, name) = (a.num("seed", 1), a.num("index", 0), g.name);
    let idp = p.id;
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || choices_of(f, seed, idp, name, idx)).unwrap();
    match h.join() {
        Ok((Err(Bad::Fail { .. }), _)) => 1,
        _ => 0,
    }
}

fn run(a: &Args) -> i32 {
    let id = a.pos[1].clone();
    let exe = std::env::current_exe().unwrap();
    let seed = a.num("seed", 1);
    let scratch = std::env::temp_dir().join(format!("la-pbt-scratch-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    std::env::set_var("LA_PBT_SCRATCH", &scratch);
    struct Gone(std::path::PathBuf);
    impl Drop for Gone {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _gone = Gone(scratch.clone());
    // First the build without overflow checks and debug assertions (other cases, fewer of them), then
    // the build with them, which writes the evidence of both.
    let mut extra: Vec<String> = vec![];
    if let Some(plain) = a.opt.get("plain").filter(|f| std::path::Path::new(f).exists()) {
        let sum = scratch.join("plain.txt").display().to_string();
        let scale = if id == "C05" { "1" } else { "0.3" };
        let other = seed.wrapping_add(1_000_003);
        let e: Vec<String> = ["--scale", scale, "--emit", &sum, "--mode", "plain", "--seed", &other.to_string()].iter().map(|x| x.to_string()).collect();
        let rc = pass(a, std::path::Path::new(plain), "plain", other, &e);
        if rc != 0 {
            return rc;
        }
        extra = vec!["--absorb".into(), sum];
    }
    pass(a, &exe, "checked", seed, &extra)
}

/// The sibling binary of the other build, for replays.
fn plain_exe() -> std::path::PathBuf {
    let e = std::env::current_exe().unwrap();
    e.parent().unwrap().parent().unwrap().join("p/plain/la-pbt")
}

fn pass(a: &Args, exe: &std::path::Path, mode: &str, seed: u64, more: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let id = a.pos[1].clone();
    let p = find(&id);
    let t0 = Instant::now();
    let fwd: Vec<String> = std::env::args().skip(2).collect();
    let spawn = |extra: &[String]| {
        let o = Command::new(exe).arg("worker").args(&fwd).args(more).args(extra).output().expect("spawn worker");
        let so = String::from_utf8_lossy(&o.stdout).to_string();
        (o.status, so, String::from_utf8_lossy(&o.stderr).to_string())
    };
    let (st, so, se) = spawn(&[]);
    match st.code() {
        Some(0) | Some(1) => {
            print!("{}", so);
            eprint!("{}", se);
            return st.code().unwrap();
        }
        _ => {}
    }
    // The worker hung or died.  Find the case and confirm it alone, in a limited process.
    let mut cands: Vec<(String, u64)> = Vec::new();
    if st.code() == Some(3) {
        if let Some(l) = so.lines().find(|l| l.starts_with("HANG ")) {
            let rest = &l[5..];
            let k = rest.rfind(' ').unwrap();
            cands.push((rest[..k].to_string(), rest[k + 1..].parse().unwrap()));
        }
    } else {
        let dir = std::env::temp_dir().join(format!("la-pbt-track-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        for _ in 0..3 {
            let (st2, so2, _) = spawn(&["--track".into(), dir.display().to_string()]);
            if st2.code() == Some(0) || st2.code() == Some(1) {
                print!("{}", so2);
                if st2.code() == Some(1) {
                    let _ = std::fs::remove_dir_all(&dir);
                    return 1;
                }
                continue;
            }
            for g in p.groups.iter().rev() {
                let mut here = Vec::new();
                for t in 0..256 {
                    if let Ok(b) = std::fs::read(dir.join(format!("{}.{}.{}", id, g.name, t))) {
                        if b.len() == 8 {
                            let i = u64::from_le_bytes(b.try_into().unwrap());
                            if i > 0 {
                                here.push((g.name.to_string(), i - 1));
                            }
                        }
                    }
                }
                if !here.is_empty() {
                    here.sort();
                    cands = here;
                    break;
                }
            }
            break;
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    for (g, i) in &cands {
        let o = Command::new(exe)
            .args(["case", &id, "--group", g, "--index", &i.to_string(), "--seed", &seed.to_string()])
            .output()
            .expect("spawn case");
        if let Some(sig) = o.status.signal() {
            let kind = if sig == 24 || sig == 9 { "hang" } else { "crash" };
            let what = if kind == "hang" {
                "used 30 s of CPU time without finishing (such a case takes milliseconds)".to_string()
            } else {
                format!("the process died with signal {} while running this case", sig)
            };
            let path = write_replay(&a.s("replays", "/verif/replays"), mode, &id, g, seed, *i, kind, &[], &what);
            let run = vec![];
            evidence(&a.s("evidence", ""), &p, &a.s("tier", "quick"), seed, &run, t0.elapsed().as_secs_f64(), 1, &format!("{} case {}: {}", g, i, what), &Absorbed::read(None));
            println!("{}/{}: case {} {}", id, g, i, what);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
    }
    print!("{}", so);
    eprint!("{}", se);
    eprintln!("error: the worker ended abnormally ({:?}) and no case reproduces it alone: no verdict", st);
    2
}

fn replay_file(a: &Args) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t = std::fs::read_to_string(&a.pos[1]).expect("read replay file");
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for l in t.lines().filter(|l| !l.starts_with('#')) {
        if let Some(k) = l.find(' ') {
            m.insert(&l[..k], &l[k + 1..]);
        }
    }
    if m.get("mode") == Some(&"plain") && std::env::current_exe().unwrap() != plain_exe() {
        let st = Command::new(plain_exe()).args(["replay", &a.pos[1]]).status().expect("the build without checks");
        return st.code().unwrap_or(2);
    }
    let p = find(m["property"]);
    let g = p.groups.iter().find(|g| g.name == m["group"]).expect("group");
    if m["kind"] != "case" {
        let o = Command::new(std::env::current_exe().unwrap())
            .args(["case", p.id, "--group", g.name, "--index", m["index"], "--seed", m["seed"]])
            .output()
            .unwrap();
        let bad = o.status.signal().is_some() || o.status.code() == Some(1);
        println!("{}", if bad { "reproduced: the case does not finish or crashes" } else { "not reproduced: the property holds on this case" });
        return bad as i32;
    }
    let c: Vec<u64> = m.get("choices").map(|s| s.split_whitespace().map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let (r, notes) = replay(g.f, &c);
    for n in notes {
        println!("  {}", n);
    }
    match r {
        Ok(()) => println!("not reproduced: the property holds on this case"),
        Err(Bad::Discard) => println!("not reproduced: the case is out of the domain"),
        Err(Bad::Fail { msg, .. }) => {
            println!("reproduced: {}", msg);
            println!("VIOLATION property={} replay={}", p.id, a.pos[1]);
            return 1;
        }
    }
    0
}

fn main() {
    let a = args();
    let cmd = a.pos.first().cloned().unwrap_or_default();
    if cmd != "run" {
        install_hook();
    }
    let rc = match cmd.as_str() {
        "run" => run(&a),
        "worker" => worker(&a),
        "case" => one_case(&a),
        "replay" => replay_file(&a),
        "print" => {
            // writes one matrix with the library's own print()
            let n = |k: usize| a.pos[k].parse::<usize>().unwrap();
            let v: Vec<i64> = a.pos[3..].iter().map(|x| x.trim_start_matches('n').parse::<i64>().unwrap() * if x.starts_with('n') { -1 } else { 1 }).collect();
            la::Matrix::new(n(1), n(2), v).print();
            0
        }
        "once" => {
            let v: Vec<u64> = a.pos[1..].iter().map(|x| x.parse().unwrap()).collect();
            println!("{}", props::mem::once(&v));
            0
        }
        "draws" => {
            props::misc::draws(&a.pos[1..]);
            0
        }
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.groups.iter().map(|g| format!("{}:{}", g.name, g.quick)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: la-pbt run|worker|case|replay|list ...");
            2
        }
    };
    props::misc::cleanup();
    std::process::exit(rc);
}
