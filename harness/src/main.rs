//! Contract replay: runs the real crate on concrete inputs and compares with an executable reading of the
//! property. `search P` explores; `run FILE` replays one case; `work` is the child process of `search`.
mod case;
mod edge;
mod gen;
mod graphs;
mod oracle;
mod props;
use case::*;
use props::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn exec(c: &Case) -> Out {
    match catch_unwind(AssertUnwindSafe(|| run(c))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Fail(format!("panic: {}", m))
        }
    }
}
fn fails(c: &Case) -> Option<String> { if let Out::Fail(m) = exec(c) { Some(m) } else { None } }

fn width(p: &str, k: &str) -> usize {
    match k { "edges" | "edges2" | "start" | "pairs" => 2, "ops" => if p.starts_with('G') { 3 } else { 2 }, "path" => 2, "nodes" | "nodes2" => 1, _ => 0 }
}
fn shrink(mut c: Case, mut m: String) -> (Case, String) {
    let t = Instant::now();
    loop {
        let mut better = false;
        for k in ["ops", "edges2", "edges", "start", "pairs", "path", "nodes2", "nodes"] {
            let w = width(&c.prop, k);
            let mut step = (c.get(k).len() / w.max(1)).max(1);
            while step >= 1 {
                let mut i = 0;
                while i * w < c.get(k).len() && w > 0 {
                    if t.elapsed() > Duration::from_secs(4) { return (c, m) }
                    let mut d = c.clone();
                    let v = d.f.get_mut(k).unwrap();
                    let hi = ((i + step) * w).min(v.len());
                    v.drain(i * w..hi);
                    if let Some(x) = fails(&d) { c = d; m = x; better = true } else { i += step }
                }
                if step == 1 { break }
                step /= 2;
            }
        }
        if !better { return (c, m) }
    }
}

fn seed_of(p: &str, seed: u64, i: usize) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (p, seed, i).hash(&mut h);
    h.finish()
}

fn work(p: &str, seed: u64, me: usize, jobs: usize, secs: f64, state: &str) {
    let f = std::fs::File::create(state).unwrap();
    let t = Instant::now();
    let (mut evals, mut nontriv, mut skipped) = (0u64, 0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    // a quarter of the processes look at large inputs
    let big = me % 4 == 1;
    gen::BIG.store(big, std::sync::atomic::Ordering::Relaxed);
    let (mut i, of) = if big { (1 << 40 | me, jobs) } else { (me - (me + 2) / 4, jobs - (jobs + 2) / 4) };
    // and these first at sizes next to the integers the source mentions
    let (mut edge, mut next) = (big, me / 4);
    while t.elapsed().as_secs_f64() < secs {
        let mut r = Rng(seed_of(p, seed, i));
        let mut c = None;
        while edge && c.is_none() {
            match edge::case(p, next, &mut r) { None => edge = false, Some(x) => c = x }
            next += (jobs + 2) / 4;
            if t.elapsed().as_secs_f64() > 0.5 * secs { edge = false }
        }
        let drawn = c.is_none();
        let c = c.unwrap_or_else(|| gen_case(p, i, &mut r));
        let text = c.text();
        let mut rec = format!("{:020} {:010}\n", evals, text.len()).into_bytes();
        rec.extend(text.as_bytes());
        f.write_all_at(&rec, 0).unwrap();
        match exec(&c) {
            Out::Pass => {
                evals += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                if seen.len() < 3_000_000 && seen.insert(h.finish()) && nontrivial(&c) { nontriv += 1; if samples.len() < 2 && i >= gen::SMALL && text.len() < 400 { samples.push(text) } }
            }
            Out::Skip => skipped += 1,
            Out::Fail(m) => {
                // print at once in case shrinking does not return
                println!("FAIL {}\n{}END", m.replace('\n', " "), c.text());
                std::io::stdout().flush().unwrap();
                let (c, m) = shrink(c, m);
                println!("FAIL {}\n{}END", m.replace('\n', " "), c.text());
                return;
            }
        }
        if drawn { i += of }
    }
    println!("DONE {} {} {} {}", evals, nontriv, skipped, if big { 0 } else { i.min(gen::SMALL) });
    for s in samples { println!("SAMPLE {}", s.trim_end().replace('\n', "; ")) }
}

fn spawn(args: &[String], mem_kb: u64) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new("/bin/sh");
    c.arg("-c").arg(format!("ulimit -v {}; exec \"$0\" \"$@\"", mem_kb)).arg(exe).args(args);
    c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap()
}
fn state_case(path: &str) -> Option<(u64, String)> {
    let mut b = vec![];
    std::fs::File::open(path).ok()?.read_to_end(&mut b).ok()?;
    if b.len() < 32 { return None }
    let n: u64 = std::str::from_utf8(&b[0..20]).ok()?.parse().ok()?;
    let l: usize = std::str::from_utf8(&b[21..31]).ok()?.parse().ok()?;
    Some((n, String::from_utf8(b.get(32..32 + l)?.to_vec()).ok()?))
}
/// runs one case alone; None: it passes
fn confirm(dir: &str, text: &str, limit: u64) -> Option<String> {
    let f = format!("{}/confirm", dir);
    std::fs::write(&f, text).unwrap();
    let mut ch = spawn(&["run".into(), f], 4_000_000);
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let mut out = String::new();
            ch.stdout.take().unwrap().read_to_string(&mut out).ok();
            return match st.code() {
                Some(0) => None,
                Some(1) => Some(out.lines().find_map(|l| l.strip_prefix("FAIL ")).unwrap_or("fails").to_string()),
                _ => Some(format!("the process ends abnormally ({})", st)),
            };
        }
        if t.elapsed().as_secs() > limit { ch.kill().ok(); ch.wait().ok(); return Some(format!("no result within {} seconds", limit)) }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn search(p: &str, seed: u64, secs: f64, jobs: usize, dir: &str) -> i32 {
    std::fs::create_dir_all(dir).unwrap();
    let t = Instant::now();
    struct W { ch: std::process::Child, state: String, last: u64, at: Instant, over: bool }
    let mut ws: Vec<W> = (0..jobs).map(|k| {
        let state = format!("{}/state{}", dir, k);
        let ch = spawn(&["work".into(), p.into(), seed.to_string(), k.to_string(), jobs.to_string(), secs.to_string(), state.clone()], 4_000_000);
        W { ch, state, last: u64::MAX, at: Instant::now(), over: false }
    }).collect();
    let (mut evals, mut nontriv, mut skipped, mut small, mut odd) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut fail: Option<(String, String)> = None;
    while fail.is_none() && ws.iter().any(|w| !w.over) {
        for w in ws.iter_mut() {
            if w.over { continue }
            let mut suspect = None;
            if let Some(st) = w.ch.try_wait().unwrap() {
                w.over = true;
                let mut out = String::new();
                w.ch.stdout.take().unwrap().read_to_string(&mut out).ok();
                if let Some((m, c)) = last_fail(&out) { fail = Some((m, c)); break }
                if let Some(l) = out.lines().find(|l| l.starts_with("DONE ")) {
                    let v: Vec<u64> = l[5..].split(' ').map(|x| x.parse().unwrap()).collect();
                    evals += v[0]; nontriv += v[1]; skipped += v[2]; small = small.max(v[3]);
                    samples.extend(out.lines().filter_map(|l| l.strip_prefix("SAMPLE ")).map(|s| s.to_string()));
                } else { suspect = Some(format!("the process ends abnormally ({})", st)) }
            } else if let Some((n, _)) = state_case(&w.state) {
                if n != w.last { w.last = n; w.at = Instant::now() }
                else if w.at.elapsed().as_secs() > 12 {
                    w.ch.kill().ok(); w.ch.wait().ok(); w.over = true;
                    let mut out = String::new();
                    w.ch.stdout.take().unwrap().read_to_string(&mut out).ok();
                    if let Some((m, c)) = last_fail(&out) { fail = Some((m, c)); break }
                    suspect = Some("no result within 12 seconds".into());
                }
            }
            if let Some(s) = suspect {
                if let Some((_, c)) = state_case(&w.state) {
                    match confirm(dir, &c, 40) { Some(m) => { fail = Some((m, c)); break } None => { odd += 1; eprintln!("not reproduced: {}", s) } }
                } else { odd += 1 }
            }
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    for w in ws.iter_mut() { w.ch.kill().ok(); w.ch.wait().ok(); }
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"skipped\":{},\"small_graphs\":{},\"odd\":{},\"wall_s\":{:.2},\"rule\":\"{}\",\"samples\":[{}],\"fail\":{}}}",
        evals, nontriv, skipped, small, odd, t.elapsed().as_secs_f64(), esc(&format!("{}; a quarter of the processes begin with enumerated shapes of sizes next to the integers the source mentions (harness/src/edge.rs)", rule(p))),
        samples.iter().take(4).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        match &fail { None => "null".into(), Some((m, _)) => format!("\"{}\"", esc(&m.chars().filter(|c| !c.is_control()).collect::<String>())) });
    if let Some((_, c)) = &fail { std::fs::write(format!("{}/failing", dir), c).unwrap(); 1 } else { 0 }
}
fn last_fail(out: &str) -> Option<(String, String)> {
    let mut best = None;
    let mut cur: Option<(String, String)> = None;
    for l in out.lines() {
        if let Some(m) = l.strip_prefix("FAIL ") { cur = Some((m.to_string(), String::new())) }
        else if l == "END" { best = cur.take() }
        else if let Some((_, c)) = cur.as_mut() { c.push_str(l); c.push('\n') }
    }
    best
}

fn selftest() -> i32 {
    let mut r = Rng(7);
    for i in 0..4000 {
        let n = 1 + r.below(12);
        let e = gen::shape(&mut r, n, false);
        let mut adj = vec![vec![]; n];
        for &(a, b) in &e { adj[a].push(b); adj[b].push(a) }
        if oracle::brute(n, &adj, 0) != oracle::edmonds(n, &adj) { println!("oracle disagreement on {:?} ({})", e, i); return 2 }
    }
    for p in ALL { for i in 0..300 { let mut r = Rng(i as u64); let c = gen_case(p, i * 17, &mut r); if Case::parse(&c.text()) != Some(c.clone()) { println!("{:?}", c); return 2 } } }
    println!("ok");
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let code = match a.first().map(|s| &s[..]) {
        Some("work") => { work(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]); 0 }
        Some("search") => search(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        Some("run") => match std::fs::read_to_string(&a[1]).ok().and_then(|t| Case::parse(&t)) {
            None => { println!("unreadable case"); 2 }
            Some(c) => match exec(&c) { Out::Pass => { println!("PASS"); 0 } Out::Skip => { println!("SKIP (not a case of this property)"); 0 } Out::Fail(m) => { println!("FAIL {}", m.replace('\n', " ")); 1 } },
        },
        Some("selftest") => selftest(),
        Some("edge") => { // all enumerated cases of a property, with what they cost
            let (mut n, mut skip, mut slow) = (0, 0, vec![]);
            for k in 0.. {
                let mut r = Rng(k as u64);
                match edge::case(&a[1], k, &mut r) { None => break, Some(None) => {} Some(Some(c)) => {
                    let t = Instant::now();
                    match exec(&c) { Out::Pass => n += 1, Out::Skip => { skip += 1; println!("SKIP {}", k) } Out::Fail(m) => { println!("FAIL {} {}", k, m.chars().take(200).collect::<String>()); } }
                    slow.push((t.elapsed().as_millis(), k));
                } }
            }
            slow.sort();
            println!("{}: {} passed, {} skipped, {} ms, slowest {:?}", a[1], n, skip, slow.iter().map(|x| x.0).sum::<u128>(), slow.iter().rev().take(4).collect::<Vec<_>>());
            0
        }
        _ => { println!("usage: vxh search PROPERTY SEED SECONDS JOBS DIR | run FILE | selftest"); 2 }
    };
    std::process::exit(code)
}
