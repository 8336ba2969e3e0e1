//! Runs the cases of one check: a supervised worker process with one thread per core, a watchdog, and
//! a result file. A case that kills the process or does not end is attributed to its number.
use crate::{checks, dump, reduce as red};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> { a.iter().position(|x| x == k).map(|i| a[i + 1].as_str()) }
const THREADS: usize = 8;
/// a single case that runs longer than this is a hang
const HANG: Duration = Duration::from_secs(25);

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" }
fn clip(s: &str, n: usize) -> String { s.chars().take(n).collect() }

/// check ID --seed S --time SECONDS --cases N --out FILE.json
pub fn check(a: &[String]) {
    let id = &a[0];
    let out = arg(a, "--out").unwrap();
    let prog = format!("{out}.progress");
    let me = std::env::current_exe().unwrap();
    let mut start = 0u64;
    let mut crashes = vec![];
    let t0 = Instant::now();
    let time: u64 = arg(a, "--time").unwrap().parse().unwrap();
    loop {
        std::fs::write(&prog, vec![0xffu8; THREADS * 8]).unwrap();
        let left = time.saturating_sub(t0.elapsed().as_secs()).max(1);
        let st = Command::new(&me).arg("work").args(a).args(["--start", &start.to_string(), "--left", &left.to_string()]).status().unwrap();
        if st.code() == Some(0) { break }
        // which of the cases in flight kills or hangs the process on its own
        let p = std::fs::read(&prog).unwrap();
        let mut next = start;
        let mut found = false;
        for t in 0..THREADS {
            let k = u64::from_le_bytes(p[t * 8..t * 8 + 8].try_into().unwrap());
            if k == u64::MAX { continue }
            next = next.max(k + 1);
            let bad = alone(id, arg(a, "--seed").unwrap(), k);
            if let Some(w) = bad { crashes.push((k, w)); found = true }
        }
        if !found { eprintln!("twcheck: the worker ended with {st:?} and no single case reproduces it"); std::process::exit(4) }
        start = next;
        if crashes.len() >= 3 || t0.elapsed().as_secs() + 2 > time { break }
    }
    // append crashes
    if !crashes.is_empty() {
        let mut s = std::fs::read_to_string(out).unwrap_or_else(|_| format!("{{\"check\":{},\"cases\":{start},\"discarded\":0,\"compared\":0,\"distinct\":0,\"cover\":{{}},\"samples\":[],\"fails\":[]}}", js(id)));
        let c: Vec<String> = crashes.iter().map(|(k, w)| format!("{{\"k\":{k},\"fail\":{}}}", js(w))).collect();
        s = s.trim_end().trim_end_matches('}').to_string();
        s += &format!(",\"crashes\":[{}]}}", c.join(","));
        std::fs::write(out, s).unwrap();
    }
    let _ = std::fs::remove_file(&prog);
}
fn alone(id: &str, seed: &str, k: u64) -> Option<String> {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me).args(["case", id, seed, &k.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() { return match s.code() { Some(0) => None, Some(1) => Some("fails when run alone".into()), _ => Some(format!("the process is killed: {s}")) } }
        if t.elapsed() > HANG { c.kill().ok(); c.wait().ok(); return Some(format!("no result within {} s", HANG.as_secs())) }
        std::thread::sleep(Duration::from_millis(10));
    }
}

#[derive(Default)]
struct Total { cases: u64, discarded: u64, compared: u64, cover: BTreeMap<String, u64>, seen: HashSet<u64>, samples: Vec<String>, fails: Vec<(u64, String)>, gen_errors: Vec<String> }

pub fn work(a: &[String]) {
    let id = a[0].clone();
    let seed: u64 = arg(a, "--seed").unwrap().parse().unwrap();
    let start: u64 = arg(a, "--start").unwrap().parse().unwrap();
    let left = Duration::from_secs(arg(a, "--left").unwrap().parse().unwrap());
    let max: u64 = arg(a, "--cases").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
    let out = arg(a, "--out").unwrap().to_string();
    let prog = std::fs::OpenOptions::new().write(true).open(format!("{out}.progress")).unwrap();
    let prog = Arc::new(prog);
    let next = Arc::new(AtomicU64::new(start));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total::default()));
    let begun: Arc<Vec<AtomicU64>> = Arc::new((0..THREADS).map(|_| AtomicU64::new(u64::MAX)).collect());
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..THREADS {
        let (id, prog, next, stop, total, begun) = (id.clone(), prog.clone(), next.clone(), stop.clone(), total.clone(), begun.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
            while !stop.load(Relaxed) && t0.elapsed() < left {
                let k = next.fetch_add(1, Relaxed);
                if k >= max { break }
                prog.write_all_at(&k.to_le_bytes(), t as u64 * 8).unwrap();
                begun[t].store(t0.elapsed().as_millis() as u64, Relaxed);
                let v = checks::case(&id, seed, k);
                begun[t].store(u64::MAX, Relaxed);
                prog.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 8).unwrap();
                let mut h = 0u64;
                for m in &v.modules { for b in m.iter() { h = (h ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(5) } }
                for b in v.note.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(5) }
                let mut g = total.lock().unwrap();
                g.cases += 1; g.compared += v.compared;
                if v.discarded { g.discarded += 1 } else if v.compared > 0 { g.seen.insert(h); }
                for (k, n) in v.cover { *g.cover.entry(k).or_default() += n }
                if v.note.starts_with("GENERATOR") { g.gen_errors.push(format!("{k}: {}", v.note)) }
                if g.samples.len() < 6 && v.compared > 0 && !v.discarded { let s = format!("case {k}: {} modules, {} comparisons; {}", v.modules.len(), v.compared, clip(&v.note, 300)); g.samples.push(s) }
                if let Some(f) = v.fail { g.fails.push((k, f)); if g.fails.len() >= 5 { stop.store(true, Relaxed) } }
            }
        }).unwrap());
    }
    // watchdog
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        if begun.iter().any(|b| { let b = b.load(Relaxed); b != u64::MAX && now.saturating_sub(b) > HANG.as_millis() as u64 }) { save(&id, &out, &total.lock().unwrap()); std::process::exit(9) }
    }
    save(&id, &out, &total.lock().unwrap());
    std::process::exit(0)
}
fn save(id: &str, out: &str, g: &Total) {
    let mut f = g.fails.clone(); f.sort();
    let cover: Vec<String> = g.cover.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let fails: Vec<String> = f.iter().map(|(k, f)| format!("{{\"k\":{k},\"fail\":{}}}", js(&clip(f, 3000)))).collect();
    let samples: Vec<String> = g.samples.iter().map(|s| js(s)).collect();
    let gens: Vec<String> = g.gen_errors.iter().take(5).map(|s| js(s)).collect();
    std::fs::write(out, format!("{{\"check\":{},\"cases\":{},\"discarded\":{},\"compared\":{},\"distinct\":{},\"cover\":{{{}}},\"samples\":[{}],\"fails\":[{}],\"generator_errors\":[{}]}}", js(id), g.cases, g.discarded, g.compared, g.seen.len(), cover.join(","), samples.join(","), fails.join(","), gens.join(","))).unwrap();
}

/// reduce ID SEED K: shrink the modules of a failing case
pub fn reduce(id: &str, seed: &str, k: &str) {
    let me = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("twred.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (i, s, n) = (id.to_string(), seed.parse().unwrap(), k.parse().unwrap());
    // a killed process loses its modules, so collect them before running
    let mods = checks::modules_of(&i, s, n);
    let mut mods = mods;
    for j in 0..mods.len() {
        let rest: Vec<String> = mods.iter().enumerate().map(|(x, m)| { let f = dir.join(format!("{x}.wasm")); std::fs::write(&f, &m[..]).unwrap(); format!("{x}={}", f.display()) }).collect();
        let bad = |m: &[u8]| {
            std::fs::write(dir.join(format!("{j}.wasm")), m).unwrap();
            let mut c = Command::new(&me).args(["case", id, seed, k]).args(&rest).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            loop { if let Some(s) = c.try_wait().unwrap() { return s.code() != Some(0) && s.code() != Some(3) } if t.elapsed().as_millis() > 6000 { c.kill().ok(); c.wait().ok(); return true } std::thread::sleep(Duration::from_millis(2)) }
        };
        mods[j] = std::rc::Rc::new(red::reduce(&mods[j], &bad));
        std::fs::write(dir.join(format!("{j}.wasm")), &mods[j][..]).unwrap();
    }
    for (j, m) in mods.iter().enumerate() { println!("module {j}:\n{}", dump::dump(m)); std::fs::write(format!("/tmp/red_{j}.wasm"), &m[..]).ok(); }
    let rest: Vec<String> = (0..mods.len()).map(|x| format!("{x}={}", dir.join(format!("{x}.wasm")).display())).collect();
    let o = Command::new(&me).args(["case", id, seed, k]).args(&rest).env("TWCHECK_DUMP", "1").output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    for l in t.lines().rev().take(2).collect::<Vec<_>>().iter().rev() { println!("{l}") }
    std::fs::remove_dir_all(&dir).ok();
}
