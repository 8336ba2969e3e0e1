mod checks;
mod custom;
mod dump;
mod pgen;
mod reduce;
mod refint;
mod runner;
mod world;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("TWCHECK_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || match a[1].as_str() {
        "check" => runner::check(&a[2..]),
        "work" => runner::work(&a[2..]),
        // case ID SEED K [n=file ...]: one case, optionally with modules replaced
        "case" => {
            checks::override_modules(&a[5..]);
            let v = checks::case(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            if std::env::var("TWCHECK_DUMP").is_ok() { for (i, m) in v.modules.iter().enumerate() { println!("module {i}:\n{}", dump::dump(m)); } println!("{}", v.note); }
            match v.fail { Some(f) => { println!("FAIL {f}"); std::process::exit(1) } None => println!("ok compared {} discarded {}", v.compared, v.discarded) }
        }
        "reduce" => runner::reduce(&a[2], &a[3], &a[4]),
        "scan" => { // scan ID SEED FROM N
            let (seed, from, n): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let (mut disc, mut fails, mut cmp) = (0, 0, 0);
            for k in from..from + n {
                let t = std::time::Instant::now();
                if std::env::var("TWCHECK_TRACE").is_ok() { println!("{k}"); }
                let v = checks::case(&a[2], seed, k);
                if t.elapsed().as_millis() > 1500 { println!("{k} slow {:?}", t.elapsed()) }
                cmp += v.compared; disc += v.discarded as u64;
                if v.note.starts_with("GENERATOR") { println!("{k} {}", v.note) }
                if let Some(f) = v.fail { fails += 1; println!("{k} {f}"); if fails > 40 { break } }
            }
            println!("cases {n} discarded {disc} fails {fails} compared {cmp}");
        }
        x => panic!("unknown command {x}"),
    }).unwrap();
    if h.join().is_err() { std::process::exit(3) }
}
