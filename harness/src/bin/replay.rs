//! replay ENTRY HEX...: runs one entry point natively on the given values
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(not(kani))] harness::kani::load(a[2..].iter().map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect());
    #[cfg(not(kani))] for (n, f) in harness::LIST { if *n == a[1] {
        let f = *f;
        match std::panic::catch_unwind(move || f()) { Ok(()) => { println!("REPLAY-PASSES"); std::process::exit(0) } Err(_) => { println!("REPLAY-FAILS"); std::process::exit(1) } }
    } }
    println!("no such entry"); std::process::exit(2)
}
