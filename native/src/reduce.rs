//! Shrinks a failing module by deleting operator ranges that keep it valid (diagnosis aid, not part of any check).
use wasmparser::{Parser, Payload};
fn leb(mut v: usize, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); break } o.push(b | 0x80) } }
fn rleb(b: &[u8], p: &mut usize) -> usize { let (mut v, mut s) = (0usize, 0); loop { let x = b[*p]; *p += 1; v |= ((x & 0x7f) as usize) << s; s += 7; if x & 0x80 == 0 { return v } } }
type Body = (Vec<u8>, Vec<Vec<u8>>);
pub fn split(b: &[u8]) -> Vec<Body> {
    let mut out = vec![];
    for p in Parser::new(0).parse_all(b) {
        if let Ok(Payload::CodeSectionEntry(f)) = p {
            let r = f.range();
            let ops: Vec<usize> = f.get_operators_reader().unwrap().into_iter_with_offsets().map(|x| x.unwrap().1 as usize).collect();
            let s = ops[0];
            let mut v = vec![];
            for (i, o) in ops.iter().enumerate() { let e = ops.get(i + 1).copied().unwrap_or(r.end as usize); v.push(b[*o..e].to_vec()) }
            out.push((b[r.start as usize..s].to_vec(), v));
        }
    }
    out
}
pub fn join(b: &[u8], bodies: &[Body]) -> Vec<u8> {
    let mut o = b[..8].to_vec();
    let mut p = 8;
    while p < b.len() {
        let id = b[p]; p += 1;
        let n = rleb(b, &mut p);
        if id == 10 {
            let mut c = vec![]; leb(bodies.len(), &mut c);
            for (h, v) in bodies { let l = h.len() + v.iter().map(|x| x.len()).sum::<usize>(); leb(l, &mut c); c.extend(h); for x in v { c.extend(x) } }
            o.push(10); leb(c.len(), &mut o); o.extend(c);
        } else { o.push(id); leb(n, &mut o); o.extend(&b[p..p + n]) }
        p += n;
    }
    o
}
pub fn reduce(b: &[u8], bad: &dyn Fn(&[u8]) -> bool) -> Vec<u8> {
    let mut cur = split(b);
    let ok = |x: &[Body]| { let m = join(b, x); wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all()).validate_all(&m).is_ok() && bad(&m) };
    loop {
        let mut any = false;
        for f in 0..cur.len() {
            if cur[f].1.len() > 2 { let mut t = cur.clone(); t[f].1 = vec![vec![0], vec![0x0b]]; if ok(&t) { cur = t; any = true; } }
            let mut len = cur[f].1.len();
            while len >= 1 {
                let mut i = 0;
                while i + len < cur[f].1.len() {
                    let mut t = cur.clone(); t[f].1.drain(i..i + len);
                    if ok(&t) { cur = t; any = true } else { i += 1.max(len / 8) }
                }
                len = if len > 16 { len * 2 / 3 } else { len - 1 };
            }
            // remove matching block/end pairs
            let mut i = 0;
            while i + 1 < cur[f].1.len() {
                if matches!(cur[f].1[i][0], 2..=4) {
                    let mut d = 0; let mut j = i;
                    loop { match cur[f].1[j][0] { 2..=4 => d += 1, 0x0b => d -= 1, _ => () } if d == 0 || j + 1 == cur[f].1.len() { break } j += 1 }
                    let mut t = cur.clone(); t[f].1.remove(j); t[f].1.remove(i);
                    if ok(&t) { cur = t; any = true; continue }
                }
                i += 1;
            }
        }
        if !any { break }
    }
    join(b, &cur)
}
