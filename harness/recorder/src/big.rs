//! Long sequences of letters, made here out of a few numbers, so that they need
//! not be written out in scenarios and records. Records hold what can be said
//! of them in little space: how often each letter occurs, where it occurs first,
//! and a few short stretches of letters along with what they became.
use crate::{json_bytes, json_list, json_weight, letters::Rec};
use std::collections::HashMap;

fn next(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// n numbers below k
pub fn indices(seed: u64, n: usize, shape: &str, k: usize) -> Vec<usize> {
    let mut s = seed;
    let m = k as u64;
    (0..n).map(|i| match shape {
        "flat" => (next(&mut s) % m) as usize,
        // each half as often as the one before
        "steep" => (next(&mut s).trailing_zeros() as usize).min(k - 1),
        "skew" => { let r = next(&mut s) % (m * m); (m - 1 - ((r as f64).sqrt() as u64).min(m - 1)) as usize }
        "runs" => { let mut t = seed ^ (i as u64 / 997); (next(&mut t) % m) as usize }
        // the others only at the very end
        "last" => if i + k > n { n - 1 - i } else { 0 },
        // the second half of the alphabet only in the second half
        "phases" => { let h = (m / 2).max(1); if i < n / 2 { (next(&mut s) % h) as usize } else { ((m - h.min(m - 1)) as usize + (next(&mut s) % h) as usize).min(k - 1) } }
        _ => panic!("shape"),
    }).collect()
}

/// SEED N SHAPE LETTER...
pub fn letters<L: Rec>(w: &[&str]) -> Vec<L> {
    let al: Vec<L> = w[3..].iter().map(|x| L::parse(&crate::unhex(x))).collect();
    indices(w[0].parse().unwrap(), w[1].parse().unwrap(), w[2], al.len()).into_iter().map(|i| al[i].clone()).collect()
}

/// [letter, times it occurs, index of the first] in the order of first occurrence
pub fn census<L: Rec>(ls: &[L]) -> Vec<(L, usize, usize)> {
    let mut at: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut out: Vec<(L, usize, usize)> = Vec::new();
    for (i, l) in ls.iter().enumerate() {
        let k = *at.entry(l.bytes()).or_insert_with(|| { out.push((l.clone(), 0, i + 1)); out.len() - 1 });
        out[k].1 += 1;
    }
    out
}
pub fn jcensus<L: Rec>(ls: &[L]) -> String {
    json_list(census(ls).into_iter().map(|(l, n, _)| format!("[{},{}]", json_bytes(&l.bytes()), json_weight(n))))
}

/// A short stretch of letters, with the census of all before it and the bytes
/// found where the codes of those say it has to be
pub fn window<L: Rec>(ls: &[L], from: usize, data: &[u8], code_len: impl Fn(&L) -> usize) -> String {
    let to = (from + 30).min(ls.len());
    let bit: usize = ls[..from].iter().map(&code_len).sum();
    let len: usize = ls[from..to].iter().map(&code_len).sum();
    let lo = (bit / 8).min(data.len());
    let hi = ((bit + len + 7) / 8).min(data.len());
    format!("{{\"pre\":{},\"ls\":{},\"off\":{},\"bytes\":{}}}", jcensus(&ls[..from]),
        json_list(ls[from..to].iter().map(|l| json_bytes(&l.bytes()))), bit / 8, json_bytes(&data[lo..hi]))
}

/// The first place where two sequences differ, or -1
pub fn differ<L: PartialEq>(a: &[L], b: &[L]) -> i64 {
    if a == b { return -1 }
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len())) as i64
}
