//! Histories of byte count collections, and counting of letters.
use crate::{big, json_bytes, json_list, json_weight, letters::{Rec, Tri}, unhex};
use crate::session::{sections, threads};
use huff_coding::prelude::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn pairs<I: Iterator<Item = (u8, usize)>>(it: I) -> String {
    // a broken iterator may never end
    json_list(it.take(600).map(|(b, w)| format!("[{},{}]", b, json_weight(w))))
}
/// How many an iterator gives (-1 if it hints at another number), how many it counts, and its last byte (-1 if none)
fn bounded<I: Iterator<Item = (u8, usize)>>(it: impl Fn() -> I) -> String {
    let mut one = it().take(600);
    let mut hints = vec![one.size_hint()];
    while one.next().is_some() { hints.push(one.size_hint()) }
    let n = hints.len() - 1;
    let right = hints.iter().enumerate().all(|(k, (lo, hi))| *lo <= n - k && hi.map_or(true, |hi| hi >= n - k));
    format!("[{},{},{}]", if right { n as i64 } else { -1 }, it().count(), it().last().map_or(-1, |(b, _)| b as i64))
}
fn via_trait<W: Weights<u8>>(w: &W) -> (usize, bool, String) {
    let gets = json_list((0..=255u8).filter_map(|b| w.get(&b).map(|x| format!("[{},{}]", b, json_weight(*x)))));
    (w.len(), w.is_empty(), gets)
}

/// Every view of the collection
fn view(w: &ByteWeights) -> String {
    let gets = json_list((0..=255u8).filter_map(|b| w.get(&b).map(|x| format!("[{},{}]", b, json_weight(*x)))));
    let mut m = *w;
    let mgets = json_list((0..=255u8).filter_map(|b| m.get_mut(&b).map(|x| format!("[{},{}]", b, json_weight(*x)))));
    let (tlen, tempty, tgets) = via_trait(w);
    let mut ends = w.iter();
    for _ in 0..600 { if ends.next().is_none() { break } }
    let fused = ends.next().is_none() && ends.next().is_none();
    // what comes of calls other than next
    let evens = [pairs(w.iter().step_by(2)), pairs(w.into_iter().step_by(2)), pairs((*w).into_iter().step_by(2))].join(",");
    let counts = json_list([bounded(|| w.iter()), bounded(|| w.into_iter()), bounded(|| (*w).into_iter())].to_vec().into_iter());
    format!("{{\"evens\":[{}],\"counts\":{},\"gets\":{},\"mgets\":{},\"tgets\":{},\"len\":{},\"tlen\":{},\"empty\":{},\"tempty\":{},\"iter\":{},\"refiter\":{},\"intoiter\":{},\"fused\":{}}}",
        evens, counts, gets, mgets, tgets, w.len(), tlen, w.is_empty(), tempty,
        pairs(w.iter()), pairs(w.into_iter()), pairs((*w).into_iter()), fused)
}

const NO_VIEW: &str = "{\"evens\":[],\"counts\":[],\"gets\":[],\"mgets\":[],\"tgets\":[],\"len\":0,\"tlen\":0,\"empty\":true,\"tempty\":true,\"iter\":[],\"refiter\":[],\"intoiter\":[],\"fused\":true}";

fn count<L: Rec>(words: &[&str], seeded: bool) -> String {
    let ls: Vec<L> = words.iter().map(|w| L::parse(&unhex(w))).collect();
    let m: Vec<(L, usize)> = if seeded {
        build_weights_map_with_hasher(&ls, std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default()).into_iter().collect()
    } else {
        // every lookup and update through the trait agrees with the map's own
        let map = build_weights_map(&ls);
        let mut m = map.clone();
        let ks: Vec<(L, usize)> = map.iter().map(|(l, w)| (l.clone(), *w)).collect();
        if Weights::len(&map) != ks.len() || Weights::is_empty(&map) != ks.is_empty() { return "[[[],[]]]".into() }
        for (l, w) in &ks {
            if let Some(x) = Weights::get_mut(&mut m, l) { *x = w / 2 }
        }
        for l in &ls { if let Some(w) = Weights::get(&m, l) { if *w != map[l] / 2 { return "[[[],[]]]".into() } } else { return "[[[],[]]]".into() } }
        ks.iter().map(|(l, _)| (l.clone(), Weights::get(&map, l).copied().unwrap_or(0))).collect()
    };
    json_list(m.iter().map(|(l, w)| format!("[{},{}]", json_bytes(&l.bytes()), json_weight(*w))))
}

pub fn run(body: &[Vec<&str>]) -> Vec<String> {
    let sections = sections(body);
    let mut regs: HashMap<usize, ByteWeights> = HashMap::new();
    let mut events = go(&mut regs, sections[0]);
    // each thread begins with all there are
    if sections.len() > 1 { events.push(threads(&sections[1..], |part| go(&mut regs.clone(), part))) }
    events
}

fn go(regs: &mut HashMap<usize, ByteWeights>, body: &[Vec<&str>]) -> Vec<String> {
    let mut events = Vec::new();
    for w in body {
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        let old = regs.clone();
        let at = |i: usize| old[&n(i)];
        // (arguments as JSON, register written, result)
        let (head, dst, res): (String, usize, Result<(ByteWeights, String), ()>) = match w[0] {
            // new D | default D | from D BYTES | threaded D BYTES N
            "new" | "default" => {
                let f = w[0] == "new";
                (String::new(), n(1), guarded(|| if f { ByteWeights::new() } else { ByteWeights::default() }))
            }
            "from" => { let b = unhex(w[2]); (format!("\"bytes\":{},", json_bytes(&b)), n(1), guarded(|| ByteWeights::from_bytes(&b))) }
            "threaded" => {
                let b = unhex(w[2]);
                (format!("\"bytes\":{},\"n\":{},", json_bytes(&b), n(3)), n(1), guarded(|| ByteWeights::threaded_from_bytes(&b, n(3))))
            }
            // bigfrom D SEED N SHAPE BYTE... | bigthreaded D THREADS SEED N SHAPE BYTE...
            "bigfrom" | "bigthreaded" => {
                let t = w[0] == "bigthreaded";
                let b: Vec<u8> = big::letters(&w[if t { 3 } else { 2 }..]);
                let mut census: Vec<_> = big::census(&b);
                census.sort_by_key(|c| c.0);
                (format!("\"bytes\":{},\"n\":{},", json_list(census.iter().map(|c| format!("[{},{}]", c.0, json_weight(c.1)))), if t { n(2) } else { 0 }), n(1),
                    guarded(|| if t { ByteWeights::threaded_from_bytes(&b, n(2)) } else { ByteWeights::from_bytes(&b) }))
            }
            // bigcount TYPE SEED N SHAPE LETTER...
            "bigcount" => {
                fn go<L: Rec>(w: &[&str]) -> (String, Result<String, ()>) {
                    let ls: Vec<L> = big::letters(w);
                    (big::jcensus(&ls), catch_unwind(AssertUnwindSafe(|| json_list(build_weights_map(&ls).into_iter()
                        .map(|(l, n)| format!("[{},{}]", json_bytes(&l.bytes()), json_weight(n)))))).map_err(|_| ()))
                }
                let (want, m) = match w[1] { "u8" => go::<u8>(&w[2..]), "u64" => go::<u64>(&w[2..]), "char" => go::<char>(&w[2..]), "string" => go::<String>(&w[2..]), _ => panic!() };
                let (res, m) = match m { Ok(m) => ("ok", m), Err(()) => ("panic", "[]".into()) };
                events.push(format!("{{\"op\":\"bigcount\",\"w\":{},\"res\":\"{}\",\"map\":{}}}", want, res, m));
                if res == "panic" { break }
                continue
            }
            // add D A B | addassign D B | addref D B | copy D A
            "add" => (format!("\"a\":{},\"b\":{},", n(2), n(3)), n(1), guarded(|| at(2) + at(3))),
            "addassign" => (format!("\"b\":{},", n(2)), n(1), guarded(|| { let mut a = at(1); a += at(2); a })),
            "addref" => (format!("\"b\":{},", n(2)), n(1), guarded(|| { let mut a = at(1); let b = at(2); a.add_byte_weights(&b); a })),
            "copy" => (format!("\"a\":{},", n(2)), n(1), guarded(|| at(2))),
            // set D BYTE WEIGHT: write through get_mut, if it gives a reference
            "set" | "tset" => {
                let (b, x) = (n(2) as u8, n(3));
                let mut a = at(1);
                let t = w[0] == "tset";
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let r = if t { Weights::get_mut(&mut a, &b) } else { a.get_mut(&b) };
                    let hit = match r { Some(r) => { *r = x; 1 } None => 0 };
                    let v = view(&a);
                    (hit, v)
                }));
                let hit = r.as_ref().map(|r| r.0).unwrap_or(0);
                (format!("\"byte\":{},\"w\":{},\"hit\":{},", b, json_weight(x), hit), n(1), r.map(|r| (a, r.1)).map_err(|_| ()))
            }
            // eq A B
            "eq" => {
                let r = catch_unwind(AssertUnwindSafe(|| (at(1) == at(2), at(1) != at(2))));
                let (res, e, ne) = match r { Ok((e, ne)) => ("ok", e, ne), Err(_) => ("panic", false, false) };
                events.push(format!("{{\"op\":\"eq\",\"a\":{},\"b\":{},\"res\":\"{}\",\"eq\":{},\"ne\":{}}}", n(1), n(2), res, e, ne));
                if res == "panic" { break }
                continue
            }
            // count TYPE SEEDED LETTERS...
            "count" => {
                let seeded = w[2] == "1";
                let f: fn(&[&str], bool) -> String = match w[1] {
                    "u8" => count::<u8>, "i32" => count::<i32>, "u128" => count::<u128>, "char" => count::<char>,
                    "string" => count::<String>, "str" => count::<&'static str>, "tri" => count::<Tri>, _ => panic!(),
                };
                let r = catch_unwind(|| f(&w[3..], seeded));
                let ls = json_list(w[3..].iter().map(|x| json_bytes(&unhex(x))));
                let (res, m) = match r { Ok(m) => ("ok", m), Err(_) => ("panic", "[]".into()) };
                events.push(format!("{{\"op\":\"count\",\"letters\":{},\"res\":\"{}\",\"map\":{}}}", ls, res, m));
                if res == "panic" { break }
                continue
            }
            _ => panic!("unknown op {}", w[0]),
        };
        match res {
            Ok((bw, v)) => {
                events.push(format!("{{\"op\":\"{}\",\"d\":{},{}\"res\":\"ok\",\"view\":{}}}", w[0], dst, head, v));
                regs.insert(dst, bw);
            }
            Err(()) => {
                events.push(format!("{{\"op\":\"{}\",\"d\":{},{}\"res\":\"panic\",\"view\":{}}}", w[0], dst, head, NO_VIEW));
                break
            }
        }
    }
    events
}

fn guarded(f: impl FnOnce() -> ByteWeights) -> Result<(ByteWeights, String), ()> {
    catch_unwind(AssertUnwindSafe(|| { let w = f(); let v = view(&w); (w, v) })).map_err(|_| ())
}
