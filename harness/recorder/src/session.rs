//! Trees, their binary form, compression and the byte form of compressed data.
use crate::{big, branches, json_bytes, json_list, json_weight, letters::Rec, unhex};
use huff_coding::bitvec::prelude::{BitVec, Msb0};
use huff_coding::prelude::*;
use std::any::{Any, TypeId};
use std::collections::{hash_map::DefaultHasher, HashMap};
use std::hash::BuildHasherDefault;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Bits = BitVec<Msb0, u8>;

pub enum Obj<L: HuffLetter> {
    Tree(HuffTree<L>),
    Bits(Bits),
    Comp(CompressData<L>),
    Bytes(Vec<u8>),
    Letters,
}

/// Weights that hand out their letters in the order they are listed in
#[derive(Clone, PartialEq, Eq)]
struct ListWeights<L: HuffLetter>(Vec<(L, usize)>);
impl<L: HuffLetter> IntoIterator for ListWeights<L> {
    type Item = (L, usize);
    type IntoIter = std::vec::IntoIter<(L, usize)>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl<L: HuffLetter> Weights<L> for ListWeights<L> {
    fn get(&self, l: &L) -> Option<&usize> { self.0.iter().find(|p| p.0 == *l).map(|p| &p.1) }
    fn get_mut(&mut self, l: &L) -> Option<&mut usize> { self.0.iter_mut().find(|p| p.0 == *l).map(|p| &mut p.1) }
    fn len(&self) -> usize { self.0.len() }
    fn is_empty(&self) -> bool { self.0.is_empty() }
}

pub fn jl<L: Rec>(l: &L) -> String { json_bytes(&l.bytes()) }
pub fn jbits(b: &Bits) -> String {
    let v: Vec<u8> = b.iter().map(|b| *b as u8).collect();
    json_bytes(&v)
}

/// The codes of a tree nested thousands deep, which may be refused and is in no scenario whose
/// codes are judged, have hundreds of millions of bits: the rest are not written down
const MANY_BITS: usize = 4_000_000;

/// Every branch in depth-first order: [joint, letter, weight, has code, code, has letter]
fn dump_tree<L: Rec>(t: &HuffTree<L>) -> (String, usize) { dump_branch(t.root()) }
pub fn dump_branch<L: Rec>(top: &HuffBranch<L>) -> (String, usize) {
    let mut out = Vec::new();
    let mut odd = 0;
    let mut bits = 0;
    let mut stack = vec![top];
    while let Some(b) = stack.pop() {
        let (l, r) = (b.left_child(), b.right_child());
        let joint = l.is_some();
        let mut ends = true;
        let kids: Vec<*const HuffBranch<L>> = b.children_iter().map(|mut it| {
            let kids = it.by_ref().take(9).map(|c| c as *const _).collect();
            ends = it.next().is_none() && it.next().is_none();
            kids
        }).unwrap_or_default();
        let direct: Vec<*const HuffBranch<L>> = l.iter().chain(r.iter()).map(|c| *c as *const _).collect();
        if l.is_some() != r.is_some() || b.has_children() != joint || kids != direct || !ends
            || b.children_iter().is_some() != joint { odd += 1 }
        out.push(format!("[{},{},{},{},{},{}]",
            joint as u8,
            b.leaf().letter().map(|l| jl(l)).unwrap_or_else(|| "[]".into()),
            json_weight(b.leaf().weight()),
            b.leaf().code().is_some() as u8,
            b.leaf().code().map(|c| {
                bits += c.len();
                if bits < MANY_BITS || c.len() <= 300 { jbits(c) } else { "[]".into() }
            }).unwrap_or_else(|| "[]".into()),
            b.leaf().letter().is_some() as u8,
        ));
        if let Some(r) = r { stack.push(r) }
        if let Some(l) = l { stack.push(l) }
        if out.len() > 400_000 { odd += 1; break }
    }
    (json_list(out), odd)
}

pub fn tree_fields<L: Rec>(t: &HuffTree<L>) -> String {
    let (tree, odd) = dump_tree(t);
    let map = t.read_codes();
    let hashed = t.read_codes_with_hasher(BuildHasherDefault::<DefaultHasher>::default());
    let odd = odd + (hashed.len() != map.len() || map.iter().any(|(l, c)| hashed.get(l) != Some(c))) as usize;
    let many = map.values().map(|c| c.len()).sum::<usize>() >= MANY_BITS && map.values().any(|c| c.len() > 300);
    let codes = json_list(map.iter().filter(|_| !many).map(|(l, c)| format!("[{},{}]", jl(l), jbits(c))));
    format!("\"tree\":{},\"odd\":{},\"codes\":{}", tree, odd, codes)
}
const NO_TREE: &str = "\"tree\":[],\"odd\":0,\"codes\":[]";

fn comp_fields<L: Rec>(c: &CompressData<L>) -> String {
    let fields = |c: &CompressData<L>| format!("{},\"data\":{},\"pad\":{}", tree_fields(c.huff_tree()), json_bytes(c.comp_bytes()), c.padding_bits());
    // taken apart and put together it is the same (maps list their entries in any order)
    let (bytes, pad, tree) = c.clone().into_inner();
    let again = CompressData::new(bytes, pad, tree);
    let odd = again.comp_bytes() != c.comp_bytes() || again.padding_bits() != c.padding_bits()
        || dump_tree(again.huff_tree()) != dump_tree(c.huff_tree());
    if odd { fields(c).replace("\"odd\":", "\"odd\":1") } else { fields(c) }
}
fn no_comp() -> String { format!("{},\"data\":[],\"pad\":0", NO_TREE) }

fn letters<L: Rec>(words: &[&str]) -> Vec<L> { words.iter().map(|w| L::parse(&unhex(w))).collect() }
pub fn jletters<L: Rec>(ls: &[L]) -> String { json_list(ls.iter().map(jl)) }

/// `Done(event, object, go on)`
struct Done<L: HuffLetter>(String, Option<Obj<L>>, bool);

fn reg<'a, L: HuffLetter>(regs: &'a [Arc<Obj<L>>], s: &str) -> &'a Obj<L> { &*regs[s.parse::<usize>().unwrap() - 1] }

fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }

fn from_byte_weights<L: Rec>(ws: &[(L, usize)]) -> HuffTree<L> {
    assert!(TypeId::of::<L>() == TypeId::of::<u8>());
    let bytes: Vec<u8> = ws.iter().map(|p| p.0.bytes()[0]).collect();
    let mut bw = ByteWeights::from_bytes(&bytes);
    for (b, (_, w)) in bytes.iter().zip(ws) { *bw.get_mut(b).unwrap() = *w }
    let t: Box<dyn Any> = Box::new(HuffTree::<u8>::from_weights(bw));
    *t.downcast::<HuffTree<L>>().unwrap()
}

/// big TREE SEED N SHAPE LETTER...   (TREE 0: the letters' own)
fn big_op<L: Rec>(regs: &[Arc<Obj<L>>], w: &[&str], cont: impl Fn(&CompressData<L>, &[L]) -> String) -> Done<L> {
    let ls: Vec<L> = big::letters(&w[2..]);
    let census = big::census(&ls);
    let head = format!("\"op\":\"big\",\"s\":{},\"w\":{},\"first\":{}", w[1],
        json_list(census.iter().map(|(l, n, _)| format!("[{},{}]", jl(l), json_weight(*n)))),
        json_list(census.iter().map(|c| c.2.to_string())));
    let r = guarded(|| {
        let c = if w[1] == "0" { compress(&ls) } else {
            let t = match reg(regs, w[1]) { Obj::Tree(t) => t.clone(), Obj::Comp(c) => c.huff_tree().clone(), _ => panic!() };
            compress_with_tree(&ls, t)?
        };
        let codes = c.huff_tree().read_codes();
        let len = |l: &L| codes.get(l).map(|c| c.len()).unwrap_or(0);
        let n = ls.len();
        let wins = json_list([0, n / 3, n / 2 + 5, n - n.min(30)].iter().map(|&k| big::window(&ls, k, c.comp_bytes(), len)));
        let back = match guarded(|| decompress(&c)) { Ok(b) => big::differ(&ls, &b), Err(()) => -2 };
        Ok((format!("\"missing\":[],{},\"pad\":{},\"dlen\":{},\"wins\":{},\"back\":{},{}", tree_fields(c.huff_tree()),
            c.padding_bits(), c.comp_bytes().len(), wins, back, cont(&c, &ls)), c))
    });
    let none = |l: &str| format!("\"missing\":{},{},\"pad\":0,\"dlen\":0,\"wins\":[],\"back\":0,{}", l, NO_TREE, NO_CONT);
    match r {
        Ok(Ok((f, c))) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Comp(c)), true),
        Ok(Err(e)) => { let e: huff_coding::comp::errors::CompressError<L> = e; Done(format!("{{{},\"res\":\"err\",{}}}", head, none(&jl(e.missing_letter()))), None, false) }
        Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, none("[]")), None, false),
    }
}
const NO_CONT: &str = "\"cont\":0,\"prefix\":[],\"tail\":0,\"again\":0";
/// The byte form up to the data, whether the data follows and nothing else, and
/// where what is read back and decompressed differs from the letters
fn big_cont<L: Rec + HuffLetterAsBytes>(c: &CompressData<L>, ls: &[L]) -> String {
    let b = match guarded(|| c.to_bytes()) { Ok(b) => b, Err(()) => return NO_CONT.replace("0,", "2,") };
    let tail = b.len() >= c.comp_bytes().len() && b[b.len() - c.comp_bytes().len()..] == *c.comp_bytes();
    let prefix = &b[..b.len().saturating_sub(c.comp_bytes().len())];
    let again = match guarded(|| CompressData::<L>::try_from_bytes(&b).map(|c| decompress(&c)).map_err(|_| ())) {
        Ok(Ok(back)) => big::differ(ls, &back), Ok(Err(())) => -3, Err(()) => -2 };
    format!("\"cont\":1,\"prefix\":{},\"tail\":{},\"again\":{}", json_bytes(&prefix[..prefix.len().min(70_000)]), tail as u8, again)
}

fn plain_op<L: Rec>(regs: &[Arc<Obj<L>>], w: &[&str]) -> Option<Done<L>> {
    let tree_of = |s: &str| match reg(regs, s) { Obj::Tree(t) => t.clone(), Obj::Comp(c) => c.huff_tree().clone(), _ => panic!() };
    Some(match w[0] {
        // build VIA LETTER:WEIGHT...
        "build" => {
            let via = w[1];
            let ws: Vec<(L, usize)> = w[2..].iter().map(|p| {
                let mut it = p.split(':');
                (L::parse(&unhex(it.next().unwrap())), it.next().unwrap().parse().unwrap())
            }).collect();
            let js = json_list(ws.iter().map(|(l, x)| format!("[{},{}]", jl(l), json_weight(*x))));
            let r = guarded(|| {
                let t = match via {
                    "map" => HuffTree::from_weights(ws.iter().cloned().collect::<HashMap<L, usize>>()),
                    "list" => HuffTree::from_weights(ListWeights(ws.clone())),
                    // letters of type u8 only, weights above 0
                    "bytes" => from_byte_weights(&ws),
                    _ => panic!("via"),
                };
                let f = tree_fields(&t);
                (t, f)
            });
            let head = format!("\"op\":\"build\",\"via\":\"{}\",\"w\":{}", via, js);
            match r {
                Ok((t, f)) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Tree(t)), true),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, NO_TREE), None, false),
            }
        }
        // buildl LETTER...   (count the letters, then build)
        "buildl" => {
            let ls: Vec<L> = letters(&w[1..]);
            let r = guarded(|| { let t = HuffTree::from_weights(build_weights_map(&ls)); let f = tree_fields(&t); (t, f) });
            let head = format!("\"op\":\"buildl\",\"letters\":{}", jletters(&ls));
            match r {
                Ok((t, f)) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Tree(t)), true),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, NO_TREE), None, false),
            }
        }
        // comp LETTER...   |   compt TREE LETTER...
        "comp" | "compt" => {
            let own = w[0] == "comp";
            let ls: Vec<L> = letters(if own { &w[1..] } else { &w[2..] });
            let r = guarded(|| {
                let c = if own { Ok(compress(&ls)) } else { compress_with_tree(&ls, tree_of(w[1])) };
                let f = match &c { Ok(c) => comp_fields(c), Err(_) => no_comp() };
                (c, f)
            });
            let head = if own { format!("\"op\":\"comp\",\"letters\":{}", jletters(&ls)) }
                else { format!("\"op\":\"compt\",\"s\":{},\"letters\":{}", w[1], jletters(&ls)) };
            match r {
                Ok((Ok(c), f)) => Done(format!("{{{},\"res\":\"ok\",\"missing\":[],{}}}", head, f), Some(Obj::Comp(c)), true),
                Ok((Err(e), f)) => Done(format!("{{{},\"res\":\"err\",\"missing\":{},{}}}", head, jl(e.missing_letter()), f), None, false),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",\"missing\":[],{}}}", head, no_comp()), None, false),
            }
        }
        // mkcomp TREE PADDING BYTES
        "mkcomp" => {
            let (pad, data) = (w[2].parse::<u8>().unwrap(), unhex(w[3]));
            let head = format!("\"op\":\"mkcomp\",\"s\":{},\"bytes\":{},\"want\":{}", w[1], json_bytes(&data), pad);
            match guarded(|| { let c = CompressData::new(data, pad, tree_of(w[1])); let f = comp_fields(&c); (c, f) }) {
                Ok((c, f)) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Comp(c)), true),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, no_comp()), None, false),
            }
        }
        "decomp" => {
            let c = match reg(regs, w[1]) { Obj::Comp(c) => c, _ => panic!() };
            let (res, ls) = match guarded(|| decompress(c)) { Ok(ls) => ("ok", ls), Err(()) => ("panic", vec![]) };
            Done(format!("{{\"op\":\"decomp\",\"s\":{},\"res\":\"{}\",\"letters\":{}}}", w[1], res, jletters(&ls)), Some(Obj::Letters), res == "ok")
        }
        _ => return None,
    })
}

/// A number as written by the standard library: 1 if negative, then its digits
fn decimal<L: Rec>(l: &L) -> String {
    let s = format!("{:?}", l);
    let neg = s.starts_with('-') as u8;
    json_list(std::iter::once(neg.to_string()).chain(s.as_bytes().iter().filter(|b| b.is_ascii_digit()).map(|b| (b - b'0').to_string())))
}

fn bytes_op<L: Rec + HuffLetterAsBytes>(regs: &[Arc<Obj<L>>], w: &[&str]) -> Done<L> {
    match w[0] {
        "asbin" => {
            let t = match reg(regs, w[1]) { Obj::Tree(t) => t, Obj::Comp(c) => c.huff_tree(), _ => panic!() };
            match guarded(|| t.as_bin()) {
                Ok(b) => Done(format!("{{\"op\":\"asbin\",\"s\":{},\"res\":\"ok\",\"bits\":{}}}", w[1], jbits(&b)), Some(Obj::Bits(b)), true),
                Err(()) => Done(format!("{{\"op\":\"asbin\",\"s\":{},\"res\":\"panic\",\"bits\":[]}}", w[1]), None, false),
            }
        }
        // bits OFFSET 0101...   (OFFSET bits precede the vector in its memory)
        "bits" => {
            let off: usize = w[1].parse().unwrap();
            let txt = if w[2] == "-" { "" } else { w[2] };
            let mut all: Bits = std::iter::repeat(true).take(off).collect();
            all.extend(txt.bytes().map(|c| c == b'1'));
            let b = if off == 0 { all } else { Bits::from_bitslice(&all[off..]) };
            Done(format!("{{\"op\":\"bits\",\"off\":{},\"bits\":{}}}", off, jbits(&b)), Some(Obj::Bits(b)), true)
        }
        "frombin" => {
            let b = match reg(regs, w[1]) { Obj::Bits(b) => b.clone(), _ => panic!() };
            let r = guarded(|| HuffTree::<L>::try_from_bin(b).map(|t| { let f = tree_fields(&t); (t, f) }).map_err(|e| e.to_string()));
            let head = format!("\"op\":\"frombin\",\"s\":{}", w[1]);
            match r {
                Ok(Ok((t, f))) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Tree(t)), true),
                Ok(Err(_)) => Done(format!("{{{},\"res\":\"err\",{}}}", head, NO_TREE), None, false),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, NO_TREE), None, false),
            }
        }
        "tobytes" => {
            let c = match reg(regs, w[1]) { Obj::Comp(c) => c, _ => panic!() };
            match guarded(|| c.to_bytes()) {
                Ok(b) => Done(format!("{{\"op\":\"tobytes\",\"s\":{},\"res\":\"ok\",\"bytes\":{}}}", w[1], json_bytes(&b)), Some(Obj::Bytes(b)), true),
                Err(()) => Done(format!("{{\"op\":\"tobytes\",\"s\":{},\"res\":\"panic\",\"bytes\":[]}}", w[1]), None, false),
            }
        }
        "bytes" => {
            let b = unhex(w[1]);
            Done(format!("{{\"op\":\"bytes\",\"bytes\":{}}}", json_bytes(&b)), Some(Obj::Bytes(b)), true)
        }
        "frombytes" => {
            let b = match reg(regs, w[1]) { Obj::Bytes(b) => b, _ => panic!() };
            let r = guarded(|| CompressData::<L>::try_from_bytes(b).map(|c| { let f = comp_fields(&c); (c, f) }).map_err(|e| e.to_string()));
            let head = format!("\"op\":\"frombytes\",\"s\":{}", w[1]);
            match r {
                Ok(Ok((c, f))) => Done(format!("{{{},\"res\":\"ok\",{}}}", head, f), Some(Obj::Comp(c)), true),
                Ok(Err(_)) => Done(format!("{{{},\"res\":\"err\",{}}}", head, no_comp()), None, false),
                Err(()) => Done(format!("{{{},\"res\":\"panic\",{}}}", head, no_comp()), None, false),
            }
        }
        // lbytes LETTER: a letter's bytes | lfrom BYTES: bytes' letter
        "lbytes" => {
            let l = L::parse(&unhex(w[1]));
            let (res, b) = match guarded(|| l.as_be_bytes()) { Ok(b) => ("ok", json_bytes(&b)), Err(()) => ("panic", "[]".into()) };
            Done(format!("{{\"op\":\"lbytes\",\"v\":{},\"res\":\"{}\",\"bytes\":{}}}", decimal(&l), res, b), Some(Obj::Letters), res == "ok")
        }
        "lfrom" => {
            let b = unhex(w[1]);
            let (res, v) = match guarded(|| L::try_from_be_bytes(&b).map_err(|e| e.to_string())) {
                Ok(Ok(l)) => ("ok", decimal(&l)), Ok(Err(_)) => ("err", "[0]".into()), Err(()) => ("panic", "[0]".into()) };
            Done(format!("{{\"op\":\"lfrom\",\"bytes\":{},\"res\":\"{}\",\"v\":{}}}", json_bytes(&b), res, v), Some(Obj::Letters), res != "panic")
        }
        // filewrite IN OUT: the letters in IN, compressed and serialised, go to OUT
        // fileread IN OUT: the bytes in IN, read and decompressed, go to OUT
        "filewrite" | "fileread" => {
            let data = std::fs::read(w[1]).expect("in");
            let r = guarded(|| if w[0] == "filewrite" {
                let ls: Vec<L> = data.iter().map(|b| L::parse(&[*b])).collect();
                Ok(compress(&ls).to_bytes())
            } else {
                CompressData::<L>::try_from_bytes(&data).map(|c| decompress(&c).iter().map(|l| l.bytes()[0]).collect()).map_err(|_| ())
            });
            let res = match r { Ok(Ok(b)) => { std::fs::write(w[2], b).expect("out"); "ok" } Ok(Err(())) => "err", Err(()) => "panic" };
            Done(format!("{{\"op\":\"{}\",\"res\":\"{}\"}}", w[0], res), None, false)
        }
        _ => panic!("unknown op {}", w[0]),
    }
}

fn run<L: Rec>(body: &[Vec<&str>], op: impl Fn(&[Arc<Obj<L>>], &[&str]) -> Done<L> + Sync) -> Vec<String> {
    // the registers an object is shared through
    fn go<L: Rec>(regs: &mut Vec<Arc<Obj<L>>>, body: &[Vec<&str>], op: impl Fn(&[Arc<Obj<L>>], &[&str]) -> Done<L>) -> (Vec<String>, bool) {
        let mut events = Vec::new();
        for w in body {
            let Done(event, obj, go_on) = op(&*regs, w);
            events.push(event);
            if let Some(o) = obj { regs.push(Arc::new(o)) }
            if !go_on { return (events, false) }
        }
        (events, true)
    }
    let sections = sections(body);
    let mut regs = Vec::new();
    let (mut events, go_on) = go(&mut regs, sections[0], &op);
    if go_on && sections.len() > 1 { events.push(threads(&sections[1..], |part| go(&mut regs.clone(), part, &op).0)) }
    events
}

/// What comes before the first `thread` line, and what comes after each
pub fn sections<'a, 'b>(body: &'a [Vec<&'b str>]) -> Vec<&'a [Vec<&'b str>]> { body.split(|w| w[0] == "thread").collect() }

/// One thread for each section, all of them let go at once. What each recorded, in one event
#[cfg(feature = "share")]
pub fn threads<'b>(parts: &[&[Vec<&'b str>]], go: impl Fn(&[Vec<&'b str>]) -> Vec<String> + Sync) -> String {
    let gate = std::sync::Barrier::new(parts.len());
    let all: Vec<Vec<String>> = std::thread::scope(|s| {
        let (gate, go) = (&gate, &go);
        let running: Vec<_> = parts.iter().map(|part| s.spawn(move || { gate.wait(); go(part) })).collect();
        running.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    format!("{{\"par\":{}}}", json_list(all.into_iter().map(|ev| format!("[{}]", ev.join(",")))))
}
#[cfg(not(feature = "share"))]
pub fn threads<'b>(_: &[&[Vec<&'b str>]], _: impl Fn(&[Vec<&'b str>]) -> Vec<String>) -> String { panic!("built without `share`") }

pub fn run_plain<L: Rec>(body: &[Vec<&str>]) -> Vec<String> {
    if body[0][0] == "any" { return branches::run::<L>(body, |_| None) }
    run::<L>(body, |r, w| if w[0] == "big" { big_op(r, w, |_, _| NO_CONT.into()) } else { plain_op(r, w).expect("op") })
}

pub fn run_bytes<L: Rec + HuffLetterAsBytes>(body: &[Vec<&str>]) -> Vec<String> {
    if body[0][0] == "any" { return branches::run::<L>(body, |t| Some(t.as_bin())) }
    run::<L>(body, |r, w| if w[0] == "big" { big_op(r, w, big_cont) } else { plain_op(r, w).unwrap_or_else(|| bytes_op(r, w)) })
}
