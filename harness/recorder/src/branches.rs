//! Branches and trees made and changed by hand. After every call all the
//! branches there are are recorded, also those the call had nothing to do with.
use crate::letters::Rec;
use crate::session::{dump_branch, jbits, jl, jletters, sections, threads, tree_fields, Bits};
use crate::{json_bytes, json_list, json_weight, unhex};
use huff_coding::prelude::*;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Reg<L: HuffLetter> { Branch(HuffBranch<L>), Tree(HuffTree<L>) }
impl<L: HuffLetter> Reg<L> {
    fn again(&self) -> Reg<L> { match self { Reg::Branch(b) => Reg::Branch(b.clone()), Reg::Tree(t) => Reg::Tree(t.clone()) } }
    fn top(&self) -> &HuffBranch<L> { match self { Reg::Branch(b) => b, Reg::Tree(t) => t.root() } }
    fn top_mut(&mut self) -> &mut HuffBranch<L> { match self { Reg::Branch(b) => b, Reg::Tree(t) => t.root_mut() } }
}

fn bits_of(s: &str) -> Bits { s.bytes().filter(|b| *b != b'-').map(|b| b == b'1').collect() }
fn jpath(s: &str) -> String { json_bytes(&s.bytes().filter(|b| *b != b'-').map(|b| b - b'0').collect::<Vec<u8>>()) }

/// What is at the end of a path, if it leads anywhere
fn follow<'a, L: HuffLetter>(b: &'a mut HuffBranch<L>, path: &str) -> Option<&'a mut HuffBranch<L>> {
    let mut at = b;
    for c in path.bytes().filter(|b| *b != b'-') {
        at = if c == b'0' { at.left_child_mut()? } else { at.right_child_mut()? };
    }
    Some(at)
}

/// A tree that the branch is made the root of
fn tree_with<L: Rec>(b: HuffBranch<L>, any: L) -> HuffTree<L> {
    let mut t = HuffTree::from_weights(std::iter::once((any, 1)).collect::<std::collections::HashMap<L, usize>>());
    *t.root_mut() = b;
    t
}

fn jcmp<T: Ord>(a: &T, b: &T) -> String {
    let n = |o: Ordering| match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 };
    format!("[{},{},{},{},{},{},{},{}]", (a == b) as u8, (a != b) as u8, (a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8,
        n(a.cmp(b)), a.partial_cmp(b).map(n).unwrap_or(9))
}

/// letter L | weight: `*` for no letter
fn letter<L: Rec>(s: &str) -> (Option<L>, String) {
    if s == "*" { (None, "[]".into()) } else { let l = L::parse(&unhex(s)); let j = format!("[{}]", jl(&l)); (Some(l), j) }
}

pub fn run<L: Rec>(body: &[Vec<&str>], as_bin: fn(&HuffTree<L>) -> Option<Bits>) -> Vec<String> {
    let sections = sections(body);
    let mut regs: Vec<Reg<L>> = Vec::new();
    let any = L::parse(&unhex(body[0][1]));
    let mut events = go(&mut regs, sections[0], &any, as_bin);
    // each thread has clones of all there are
    if sections.len() > 1 { events.push(threads(&sections[1..], |part| go(&mut regs.iter().map(Reg::again).collect(), part, &any, as_bin))) }
    events
}

fn go<L: Rec>(regs: &mut Vec<Reg<L>>, body: &[Vec<&str>], any: &L, as_bin: fn(&HuffTree<L>) -> Option<Bits>) -> Vec<String> {
    let mut events = Vec::new();
    for w in body {
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        if w[0] == "any" { continue }
        let r = catch_unwind(AssertUnwindSafe(|| match w[0] {
            // leaf LETTER WEIGHT | join LETTER WEIGHT A B
            "leaf" | "join" => {
                let (l, jl) = letter::<L>(w[1]);
                let leaf = HuffLeaf::new(l, n(2));
                let kids = if w[0] == "join" { Some((regs[n(3) - 1].top().clone(), regs[n(4) - 1].top().clone())) } else { None };
                let (a, b) = if w[0] == "join" { (n(3), n(4)) } else { (0, 0) };
                regs.push(Reg::Branch(HuffBranch::new(leaf, kids)));
                format!("\"l\":{},\"w\":{},\"a\":{},\"b\":{}", jl, json_weight(n(2)), a, b)
            }
            "clone" => {
                let new = regs[n(1) - 1].again();
                regs.push(new);
                format!("\"r\":{}", n(1))
            }
            // kids R PATH A B | drop R PATH | code R PATH BITS: changed in place
            "kids" | "drop" | "code" => {
                let kids = if w[0] == "kids" { Some((regs[n(3) - 1].top().clone(), regs[n(4) - 1].top().clone())) } else { None };
                let hit = match follow(regs[n(1) - 1].top_mut(), w[2]) {
                    None => 0,
                    Some(at) => { if w[0] == "code" { at.set_code(bits_of(w[3])) } else { at.set_children(kids) } 1 }
                };
                let rest = match w[0] { "kids" => format!("\"a\":{},\"b\":{}", n(3), n(4)), "code" => format!("\"code\":{}", jpath(w[3])), _ => "\"a\":0".into() };
                format!("\"r\":{},\"path\":{},\"hit\":{},{}", n(1), jpath(w[2]), hit, rest)
            }
            // below R PATH: a clone of what is at the path's end
            "below" => {
                let got = follow(regs[n(1) - 1].top_mut(), w[2]).map(|b| b.clone());
                let hit = got.is_some() as u8;
                if let Some(b) = got { regs.push(Reg::Branch(b)) }
                format!("\"r\":{},\"path\":{},\"hit\":{}", n(1), jpath(w[2]), hit)
            }
            // tree R: a tree with a clone of R for its root
            "tree" => {
                let t = tree_with(regs[n(1) - 1].top().clone(), any.clone());
                regs.push(Reg::Tree(t));
                format!("\"r\":{}", n(1))
            }
            // weigh LETTER:WEIGHT...: a tree the library makes
            "weigh" => {
                let ws = w[1..].iter().map(|p| { let mut it = p.split(':'); (L::parse(&unhex(it.next().unwrap())), it.next().unwrap().parse().unwrap()) });
                regs.push(Reg::Tree(HuffTree::from_weights(ws.collect::<std::collections::HashMap<L, usize>>())));
                "\"r\":0".into()
            }
            "cmp" => {
                let (a, b) = (regs[n(1) - 1].top(), regs[n(2) - 1].top());
                format!("\"a\":{},\"b\":{},\"branches\":{},\"leaves\":{}", n(1), n(2), jcmp(a, b), jcmp(a.leaf(), b.leaf()))
            }
            // use R LETTER...: everything a tree is for
            "use" => {
                let t = match &regs[n(1) - 1] { Reg::Tree(t) => t.clone(), Reg::Branch(b) => tree_with(b.clone(), any.clone()) };
                let ls: Vec<L> = w[2..].iter().map(|x| L::parse(&unhex(x))).collect();
                let bits = catch_unwind(AssertUnwindSafe(|| as_bin(&t)));
                let (hasbits, bits) = match &bits { Ok(Some(b)) => (1, jbits(b)), Ok(None) => (0, "[]".into()), Err(_) => (2, "[]".into()) };
                let codes = catch_unwind(AssertUnwindSafe(|| tree_fields(&t)));
                let (coded, codes) = match codes { Ok(c) => (1, c), Err(_) => (0, "\"tree\":[],\"odd\":0,\"codes\":[]".into()) };
                let comp = catch_unwind(AssertUnwindSafe(|| match compress_with_tree(&ls, t.clone()) {
                    Err(e) => ("err", jl(e.missing_letter()), "\"data\":[],\"pad\":0,\"back\":[]".to_string()),
                    Ok(c) => ("ok", "[]".into(), format!("\"data\":{},\"pad\":{},\"back\":{}", json_bytes(c.comp_bytes()), c.padding_bits(), jletters(&decompress(&c)))),
                }));
                let (res, missing, comp) = comp.unwrap_or(("panic", "[]".into(), "\"data\":[],\"pad\":0,\"back\":[]".into()));
                format!("\"r\":{},\"letters\":{},\"hasbits\":{},\"bits\":{},\"coded\":{},{},\"comp\":\"{}\",\"missing\":{},{}",
                    n(1), jletters(&ls), hasbits, bits, coded, codes, res, missing, comp)
            }
            _ => panic!("unknown op {}", w[0]),
        }));
        let (res, fields) = match r { Ok(f) => ("ok", f), Err(_) => ("panic", "\"r\":0".into()) };
        let all: Vec<(String, usize)> = if res == "ok" { regs.iter().map(|r| dump_branch(r.top())).collect() } else { vec![] };
        let odd: usize = all.iter().map(|a| a.1).sum();
        events.push(format!("{{\"op\":\"{}\",\"res\":\"{}\",\"odds\":{},\"all\":{},{}}}", w[0], res, odd, json_list(all.into_iter().map(|a| a.0)), fields));
        if res == "panic" { break }
    }
    events
}
