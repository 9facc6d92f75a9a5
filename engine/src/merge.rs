//! State merging: a two-way split whose sides meet again at the branch's
//! immediate post-dominator (or at the function's return) continues as one
//! state whose differing values are if-then-else terms.
use crate::decode::*;
use crate::exec::*;
use crate::mem::*;
use crate::term::*;
use std::rc::Rc;

pub const EXIT: u32 = u32::MAX - 1;
pub struct Analysis { pub ipdom: Vec<u32>, pub reach: Vec<bool>, pub live: Vec<Vec<u64>> }

fn opnds(i: &Inst, f: &mut dyn FnMut(&Opnd)) {
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::FCmp { a, b, .. } => { f(a); f(b) }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::Mov { a, .. } | Inst::ExtractValue { a, .. } => f(a),
        Inst::Select { c, a, b, .. } => { f(c); f(a); f(b) }
        Inst::Load { p, .. } => f(p),
        Inst::Store { v, p, .. } => { f(v); f(p) }
        Inst::Gep { base, idx, .. } => { f(base); for x in idx { f(&x.0) } }
        Inst::Alloca { n, .. } => f(n),
        Inst::CondBr(c, ..) => f(c),
        Inst::Switch { v, .. } => f(v),
        Inst::Call { callee, args, .. } => { if let Callee::Ind(o) = callee { f(o) } for a in args { f(a) } }
        Inst::Ret(Some(v)) => f(v),
        Inst::InsertValue { a, v, .. } => { f(a); f(v) }
        Inst::ExtractElt { a, i, .. } => { f(a); f(i) }
        Inst::InsertElt { a, v, i, .. } => { f(a); f(v); f(i) }
        Inst::Shuffle { a, b, .. } => { f(a); f(b) }
        Inst::CmpXchg { p, c, n, .. } => { f(p); f(c); f(n) }
        Inst::Rmw { p, v, .. } => { f(p); f(v) }
        Inst::Br(_) | Inst::Ret(None) | Inst::Unreachable | Inst::Nop | Inst::Unsupported(_) => {}
    }
}
fn def(i: &Inst) -> u32 {
    match i {
        Inst::Bin { d, .. } | Inst::ICmp { d, .. } | Inst::FCmp { d, .. } | Inst::FNeg { d, .. } | Inst::Cast { d, .. } | Inst::Mov { d, .. } | Inst::ExtractValue { d, .. } | Inst::Select { d, .. }
        | Inst::Load { d, .. } | Inst::Gep { d, .. } | Inst::Alloca { d, .. } | Inst::Call { d, .. } | Inst::InsertValue { d, .. } | Inst::ExtractElt { d, .. } | Inst::InsertElt { d, .. }
        | Inst::Shuffle { d, .. } | Inst::CmpXchg { d, .. } | Inst::Rmw { d, .. } => *d,
        _ => NONE,
    }
}

pub fn analyse(c: &Code) -> Analysis {
    let n = c.blocks.len();
    let succ: Vec<Vec<u32>> = c.blocks.iter().map(|b| match b.insts.last() {
        Some(Inst::Br(t)) => vec![*t],
        Some(Inst::CondBr(_, t, e)) => vec![*t, *e],
        Some(Inst::Switch { cases, def, .. }) => { let mut v: Vec<u32> = cases.iter().map(|x| x.1).collect(); v.push(*def); v.sort(); v.dedup(); v }
        Some(Inst::Call { next, .. }) if *next != NONE => vec![*next],
        Some(Inst::Ret(_)) => vec![EXIT],
        _ => vec![],
    }).collect();
    let mut reach = vec![false; n];
    loop {
        let mut ch = false;
        for b in 0..n { if !reach[b] && succ[b].iter().any(|&s| s == EXIT || reach[s as usize]) { reach[b] = true; ch = true; } }
        if !ch { break; }
    }
    // post-dominators over blocks that reach a return; index n is the exit
    let words = n / 64 + 1;
    let mut pd: Vec<Vec<u64>> = vec![vec![u64::MAX; words]; n + 1];
    pd[n] = vec![0; words]; pd[n][n / 64] |= 1 << (n % 64);
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            if !reach[b] { continue; }
            let mut v = vec![u64::MAX; words];
            for &s in &succ[b] { let s = if s == EXIT { n } else if reach[s as usize] { s as usize } else { continue }; for w in 0..words { v[w] &= pd[s][w]; } }
            v[b / 64] |= 1 << (b % 64);
            if v != pd[b] { pd[b] = v; ch = true; }
        }
        if !ch { break; }
    }
    let has = |v: &Vec<u64>, i: usize| v[i / 64] >> (i % 64) & 1 == 1;
    let cnt = |v: &Vec<u64>| (0..=n).filter(|&i| has(v, i) && (i == n || reach[i])).count();
    let mut ipdom = vec![NONE; n];
    for b in 0..n {
        if !reach[b] { continue; }
        // the closest strict post-dominator is the one with the most post-dominators itself
        let best = (0..=n).filter(|&i| i != b && has(&pd[b], i) && (i == n || reach[i])).max_by_key(|&i| cnt(&pd[i]));
        ipdom[b] = match best { Some(i) if i == n => EXIT, Some(i) => i as u32, None => NONE };
    }
    // liveness at block entry, after the phis
    let rw = c.nregs / 64 + 1;
    let mut live = vec![vec![0u64; rw]; n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut l = vec![0u64; rw];
            for &s in &succ[b] {
                if s == EXIT { continue; }
                let sb = &c.blocks[s as usize];
                let mut x = live[s as usize].clone();
                for (d, _) in &sb.phis { x[*d as usize / 64] &= !(1 << (*d % 64)); }
                for (_, inc) in &sb.phis { for (p, o) in inc { if *p as usize == b { if let Opnd::R(r) = o { x[*r as usize / 64] |= 1 << (*r % 64); } } } }
                for w in 0..rw { l[w] |= x[w]; }
            }
            for i in c.blocks[b].insts.iter().rev() {
                let d = def(i);
                if d != NONE { l[d as usize / 64] &= !(1 << (d % 64)); }
                opnds(i, &mut |o| if let Opnd::R(r) = o { l[*r as usize / 64] |= 1 << (*r % 64); });
            }
            if l != live[b] { live[b] = l; ch = true; }
        }
        if !ch { break; }
    }
    Analysis { ipdom, reach, live }
}

pub fn merge_val(c: T, ty: &Ty, a: &Val, b: &Val) -> Option<Val> {
    match (a, b) {
        (Val::I(x), Val::I(y)) if x == y => Some(a.clone()),
        (Val::T(x), Val::T(y)) if x == y => Some(a.clone()),
        (Val::A(x), Val::A(y)) => {
            if x.len() != y.len() { return None; }
            let t = |i: usize| match ty { Ty::Vec(_, e) | Ty::Arr(_, e, _) => Some(e.clone()), Ty::Struct(f, _) => f.get(i).map(|p| p.1.clone()), _ => None };
            let mut v = vec![];
            for i in 0..x.len() { v.push(merge_val(c, &*t(i)?, &x[i], &y[i])?); }
            Some(Val::A(Rc::new(v)))
        }
        (Val::A(_), _) | (_, Val::A(_)) => None,
        _ => {
            if *ty == Ty::Ptr { return None; }
            let w = ty.scalar_w()?;
            let (x, y) = (to_t(a, w), to_t(b, w));
            Some(from_t(tm().ite(c, x, y)))
        }
    }
}

fn ptr_like(m: &Mem, x: u64) -> bool {
    let id = (x >> 32) as u32;
    if id >= REG_HEAP { ((id - REG_HEAP) as usize) < m.heap.len() }
    else if id >= REG_STACK { ((id - REG_STACK) as usize) < m.stack.len() }
    else if id >= REG_FUNC { id < REG_FUNC + 200_000 }
    else if id >= REG_GLOBAL { ((id - REG_GLOBAL) as usize) < m.globals.len() }
    else { false }
}
fn merge_obj(m: &Mem, c: T, a: &Rc<Obj>, b: &Rc<Obj>) -> Option<Option<Rc<Obj>>> {
    if Rc::ptr_eq(a, b) { return Some(None); }
    if a.data.len() != b.data.len() || a.constant != b.constant || a.alive != b.alive { return None; }
    let n = a.data.len();
    let mut out: Option<Obj> = None;
    let mut off = 0;
    while off < n {
        let k = 8.min(n - off);
        let same = a.data[off..off + k] == b.data[off..off + k] && a.is_concrete(off, k) && b.is_concrete(off, k);
        if !same {
            if a.is_concrete(off, k) && b.is_concrete(off, k) {
                let rd = |o: &Obj| { let mut x = [0u8; 8]; x[..k].copy_from_slice(&o.data[off..off + k]); u64::from_le_bytes(x) };
                if ptr_like(m, rd(a)) || ptr_like(m, rd(b)) { return None; }
            }
            for i in off..off + k {
                let (x, y) = (a.byte(i), b.byte(i));
                if x != y { let t = tm().ite(c, x, y); out.get_or_insert_with(|| (**a).clone()).write_byte(i, t); }
            }
        }
        off += k;
    }
    Some(out.map(Rc::new))
}
/// contents of `a` where c holds, of `b` elsewhere
pub fn merge_mem(c: T, a: &mut Mem, b: &Mem) -> Option<()> {
    if a.heap.len() != b.heap.len() || a.stack.len() != b.stack.len() || a.globals.len() != b.globals.len() { return None; }
    let mut ch = vec![];
    for (i, (x, y)) in a.heap.iter().zip(&b.heap).enumerate() {
        match (x, y) { (None, None) => {} (Some(x), Some(y)) => if let Some(o) = merge_obj(a, c, x, y)? { ch.push((0, i, o)); }, _ => return None }
    }
    for (i, (x, y)) in a.stack.iter().zip(&b.stack).enumerate() { if let Some(o) = merge_obj(a, c, x, y)? { ch.push((1, i, o)); } }
    for (i, (x, y)) in a.globals.iter().zip(&b.globals).enumerate() { if let Some(o) = merge_obj(a, c, x, y)? { ch.push((2, i, o)); } }
    for (k, i, o) in ch { match k { 0 => a.heap[i] = Some(o), 1 => a.stack[i] = o, _ => a.globals[i] = o } }
    Some(())
}
