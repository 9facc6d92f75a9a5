//! The symbolic executor.
use crate::decode::*;
use crate::intr::{Builtin, Intr, libm};
use crate::mem::*;
use crate::term::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub code: &'static Code, pub blk: u32, pub ip: usize, pub regs: Vec<Val>, mark: usize, ret: u32, next: u32 }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    pub nvars: u32,
    pub obs: Vec<T>,
    pub checks: u32,
    pub reached: Vec<u32>,
    errno: u64,
}

pub enum Stop { Joined, NoMerge, Done, Infeasible, Limit(String), Fail(Violation), Err(String) }
type R<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub input: Vec<u8>, pub trace: Vec<String> }

struct Spec { depth: usize, join: u32, end: u64 }

#[derive(Default)]
pub struct Limits { pub max_paths: u64, pub max_secs: f64, pub max_steps: u64, pub max_samples: usize, pub max_violations: usize }

pub struct PathSample { pub input: Vec<u8>, pub obs: u64, pub nobs: usize }

pub struct Exec<'m> {
    pub md: &'m mut Module,
    pub z3: Z3,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub lim: Limits,
    cache: HashMap<Vec<T>, Option<Rc<(Vec<(u32, u64)>, Vec<(u32, u128)>)>>>,
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub branches: u64, pub steps: u64,
    pub incomplete: Vec<String>, pub errors: Vec<String>, pub violations: Vec<Violation>,
    pub samples: Vec<PathSample>, pub checks_proved: u64, pub checks_trivial: u64, pub reached: FxMap<u32, u64>,
    pub lines: Vec<bool>, pub max_sym: u32, t0: Instant, pub unknowns: u64,
    uf_map: HashMap<(String, Vec<T>), T>,
    pub viol_keys: HashMap<String, u32>,
    pub verbose: bool,
    pub fork_sites: HashMap<String, u64>,
    nomerge: bool, spec: Vec<Spec>, an: FxMap<u32, &'static crate::merge::Analysis>, mfail: FxMap<(u32, u32), u32>, pub merges: u64,
}

fn merr(e: MemErr) -> Stop { Stop::Err(format!("memory access: {e:?}")) }
#[inline]
fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
pub fn to_t(v: &Val, w: u16) -> T { match v { Val::I(k) => tm().cst(w, *k as u128), Val::T(t) => *t, Val::A(_) => panic!("aggregate used as scalar") } }
#[inline]
pub fn from_t(t: T) -> Val { let m = tm(); let w = m.w(t); match m.is_const(t) { Some(k) if w <= 64 => Val::I(k as u64), _ => Val::T(t) } }
#[inline]
fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn fbin(op: BinOp, w: u16, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b }).to_bits() as u64
    } else {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        (match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b }).to_bits()
    }
}
fn bin(op: BinOp, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match op {
            BinOp::Add => x.wrapping_add(y),
            BinOp::Sub => x.wrapping_sub(y),
            BinOp::Mul => x.wrapping_mul(y),
            BinOp::UDiv => if y == 0 { 0 } else { x / y },
            BinOp::URem => if y == 0 { 0 } else { x % y },
            BinOp::SDiv => { let d = sx(y, w); if d == 0 { 0 } else { sx(x, w).wrapping_div(d) as u64 } }
            BinOp::SRem => { let d = sx(y, w); if d == 0 { 0 } else { sx(x, w).wrapping_rem(d) as u64 } }
            BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
            BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
            BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
            _ => return Val::I(fbin(op, w, x, y)),
        };
        return Val::I(r & m64(w));
    }
    let m = tm();
    let (x, y) = (to_t(a, w), to_t(b, w));
    from_t(match op {
        BinOp::Add => m.add(x, y), BinOp::Sub => m.sub(x, y), BinOp::Mul => m.mul(x, y), BinOp::UDiv => m.udiv(x, y), BinOp::URem => m.urem(x, y),
        BinOp::SDiv => m.sdiv(x, y), BinOp::SRem => m.srem(x, y), BinOp::Shl => m.shl(x, y), BinOp::LShr => m.lshr(x, y), BinOp::AShr => m.ashr(x, y),
        BinOp::And => m.and(x, y), BinOp::Or => m.or(x, y), BinOp::Xor => m.xor(x, y),
        BinOp::FAdd => m.fop(Op::FAdd, x, y, 0), BinOp::FSub => m.fop(Op::FSub, x, y, 0), BinOp::FMul => m.fop(Op::FMul, x, y, 0), BinOp::FDiv => m.fop(Op::FDiv, x, y, 0),
        BinOp::FRem => m.fop(Op::FRem, x, y, 0),
    })
}
fn icmp(p: u32, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y,
            38 => sx(x, w) > sx(y, w), 39 => sx(x, w) >= sx(y, w), 40 => sx(x, w) < sx(y, w), _ => sx(x, w) <= sx(y, w) };
        return Val::I(r as u64);
    }
    let m = tm();
    let (x, y) = (to_t(a, w), to_t(b, w));
    from_t(match p { 32 => m.eq(x, y), 33 => { let e = m.eq(x, y); m.not(e) } 34 => m.ult(y, x), 35 => m.ule(y, x), 36 => m.ult(x, y), 37 => m.ule(x, y),
        38 => m.slt(y, x), 39 => m.sle(y, x), 40 => m.slt(x, y), _ => m.sle(x, y) })
}
fn fcmp(p: u32, w: u16, a: &Val, b: &Val) -> Val {
    let m = tm();
    let (x, y) = (to_t(a, w), to_t(b, w));
    let uno = |m: &mut Tm| { let p = m.fop(Op::FIsNan, x, 0, 0); let q = m.fop(Op::FIsNan, y, 0, 0); m.or(p, q) };
    let t = match p {
        0 => m.fls(), 15 => m.tru(),
        1 => m.fop(Op::FEq, x, y, 0), 2 => m.fop(Op::FLt, y, x, 0), 3 => m.fop(Op::FLe, y, x, 0), 4 => m.fop(Op::FLt, x, y, 0), 5 => m.fop(Op::FLe, x, y, 0),
        6 => { let p = m.fop(Op::FLt, x, y, 0); let q = m.fop(Op::FLt, y, x, 0); m.or(p, q) }
        7 => { let u = uno(m); m.not(u) }
        8 => uno(m),
        9 => { let p = m.fop(Op::FLt, x, y, 0); let q = m.fop(Op::FLt, y, x, 0); let o = m.or(p, q); m.not(o) }
        10 => { let l = m.fop(Op::FLe, x, y, 0); m.not(l) }
        11 => { let l = m.fop(Op::FLt, x, y, 0); m.not(l) }
        12 => { let l = m.fop(Op::FLe, y, x, 0); m.not(l) }
        13 => { let l = m.fop(Op::FLt, y, x, 0); m.not(l) }
        _ => { let e = m.fop(Op::FEq, x, y, 0); m.not(e) }
    };
    from_t(t)
}
fn lanes2(n: usize, a: &Val, b: &Val, f: impl Fn(&Val, &Val) -> Val) -> Val {
    if n == 0 { return f(a, b); }
    match (a, b) { (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())), _ => panic!("vector op on scalars") }
}
fn lanes1(n: usize, a: &Val, f: impl Fn(&Val) -> Val) -> Val {
    if n == 0 { return f(a); }
    match a { Val::A(x) => Val::A(Rc::new(x.iter().map(f).collect())), _ => panic!("vector op on scalar") }
}
fn bits_of(v: &Val, ty: &Ty) -> T {
    match ty {
        Ty::Vec(_, e) => {
            let w = e.elem_w();
            let Val::A(x) = v else { panic!() };
            let mut acc = to_t(&x[0], w);
            for l in &x[1..] { let t = to_t(l, w); acc = tm().concat(t, acc); }
            acc
        }
        t => to_t(v, t.scalar_w().unwrap()),
    }
}
fn of_bits(t: T, ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, e) => { let w = e.elem_w(); Val::A(Rc::new((0..*n as u16).map(|i| from_t(tm().extract(t, (i + 1) * w - 1, i * w))).collect())) }
        _ => from_t(t),
    }
}
fn cast(op: CastOp, from: &Ty, to: &Ty, a: &Val) -> Val {
    if op == CastOp::BitCast {
        if from.lanes() == 0 && to.lanes() == 0 { return a.clone(); }
        return of_bits(bits_of(a, from), to);
    }
    let (wf, wt) = (from.elem_w(), to.elem_w());
    lanes1(to.lanes(), a, |v| {
        if let (Val::I(x), true) = (v, wt <= 64) {
            let x = *x;
            let r = match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => Some(x & m64(wt)),
                CastOp::SExt => Some(sx(x, wf) as u64 & m64(wt)),
                _ => None,
            };
            if let Some(r) = r { return Val::I(r); }
        }
        let m = tm();
        let t = to_t(v, wf);
        from_t(match op {
            CastOp::Trunc => m.extract(t, wt - 1, 0),
            CastOp::ZExt => m.zext(t, wt),
            CastOp::SExt => m.sext(t, wt),
            CastOp::PtrToInt | CastOp::IntToPtr => if wt < wf { m.extract(t, wt - 1, 0) } else { m.zext(t, wt) },
            CastOp::FPToUI => m.fconv(Op::FToU, t, wt, 0),
            CastOp::FPToSI => m.fconv(Op::FToS, t, wt, 0),
            CastOp::UIToFP => m.fconv(Op::UToF, t, wt, 0),
            CastOp::SIToFP => m.fconv(Op::SToF, t, wt, 0),
            CastOp::FPTrunc => m.fconv(Op::FTrunc, t, wt, 0),
            CastOp::FPExt => m.fconv(Op::FExt, t, wt, 0),
            CastOp::BitCast => t,
        })
    })
}
fn select_val(c: T, a: &Val, b: &Val, ty: &Ty) -> Val {
    match (a, b) {
        (Val::A(x), Val::A(y)) => {
            let et: Vec<Rc<Ty>> = match ty { Ty::Vec(n, e) | Ty::Arr(n, e, _) => vec![e.clone(); *n], Ty::Struct(f, _) => f.iter().map(|p| p.1.clone()).collect(), _ => panic!() };
            Val::A(Rc::new(x.iter().zip(y.iter()).zip(et.iter()).map(|((p, q), t)| select_val(c, p, q, t)).collect()))
        }
        _ => { let w = ty.scalar_w().unwrap(); let (x, y) = (to_t(a, w), to_t(b, w)); from_t(tm().ite(c, x, y)) }
    }
}

impl<'m> Exec<'m> {
    pub fn new(md: &'m mut Module, params: Vec<u64>, lim: Limits, tmo: u32) -> Self {
        Exec { md, z3: Z3::new(tmo), work: vec![], params, lim, cache: HashMap::new(), paths: 0, infeasible: 0, forks: 0, branches: 0, steps: 0, incomplete: vec![], errors: vec![],
            violations: vec![], samples: vec![], checks_proved: 0, checks_trivial: 0, reached: Default::default(), lines: vec![], max_sym: 0, t0: Instant::now(), unknowns: 0,
            uf_map: HashMap::new(), viol_keys: HashMap::new(), verbose: std::env::var("LLSYM_V").is_ok(), fork_sites: HashMap::new(), nomerge: std::env::var("LLSYM_NOMERGE").is_ok(), spec: vec![], an: Default::default(), mfail: Default::default(), merges: 0 }
    }
    fn scode(&mut self, fid: u32) -> &'static Code {
        let c = self.md.code(fid);
        unsafe { &*Rc::as_ptr(&c) } // kept alive by the module for the life of the process
    }
    pub fn run_fn(&mut self, name: &str) -> Result<(), String> {
        let fid = *self.md.by_name.get(name).ok_or(format!("no function {name}"))?;
        let code = self.scode(fid);
        if code.blocks.is_empty() { return Err(format!("{name} has no body")); }
        let mut st = State { frames: vec![], mem: Mem { globals: self.md.globals.clone(), ..Default::default() }, pc: vec![], model: new_model(vec![], vec![]), nvars: 0, obs: vec![], checks: 0, reached: vec![], errno: 0 };
        st.errno = st.mem.alloc(8);
        self.push_frame(&mut st, code, vec![], NONE, NONE);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let over = if self.paths >= self.lim.max_paths { Some("path limit") } else if self.t0.elapsed().as_secs_f64() > self.lim.max_secs { Some("time limit") } else { None };
            if let Some(w) = over { self.incomplete.push(format!("{w}: {} pending states dropped", self.work.len() + 1)); self.work.clear(); break; }
            if self.violations.len() >= self.lim.max_violations { self.incomplete.push(format!("stopped after {} violations", self.violations.len())); break; }
            let r = self.run(&mut st);
            self.max_sym = self.max_sym.max(st.nvars);
            match r {
                Ok(()) | Err(Stop::Done) => {
                    self.paths += 1;
                    for r in &st.reached { *self.reached.entry(*r).or_insert(0) += 1; }
                    if self.samples.len() < self.lim.max_samples || (self.paths & (self.paths - 1)) == 0 { let s = self.sample(&st); self.samples.push(s); }
                }
                Err(Stop::Joined) | Err(Stop::NoMerge) => { self.errors.push("merge bookkeeping".into()); }
                Err(Stop::Infeasible) => self.infeasible += 1,
                Err(Stop::Limit(s)) => { self.paths += 1; if self.incomplete.len() < 20 { let w = self.where_(&st); self.incomplete.push(format!("{s} at {w}")); } }
                Err(Stop::Err(s)) => { self.paths += 1; if self.errors.len() < 20 { let w = self.backtrace(&st).join(" < "); self.errors.push(format!("{s} at {w}")); } }
                Err(Stop::Fail(v)) => { self.paths += 1; self.add_violation(v); }
            }
        }
        Ok(())
    }
    fn add_violation(&mut self, v: Violation) {
        let n = self.viol_keys.entry(format!("{}|{}", v.kind, v.msg)).or_insert(0);
        *n += 1;
        if *n <= 2 { self.violations.push(v); }
    }
    fn input_of(&self, st: &State, m: &Model) -> Vec<u8> { (0..st.nvars).map(|i| m.get(i) as u8).collect() }
    fn sample(&mut self, st: &State) -> PathSample {
        let m = st.model.clone();
        let mut h: u64 = 0xcbf29ce484222325;
        for &t in &st.obs { let b = tm().eval(t, &m) as u8; h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        PathSample { input: self.input_of(st, &m), obs: h, nobs: st.obs.len() }
    }
    pub fn where_(&self, st: &State) -> String { self.backtrace(st).into_iter().next().unwrap_or_default() }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| {
            let l = f.code.blocks[f.blk as usize].lines.last().map(|&l| { let (fi, ln) = self.md.lines[l as usize]; format!("{}:{}", self.md.files[fi as usize], ln) }).unwrap_or_default();
            let mut n = self.md.funcs[f.code.fid as usize].name.clone(); n.truncate(120);
            format!("{} ({}) b{}i{}", n, l, f.blk, f.ip)
        }).collect()
    }
    fn push_frame(&mut self, st: &mut State, code: &'static Code, args: Vec<Val>, ret: u32, next: u32) {
        let mut regs = args;
        regs.resize(code.nregs, Val::I(0));
        self.md.funcs[code.fid as usize].calls += 1;
        let mark = st.mem.stack.len();
        st.frames.push(Frame { code, blk: 0, ip: 0, regs, mark, ret, next });
        self.enter(code, 0);
    }
    #[inline]
    fn enter(&mut self, code: &'static Code, b: u32) {
        let f = &mut self.md.funcs[code.fid as usize];
        if !f.seen[b as usize] {
            f.seen[b as usize] = true;
            for &l in &code.blocks[b as usize].lines { if self.lines.len() <= l as usize { self.lines.resize(l as usize + 1, false); } self.lines[l as usize] = true; }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let code = f.code;
        let from = f.blk;
        let blk = &code.blocks[to as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                let v = match o { Opnd::R(r) => f.regs[*r as usize].clone(), Opnd::C(v) => v.clone() };
                f.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = blk.phis.iter().map(|(_, inc)| {
                    let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                    match o { Opnd::R(r) => f.regs[*r as usize].clone(), Opnd::C(v) => v.clone() }
                }).collect();
                for ((d, _), v) in blk.phis.iter().zip(vals) { f.regs[*d as usize] = v; }
            }
        }
        f.blk = to;
        f.ip = 0;
        self.enter(code, to);
    }

    // ---------------------------------------------------------------- solver
    fn slice(&mut self, pc: &[T], seed: T) -> Vec<T> {
        let m = tm();
        let s0 = m.varset(seed);
        let mut vars: FxSet<u32> = m.sets[s0 as usize].iter().copied().collect();
        let mut out = vec![];
        let cs: Vec<(T, Rc<Vec<u32>>)> = pc.iter().map(|&t| { let s = m.varset(t); (t, m.sets[s as usize].clone()) }).collect();
        let mut used = vec![false; cs.len()];
        loop {
            let mut ch = false;
            for (i, (t, s)) in cs.iter().enumerate() {
                if used[i] || !s.iter().any(|v| vars.contains(v)) { continue; }
                used[i] = true;
                ch = true;
                out.push(*t);
                vars.extend(s.iter().copied());
            }
            if !ch { break; }
        }
        out
    }
    /// Is pc AND cond satisfiable?  Some(model) / None; Err on unknown.
    fn sat(&mut self, st: &State, cond: T) -> Result<Option<Rc<Model>>, ()> {
        match tm().is_const(cond) { Some(0) => return Ok(None), Some(_) => return Ok(Some(st.model.clone())), None => {} }
        if tm().eval(cond, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        let nc = tm().not(cond);
        if st.pc.contains(&nc) { return Ok(None); }
        let mut q = self.slice(&st.pc, cond);
        q.push(cond);
        q.sort_unstable();
        let r = match self.cache.get(&q) {
            Some(r) => r.clone(),
            None => {
                let r = match self.z3.check(&q) {
                    Res::Sat(v, u) => Some(Rc::new((v, u))),
                    Res::Unsat => None,
                    Res::Unknown => { self.unknowns += 1; return Err(()); }
                };
                self.cache.insert(q, r.clone());
                r
            }
        };
        Ok(r.map(|vu| {
            let mut vals = st.model.vals.clone();
            for &(i, x) in &vu.0 { if vals.len() <= i as usize { vals.resize(i as usize + 1, 0); } vals[i as usize] = x; }
            let mut ufv = st.model.ufv.clone();
            for &(i, x) in &vu.1 { if ufv.len() <= i as usize { ufv.resize(i as usize + 1, 0); } ufv[i as usize] = x; }
            new_model(vals, ufv)
        }))
    }
    fn add_pc(&self, st: &mut State, c: T) {
        let n = tm().nodes[c as usize].clone();
        if n.op == Op::Const { return; }
        if n.op == Op::And { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if n.op == Op::Not {
            let k = tm().nodes[n.a as usize].clone();
            if k.op == Op::Or { let a = tm().not(k.a); let b = tm().not(k.b); self.add_pc(st, a); self.add_pc(st, b); return; }
        }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        match self.sat(st, c) {
            Ok(Some(m)) => { st.model = m; self.add_pc(st, c); Ok(()) }
            Ok(None) => Err(Stop::Infeasible),
            Err(()) => Err(Stop::Limit("solver timeout in assume".into())),
        }
    }
    /// Decide a branch; the side not followed is pushed as a new state by `other`.
    fn branch(&mut self, st: &mut State, c: T, other: impl FnOnce(&mut Self, &mut State, bool)) -> R<bool> {
        self.branches += 1;
        let cur = tm().eval(c, &st.model) == 1;
        let (take, alt) = if cur { (c, tm().not(c)) } else { (tm().not(c), c) };
        match self.sat(st, alt) {
            Ok(Some(m)) => {
                if !self.spec.is_empty() { return Err(Stop::NoMerge); }
                let mut s2 = st.clone();
                s2.model = m;
                self.add_pc(&mut s2, alt);
                self.forks += 1;
                if self.verbose { let w = self.where_(st); *self.fork_sites.entry(w).or_insert(0) += 1; }
                other(self, &mut s2, !cur);
                self.work.push(s2);
                self.add_pc(st, take);
            }
            Ok(None) => {}
            Err(()) if !self.spec.is_empty() => return Err(Stop::NoMerge),
            Err(()) => { self.incomplete.push(format!("solver timeout on a branch at {}", self.where_(st))); self.add_pc(st, take); }
        }
        Ok(cur)
    }
    fn analysis(&mut self, c: &'static Code) -> &'static crate::merge::Analysis {
        self.an.entry(c.fid).or_insert_with(|| Box::leak(Box::new(crate::merge::analyse(c))))
    }
    /// Run both sides of a split to their join point and continue as one state.
    /// None: not possible here, st is unchanged.  `go` moves a state onto its side.
    fn try_merge(&mut self, st: &mut State, c: T, go: &mut dyn FnMut(&mut Self, &mut State, bool)) -> Option<()> {
        if self.nomerge || self.spec.len() > 24 { return None; }
        let f = st.frames.last().unwrap();
        let (code, blk) = (f.code, f.blk);
        let key = (code.fid, blk);
        if *self.mfail.get(&key).unwrap_or(&0) >= 6 { return None; }
        let an = self.analysis(code);
        let join = an.ipdom[blk as usize];
        if join == NONE || (join == crate::merge::EXIT && st.frames.len() < 2) { return None; }
        let cur = tm().eval(c, &st.model) == 1;
        let nc = tm().not(c);
        let (take, alt) = if cur { (c, nc) } else { (nc, c) };
        let m = match self.sat(st, alt) { Ok(Some(m)) => m, _ => return None };
        let base = st.pc.len();
        let mut sa = st.clone();
        self.add_pc(&mut sa, take);
        let na = sa.pc.len();
        let mut sb = st.clone();
        sb.model = m;
        self.add_pc(&mut sb, alt);
        let nb = sb.pc.len();
        go(self, &mut sa, cur);
        go(self, &mut sb, !cur);
        let depth = st.frames.len();
        let bad = |an: &crate::merge::Analysis, s: &State| !an.reach[s.frames.last().unwrap().blk as usize];
        let mut r: Option<()> = None;
        if !bad(an, &sa) && !bad(an, &sb) {
            let end = self.steps + 20000;
            self.spec.push(Spec { depth, join, end });
            let ja = matches!(self.run(&mut sa), Err(Stop::Joined));
            let jb = ja && matches!(self.run(&mut sb), Err(Stop::Joined));
            self.spec.pop();
            if jb { r = self.combine(st, take, &mut sa, &sb, join, an, (base, na, nb)); }
        }
        if r.is_none() { *self.mfail.entry(key).or_insert(0) += 1; return None; }
        self.mfail.remove(&key);
        self.merges += 1;
        *st = sa;
        Some(())
    }
    fn combine(&mut self, st: &State, c: T, a: &mut State, b: &State, join: u32, an: &crate::merge::Analysis, (base, na, nb): (usize, usize, usize)) -> Option<()> {
        if a.nvars != st.nvars || b.nvars != st.nvars || a.obs.len() != st.obs.len() || b.obs.len() != st.obs.len() || a.frames.len() != b.frames.len() { return None; }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if fa.blk != fb.blk || fa.ip != fb.ip { return None; }
        let mut ch = vec![];
        let lv = if join != crate::merge::EXIT { Some(&an.live[join as usize]) } else { None };
        for r in 0..fa.regs.len() {
            if let Some(l) = lv { let phi = fa.code.blocks[join as usize].phis.iter().any(|p| p.0 == r as u32); if !phi && l[r / 64] >> (r % 64) & 1 == 0 { continue; } }
            let v = crate::merge::merge_val(c, &fa.code.reg_tys[r], &fa.regs[r], &fb.regs[r])?;
            ch.push((r, v));
        }
        crate::merge::merge_mem(c, &mut a.mem, &b.mem)?;
        let f = a.frames.last_mut().unwrap();
        for (r, v) in ch { f.regs[r] = v; }
        if a.pc.len() > na || b.pc.len() > nb {
            let all = |v: &[T]| { let mut x = tm().tru(); for &t in v { x = tm().and(x, t); } x };
            let (x, y) = (all(&a.pc[base..]), all(&b.pc[base..]));
            let o = tm().or(x, y);
            a.pc.truncate(base);
            self.add_pc(a, o);
        } else { a.pc.truncate(base); }
        Some(())
    }
    /// Make a term concrete; other feasible values are explored from this same instruction.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> R<u64> {
        let t = match v { Val::I(k) => return Ok(*k), Val::T(t) => *t, Val::A(_) => return Err(Stop::Err("concretize aggregate".into())) };
        let k = tm().eval(t, &st.model);
        let kt = tm().cst(w, k);
        let e = tm().eq(t, kt);
        if tm().is_const(e).is_some() { return Ok(k as u64); }
        self.branch(st, e, |_, _, _| {})?;
        Ok(k as u64)
    }
    fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: String) -> Violation {
        Violation { kind: kind.into(), msg, input: self.input_of(st, m), trace: self.backtrace(st) }
    }

    // ---------------------------------------------------------------- memory
    fn load_at(&mut self, st: &State, ty: &Ty, addr: u64) -> Result<Val, MemErr> {
        Ok(match ty {
            Ty::Struct(fs, _) => { let mut v = vec![]; for (o, t) in fs { v.push(self.load_at(st, t, addr + *o as u64)?); } Val::A(Rc::new(v)) }
            Ty::Arr(n, t, s) => { let mut v = vec![]; for i in 0..*n { v.push(self.load_at(st, t, addr + (i * s) as u64)?); } Val::A(Rc::new(v)) }
            Ty::Vec(n, e) => {
                let w = e.elem_w();
                if w % 8 == 0 { let sz = w as usize / 8; let mut v = vec![]; for i in 0..*n { v.push(self.load_at(st, e, addr + (i * sz) as u64)?); } Val::A(Rc::new(v)) }
                else {
                    let sz = ty.size();
                    let (o, off) = st.mem.obj(addr, sz)?;
                    let t = match o.read(off, sz) { Ok(k) => tm().cst(8 * sz as u16, k as u128), Err(t) => t };
                    let t = tm().extract(t, *n as u16 * w - 1, 0);
                    of_bits(t, ty)
                }
            }
            _ => {
                let w = ty.scalar_w().unwrap();
                let n = (w as usize).div_ceil(8);
                let (o, off) = st.mem.obj(addr, n)?;
                match o.read(off, n) {
                    Ok(k) => Val::I(k & m64(w)),
                    Err(t) => { let t = if (n * 8) as u16 != w { tm().extract(t, w - 1, 0) } else { t }; from_t(t) }
                }
            }
        })
    }
    fn store_at(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &Val) -> Result<(), MemErr> {
        match ty {
            Ty::Struct(fs, _) => { let Val::A(x) = v else { panic!() }; for ((o, t), e) in fs.iter().zip(x.iter()) { self.store_at(st, t, addr + *o as u64, e)?; } }
            Ty::Arr(_, t, s) => { let Val::A(x) = v else { panic!() }; for (i, e) in x.iter().enumerate() { self.store_at(st, t, addr + (i * s) as u64, e)?; } }
            Ty::Vec(_, e) => {
                let w = e.elem_w();
                if w % 8 == 0 { let Val::A(x) = v else { panic!() }; let sz = w as usize / 8; for (i, l) in x.iter().enumerate() { self.store_at(st, e, addr + (i * sz) as u64, l)?; } }
                else {
                    let t = bits_of(v, ty);
                    let sz = ty.size();
                    let t = tm().zext(t, 8 * sz as u16);
                    let (o, off) = st.mem.obj_mut(addr, sz)?;
                    o.write_term(off, t, sz);
                }
            }
            _ => {
                let w = ty.scalar_w().unwrap();
                let n = (w as usize).div_ceil(8);
                let (o, off) = st.mem.obj_mut(addr, n)?;
                match v {
                    Val::I(k) => o.write_conc(off, &k.to_le_bytes()[..n]),
                    Val::T(t) => { let t = tm().zext(*t, (n * 8) as u16); o.write_term(off, t, n) }
                    Val::A(_) => panic!(),
                }
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        match p {
            Val::I(a) => self.load_at(st, ty, *a).map_err(merr),
            Val::T(t) => {
                if let Some(v) = self.load_sym(st, ty, *t, 0)? { return Ok(v); }
                let a = self.concretize(st, p, 64)?;
                self.load_at(st, ty, a).map_err(merr)
            }
            _ => Err(Stop::Err("load from aggregate".into())),
        }
    }
    fn load_sym(&mut self, st: &mut State, ty: &Ty, t: T, depth: u32) -> R<Option<Val>> {
        if depth > 6 { return Ok(None); }
        if let Some(k) = tm().is_const(t) { return Ok(self.load_at(st, ty, k as u64).ok()); }
        let n = tm().nodes[t as usize].clone();
        if n.op == Op::Ite {
            let a = self.load_sym(st, ty, n.b, depth + 1)?;
            let b = self.load_sym(st, ty, n.c, depth + 1)?;
            return Ok(match (a, b) { (Some(a), Some(b)) => Some(select_val(n.a, &a, &b, ty)), _ => None });
        }
        let Some(w) = ty.scalar_w() else { return Ok(None) };
        if w % 8 != 0 { return Ok(None); }
        let nb = w as usize / 8;
        if n.op != Op::Add { return Ok(None); }
        let Some(k) = tm().is_const(n.b) else { return Ok(None) };
        let kaddr = k as u64;
        // the constant may point slightly before the object (negative displacement)
        let mut id = (kaddr >> 32) as u32;
        if (kaddr as u32) >= 0x8000_0000 { id += 1; }
        let base = addr_of(id);
        let Ok((o, _)) = st.mem.obj(base, 0) else { return Ok(None) };
        let len = o.data.len();
        if len < nb { return Ok(None); }
        let disp = tm().cst(64, kaddr.wrapping_sub(base) as u128);
        let off = tm().add(n.a, disp);
        let all_conc = o.is_concrete(0, len);
        if !(all_conc && len <= 65536) && len > 600 { return Ok(None); }
        let data = o.data.clone();
        let bytes: Option<Vec<T>> = if all_conc { None } else { Some((0..len).map(|i| o.byte(i)).collect()) };
        let lim = tm().cst(64, (len - nb) as u128);
        let inb = tm().ule(off, lim);
        let oob = tm().not(inb);
        match self.sat(st, oob) { Ok(None) => {} _ => return Ok(None) }
        if all_conc { return Ok(Some(from_t(tm().table(&data, off, w)))); }
        let bytes = bytes.unwrap();
        let um = tm().umax[off as usize].min((len - nb) as u128) as usize;
        let mut acc: T = 0;
        let mut count = 0;
        for i in (0..=um).rev() {
            let kt = tm().cst(64, i as u128);
            let e = tm().eq(off, kt);
            if tm().is_const(e) == Some(0) { continue; }
            match self.sat(st, e) { Ok(None) => continue, Ok(_) => {} Err(_) => return Ok(None) }
            count += 1;
            if count > 256 { return Ok(None); }
            let mut v = bytes[i];
            for j in 1..nb { v = tm().concat(bytes[i + j], v); }
            acc = if acc == 0 { v } else { tm().ite(e, v, acc) };
        }
        if acc == 0 { return Ok(None); }
        Ok(Some(from_t(acc)))
    }

    // ---------------------------------------------------------------- main loop
    fn run(&mut self, st: &mut State) -> R<()> {
        let start_steps = self.steps;
        loop {
            if let Some(sp) = self.spec.last() {
                if st.frames.len() < sp.depth { return Err(if sp.join == crate::merge::EXIT && st.frames.len() + 1 == sp.depth { Stop::Joined } else { Stop::NoMerge }); }
                if st.frames.len() == sp.depth { let f = st.frames.last().unwrap(); if f.blk == sp.join && f.ip == 0 { return Err(Stop::Joined); } }
                if self.steps > sp.end { return Err(Stop::NoMerge); }
            }
            let fi = st.frames.len() - 1;
            let code = st.frames[fi].code;
            let blk = &code.blocks[st.frames[fi].blk as usize];
            loop {
                let f = &mut st.frames[fi];
                let inst = &blk.insts[f.ip];
                self.steps += 1;
                macro_rules! g { ($o:expr) => { match $o { Opnd::R(r) => f.regs[*r as usize].clone(), Opnd::C(v) => v.clone() } } }
                macro_rules! set { ($d:expr, $v:expr) => { { let v = $v; st.frames[fi].regs[*$d as usize] = v; } } }
                match inst {
                    Inst::Bin { op, w, lanes, a, b, d } => {
                        let (x, y) = (g!(a), g!(b));
                        f.regs[*d as usize] = if *lanes == 0 { bin(*op, *w, &x, &y) } else { lanes2(*lanes, &x, &y, |p, q| bin(*op, *w, p, q)) };
                    }
                    Inst::ICmp { p, w, lanes, a, b, d } => {
                        let (x, y) = (g!(a), g!(b));
                        f.regs[*d as usize] = if *lanes == 0 { icmp(*p, *w, &x, &y) } else { lanes2(*lanes, &x, &y, |r, q| icmp(*p, *w, r, q)) };
                    }
                    Inst::FCmp { p, w, lanes, a, b, d } => { let (x, y) = (g!(a), g!(b)); f.regs[*d as usize] = lanes2(*lanes, &x, &y, |r, q| fcmp(*p, *w, r, q)); }
                    Inst::FNeg { w, lanes, a, d } => { let x = g!(a); let s = Val::I(1u64 << (*w - 1)); f.regs[*d as usize] = lanes1(*lanes, &x, |v| bin(BinOp::Xor, *w, v, &s)); }
                    Inst::Cast { op, from, to, a, d } => { let x = g!(a); f.regs[*d as usize] = cast(*op, from, to, &x); }
                    Inst::Select { c, a, b, ty, vc, d } => {
                        let cv = g!(c);
                        let v = if *vc {
                            let (x, y) = (g!(a), g!(b));
                            let (Val::A(cc), Val::A(x), Val::A(y)) = (&cv, &x, &y) else { panic!() };
                            let Ty::Vec(_, e) = &**ty else { panic!() };
                            Val::A(Rc::new(cc.iter().zip(x.iter().zip(y.iter())).map(|(c, (p, q))| match c { Val::I(k) => if *k != 0 { p.clone() } else { q.clone() }, Val::T(t) => select_val(*t, p, q, e), _ => panic!() }).collect()))
                        } else { match cv { Val::I(k) => if k & 1 != 0 { g!(a) } else { g!(b) }, Val::T(t) => { let (x, y) = (g!(a), g!(b)); select_val(t, &x, &y, ty) } _ => panic!() } };
                        f.regs[*d as usize] = v;
                    }
                    Inst::Mov { a, d } => { let x = g!(a); f.regs[*d as usize] = x; }
                    Inst::Gep { base, off, idx, d } => {
                        let b = g!(base);
                        let mut acc = match b { Val::I(x) => Val::I(x.wrapping_add(*off as u64)), ref v => bin(BinOp::Add, 64, v, &Val::I(*off as u64)) };
                        for (o, sc, w) in idx {
                            let i = g!(o);
                            let i = match i { Val::I(k) => Val::I(sx(k, *w) as u64), Val::T(t) => from_t(if *w < 64 { tm().sext(t, 64) } else { t }), v => v };
                            let m = bin(BinOp::Mul, 64, &i, &Val::I(*sc as u64));
                            acc = bin(BinOp::Add, 64, &acc, &m);
                        }
                        f.regs[*d as usize] = acc;
                    }
                    Inst::Load { ty, p, d } => { let pv = g!(p); let v = self.load(st, ty, &pv)?; set!(d, v); }
                    Inst::Store { ty, v, p } => {
                        let (vv, pv) = (g!(v), g!(p));
                        let a = self.concretize(st, &pv, 64)?;
                        self.store_at(st, ty, a, &vv).map_err(merr)?;
                    }
                    Inst::Alloca { size, n, d } => { let k = match g!(n) { Val::I(k) => k as usize, _ => return Err(Stop::Err("symbolic alloca".into())) }; let a = st.mem.push_stack(size * k); set!(d, Val::I(a)); }
                    Inst::Br(t) => { let t = *t; self.jump(st, t); if self.steps - start_steps > self.lim.max_steps { return Err(Stop::Limit("step limit".into())); } break; }
                    Inst::CondBr(c, t, e) => {
                        let cv = g!(c);
                        let (t, e) = (*t, *e);
                        let take = match cv {
                            Val::I(k) => k & 1 != 0,
                            Val::T(x) => {
                                if self.try_merge(st, x, &mut |me, s, side| me.jump(s, if side { t } else { e })).is_some() { break; }
                                self.branch(st, x, |me, s2, side| me.jump(s2, if side { t } else { e }))?
                            }
                            _ => panic!(),
                        };
                        self.jump(st, if take { t } else { e });
                        break;
                    }
                    Inst::Switch { v, w, cases, def } => {
                        let x = g!(v);
                        let to = match x {
                            Val::I(k) => cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def),
                            Val::T(t) => {
                                // group the cases by target block and branch on membership
                                let mut groups: Vec<(u32, T)> = vec![];
                                for (k, b) in cases {
                                    if *b == *def { continue; }
                                    let kt = tm().cst(*w, *k);
                                    let e = tm().eq(t, kt);
                                    match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = tm().or(g.1, e), None => groups.push((*b, e)) }
                                }
                                if groups.len() <= 40 && !groups.is_empty() {
                                    let (b0, c0) = groups[groups.len() - 1];
                                    // peel one group off; the other side comes back here
                                    let k = if tm().is_const(c0).is_none() { self.try_merge(st, c0, &mut |me, s, side| if side { me.jump(s, b0) }) } else { None };
                                    if k.is_some() { break; }
                                }
                                let cur = groups.iter().find(|g| tm().eval(g.1, &st.model) == 1).copied();
                                match cur {
                                    Some((b, c)) => { self.branch(st, c, |_, _, _| {})?; b }
                                    None => {
                                        let mut any = tm().fls();
                                        for g in &groups { any = tm().or(any, g.1); }
                                        if tm().is_const(any).is_none() { self.branch(st, any, |_, _, _| {})?; }
                                        *def
                                    }
                                }
                            }
                            _ => panic!(),
                        };
                        self.jump(st, to);
                        break;
                    }
                    Inst::Ret(v) => {
                        let rv = v.as_ref().map(|o| g!(o));
                        let fr = st.frames.pop().unwrap();
                        st.mem.stack.truncate(fr.mark);
                        if st.frames.is_empty() { return Ok(()); }
                        let c = st.frames.last_mut().unwrap();
                        if fr.ret != NONE { if let Some(v) = rv { c.regs[fr.ret as usize] = v; } }
                        if fr.next != NONE { let n = fr.next; self.jump(st, n); } else { c.ip += 1; }
                        break;
                    }
                    Inst::Unreachable => {
                        let m = st.model.clone();
                        let w = self.where_(st);
                        return Err(Stop::Fail(self.violation(st, &m, "unreachable", format!("unreachable code executed: {w}"))));
                    }
                    Inst::ExtractValue { a, idx, d } => {
                        let mut v = g!(a);
                        for i in idx { let Val::A(x) = &v else { panic!() }; let n = x[*i as usize].clone(); v = n; }
                        f.regs[*d as usize] = v;
                    }
                    Inst::InsertValue { a, v, idx, d } => {
                        let (mut x, y) = (g!(a), g!(v));
                        fn ins(x: &mut Val, idx: &[u32], y: Val) { if idx.is_empty() { *x = y; } else { let Val::A(r) = x else { panic!() }; ins(&mut Rc::make_mut(r)[idx[0] as usize], &idx[1..], y); } }
                        ins(&mut x, idx, y);
                        f.regs[*d as usize] = x;
                    }
                    Inst::ExtractElt { a, i, d } => {
                        let (x, iv) = (g!(a), g!(i));
                        let k = self.concretize(st, &iv, 64)? as usize;
                        let Val::A(x) = &x else { panic!() };
                        let v = x[k].clone();
                        set!(d, v);
                    }
                    Inst::InsertElt { a, v, i, d } => {
                        let (mut x, y, iv) = (g!(a), g!(v), g!(i));
                        let k = self.concretize(st, &iv, 64)? as usize;
                        { let Val::A(r) = &mut x else { panic!() }; Rc::make_mut(r)[k] = y; }
                        set!(d, x);
                    }
                    Inst::Shuffle { a, b, mask, ew, d } => {
                        let (x, y) = (g!(a), g!(b));
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() };
                        let n = x.len();
                        let v: Vec<Val> = mask.iter().map(|&m| if m < 0 { if *ew > 64 { Val::T(tm().cst(*ew, 0)) } else { Val::I(0) } } else if (m as usize) < n { x[m as usize].clone() } else { y[m as usize - n].clone() }).collect();
                        f.regs[*d as usize] = Val::A(Rc::new(v));
                    }
                    Inst::CmpXchg { p, c, n, ty, d } => {
                        let (pv, cv, nv) = (g!(p), g!(c), g!(n));
                        let a = self.concretize(st, &pv, 64)?;
                        let old = self.load_at(st, ty, a).map_err(merr)?;
                        let e = icmp(32, ty.scalar_w().unwrap(), &old, &cv);
                        let k = self.concretize(st, &e, 1)?;
                        if k != 0 { self.store_at(st, ty, a, &nv).map_err(merr)?; }
                        set!(d, Val::A(Rc::new(vec![old, Val::I(k)])));
                    }
                    Inst::Rmw { op, p, v, ty, d } => {
                        let (pv, vv) = (g!(p), g!(v));
                        let a = self.concretize(st, &pv, 64)?;
                        let w = ty.scalar_w().unwrap();
                        let old = self.load_at(st, ty, a).map_err(merr)?;
                        let new = match op {
                            0 => vv, 1 => bin(BinOp::Add, w, &old, &vv), 2 => bin(BinOp::Sub, w, &old, &vv), 3 => bin(BinOp::And, w, &old, &vv),
                            4 => { let x = bin(BinOp::And, w, &old, &vv); bin(BinOp::Xor, w, &x, &Val::I(m64(w))) }
                            5 => bin(BinOp::Or, w, &old, &vv), 6 => bin(BinOp::Xor, w, &old, &vv),
                            7 | 8 | 9 | 10 => { let pr = match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }; match icmp(pr, w, &old, &vv) { Val::I(k) => if k != 0 { old.clone() } else { vv }, Val::T(t) => select_val(t, &old, &vv, ty), _ => panic!() } }
                            _ => return Err(Stop::Err(format!("atomicrmw {op}"))),
                        };
                        self.store_at(st, ty, a, &new).map_err(merr)?;
                        set!(d, old);
                    }
                    Inst::Call { callee, args, tys, ret, d, next } => {
                        let av: Vec<Val> = args.iter().map(|o| g!(o)).collect();
                        let fid = match callee {
                            Callee::Fn(i) => *i,
                            Callee::Ind(o) => {
                                let v = g!(o);
                                let a = self.concretize(st, &v, 64)?;
                                let id = (a >> 32) as u32;
                                if id < REG_FUNC || (id - REG_FUNC) as usize >= self.md.funcs.len() { return Err(Stop::Err(format!("indirect call to {a:#x}"))); }
                                id - REG_FUNC
                            }
                            Callee::Asm(s) => {
                                if s.contains("cpuid") || s.contains("xgetbv") { if *d != NONE { set!(d, zero_of(ret)); } st.frames[fi].ip += 1; continue; }
                                let nothing = s.trim().is_empty() || (s.trim().starts_with("/*") && s.trim().ends_with("*/") && s.matches("*/").count() == 1);
                                if *d == NONE { st.frames[fi].ip += 1; continue; }
                                // a barrier to the optimiser: the value goes through unchanged
                                if nothing && av.len() == 1 { set!(d, av[0].clone()); st.frames[fi].ip += 1; continue; }
                                return Err(Stop::Err(format!("inline asm {s}")));
                            }
                            Callee::Intr(k) => {
                                let r = self.intrinsic(st, k, av, tys, ret)?;
                                if *d != NONE { set!(d, r); }
                                if *next != NONE { let n = *next; self.jump(st, n); break; }
                                st.frames[fi].ip += 1;
                                continue;
                            }
                        };
                        if let Some(b) = self.md.funcs[fid as usize].builtin.clone() {
                            let r = self.builtin(st, fid, &b, av, tys, ret)?;
                            if *d != NONE { set!(d, r); }
                            if *next != NONE { let n = *next; self.jump(st, n); break; }
                        } else {
                            if st.frames.len() > 2000 { return Err(Stop::Limit("call depth".into())); }
                            let c = self.scode(fid);
                            if av.len() != c.nargs { return Err(Stop::Err("argument count mismatch".into())); }
                            self.push_frame(st, c, av, *d, *next);
                            break;
                        }
                    }
                    Inst::Nop => {}
                    Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported: {s}"))),
                }
                st.frames[fi].ip += 1;
            }
        }
    }

    fn cond_term(&self, v: &Val) -> T { match v { Val::I(k) => tm().cst(1, (*k != 0) as u128), Val::T(t) => { let w = tm().w(*t); if w == 1 { *t } else { let z = tm().cst(w, 0); let e = tm().eq(*t, z); tm().not(e) } } _ => panic!() } }

    fn cstring(&self, st: &State, p: u64, n: u64) -> String { st.mem.bytes(p, n as usize).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|| "<symbolic>".into()) }

    fn builtin(&mut self, st: &mut State, fid: u32, b: &Builtin, a: Vec<Val>, tys: &[Rc<Ty>], ret: &Ty) -> R<Val> {
        macro_rules! k { ($i:expr) => { self.concretize(st, &a[$i], tys[$i].scalar_w().unwrap())? } }
        if !self.spec.is_empty() && matches!(b, Builtin::Sym | Builtin::Assume | Builtin::Check | Builtin::Observe | Builtin::Reach | Builtin::Concretize | Builtin::Log | Builtin::Abort | Builtin::Panic) { return Err(Stop::NoMerge); }
        Ok(match b {
            Builtin::Malloc => { let n = k!(0) as usize; self.chk_alloc(n)?; Val::I(st.mem.alloc(n)) }
            Builtin::Calloc => { let n = (k!(0) * k!(1)) as usize; self.chk_alloc(n)?; Val::I(st.mem.alloc(n)) }
            Builtin::AlignedAlloc => { let n = k!(1) as usize; self.chk_alloc(n)?; Val::I(st.mem.alloc(n)) }
            Builtin::PosixMemalign => { let p = k!(0); let n = k!(2) as usize; self.chk_alloc(n)?; let x = st.mem.alloc(n); self.store_at(st, &Ty::Ptr, p, &Val::I(x)).map_err(merr)?; Val::I(0) }
            Builtin::Realloc => {
                let p = k!(0);
                let n = k!(1) as usize;
                self.chk_alloc(n)?;
                let x = st.mem.alloc(n);
                if p != 0 {
                    let old = st.mem.obj(p, 0).map_err(merr)?.0.data.len();
                    st.mem.copy(x, p, old.min(n)).map_err(merr)?;
                    st.mem.free(p).map_err(merr)?;
                }
                Val::I(x)
            }
            Builtin::Free => { let p = k!(0); st.mem.free(p).map_err(merr)?; Val::I(0) }
            Builtin::Memcpy => { let (d, s, n) = (k!(0), k!(1), k!(2)); st.mem.copy(d, s, n as usize).map_err(merr)?; Val::I(d) }
            Builtin::Memset => { let (d, n) = (k!(0), k!(2)); self.memset(st, d, &a[1], 32, n as usize)?; Val::I(d) }
            Builtin::Memcmp => { let (p, q, n) = (k!(0), k!(1), k!(2) as usize); self.memcmp(st, p, q, n)? }
            Builtin::Strlen => {
                let p = k!(0);
                let mut i = 0;
                loop {
                    let c = self.load_at(st, &Ty::Int(8), p + i).map_err(merr)?;
                    match c { Val::I(0) => break, Val::I(_) => {} _ => return Err(Stop::Err("symbolic strlen".into())) }
                    i += 1;
                }
                Val::I(i)
            }
            Builtin::Memchr => {
                let (p, n) = (k!(0), k!(2));
                let c = bin(BinOp::And, 32, &a[1], &Val::I(0xff));
                let mut r = Val::I(0);
                for i in (0..n).rev() {
                    let x = self.load_at(st, &Ty::Int(8), p + i).map_err(merr)?;
                    let x = cast(CastOp::ZExt, &Ty::Int(8), &Ty::Int(32), &x);
                    let e = self.cond_term(&icmp(32, 32, &x, &c));
                    r = select_val(e, &Val::I(p + i), &r, &Ty::Ptr);
                }
                r
            }
            Builtin::Getrandom => { let (p, n) = (k!(0), k!(1)); self.memset(st, p, &Val::I(0x42), 32, n as usize)?; Val::I(n) }
            Builtin::Ret(v) => Val::I(*v),
            Builtin::RetPtrErrno => Val::I(st.errno),
            Builtin::Write => { let n = k!(2); Val::I(n) }
            Builtin::ClockGettime => { let p = k!(1); self.store_at(st, &Ty::Int(64), p, &Val::I(1_700_000_000)).map_err(merr)?; self.store_at(st, &Ty::Int(64), p + 8, &Val::I(0)).map_err(merr)?; Val::I(0) }
            Builtin::Syscall => { // getrandom (318) only
                let nr = k!(0);
                if nr == 318 { let (p, n) = (k!(1), k!(2)); self.memset(st, p, &Val::I(0x42), 32, n as usize)?; Val::I(n) }
                else { return Err(Stop::Err(format!("syscall {nr}"))) }
            }
            Builtin::Libm(n) => self.libm(n, &a, tys, ret)?,
            Builtin::Abort => { let m = st.model.clone(); return Err(Stop::Fail(self.violation(st, &m, "abort", format!("abort via {}", self.md.funcs[fid as usize].name)))) }
            Builtin::Panic => {
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let Val::I(p) = v {
                        if let (Ok(Val::I(fp)), Ok(Val::I(fl)), Ok(Val::I(ln))) = (self.load_at(st, &Ty::Ptr, *p), self.load_at(st, &Ty::Int(64), p.wrapping_add(8)), self.load_at(st, &Ty::Int(32), p.wrapping_add(16))) {
                            if fl > 0 && fl < 500 { if let Some(b) = st.mem.bytes(fp, fl as usize) { let s = String::from_utf8_lossy(&b); let s = s.trim_end_matches('\0'); if s.ends_with(".rs") { loc = format!("{s}:{ln}"); break; } } }
                        }
                    }
                }
                let n = &self.md.funcs[fid as usize].name;
                let msg = if loc.is_empty() { format!("panic in {n}") } else { format!("panic at {loc}") };
                let m = st.model.clone();
                return Err(Stop::Fail(self.violation(st, &m, "panic", msg)));
            }
            // ---- harness interface
            Builtin::Sym => {
                let (p, n) = (k!(0), k!(1) as usize);
                let (o, off) = st.mem.obj_mut(p, n).map_err(merr)?;
                for i in 0..n { let t = tm().var(8, st.nvars + i as u32); o.write_byte(off + i, t); }
                st.nvars += n as u32;
                Val::I(0)
            }
            Builtin::Assume => { let c = self.cond_term(&a[0]); self.assume(st, c)?; Val::I(0) }
            Builtin::Check => {
                let c = self.cond_term(&a[0]);
                st.checks += 1;
                let (p, n) = (k!(1), k!(2));
                if tm().is_const(c) == Some(1) { self.checks_trivial += 1; self.checks_proved += 1; return Ok(Val::I(0)); }
                let nc = tm().not(c);
                match self.sat(st, nc) {
                    Ok(None) => { self.checks_proved += 1; }
                    Ok(Some(m)) => {
                        let msg = self.cstring(st, p, n);
                        let v = self.violation(st, &m, "check", msg);
                        self.add_violation(v);
                        // continue under the assumption that it holds
                        if tm().is_const(c) == Some(0) { return Err(Stop::Infeasible); }
                        self.assume(st, c)?;
                    }
                    Err(()) => { let msg = self.cstring(st, p, n); self.incomplete.push(format!("solver timeout on check '{msg}'")); }
                }
                Val::I(0)
            }
            Builtin::Observe => {
                let (p, n) = (k!(0), k!(1) as usize);
                if n > 0 { let (o, off) = st.mem.obj(p, n).map_err(merr)?; let v: Vec<T> = (0..n).map(|i| o.byte(off + i)).collect(); st.obs.extend(v); }
                Val::I(0)
            }
            Builtin::Param => { let i = k!(0) as usize; Val::I(*self.params.get(i).unwrap_or(&0)) }
            Builtin::Reach => { let i = k!(0); st.reached.push(i as u32); Val::I(0) }
            Builtin::Concretize => { let v = k!(0); Val::I(v) }
            Builtin::IsSym => Val::I(matches!(a[0], Val::T(_)) as u64),
            Builtin::Log => {
                let (p, n) = (k!(0), k!(1) as usize);
                let mut s = String::new();
                for i in 0..n { match self.load_at(st, &Ty::Int(8), p + i as u64).map_err(merr)? { Val::I(c) => s.push(c as u8 as char), _ => s.push('?') } }
                eprintln!("LOG {s} (steps {})", self.steps);
                Val::I(0)
            }
            Builtin::Unsupported => return Err(Stop::Err(format!("external function {}", self.md.funcs[fid as usize].name))),
        })
    }
    fn chk_alloc(&self, n: usize) -> R<()> { if n > 1 << 28 { Err(Stop::Limit(format!("allocation of {n} bytes"))) } else { Ok(()) } }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, w: u16, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = st.mem.obj_mut(d, n).map_err(merr)?;
        match v {
            Val::I(k) => { let b = vec![*k as u8; n]; o.write_conc(off, &b); }
            Val::T(t) => { let e = if w > 8 { tm().extract(*t, 7, 0) } else { *t }; for i in 0..n { o.write_byte(off + i, e); } }
            _ => panic!(),
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: usize) -> R<Val> {
        if n == 0 { return Ok(Val::I(0)); }
        let (o1, f1) = st.mem.obj(p, n).map_err(merr)?;
        let (o2, f2) = st.mem.obj(q, n).map_err(merr)?;
        if o1.is_concrete(f1, n) && o2.is_concrete(f2, n) {
            let c = o1.data[f1..f1 + n].cmp(&o2.data[f2..f2 + n]);
            return Ok(Val::I(match c { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
        }
        let m = tm();
        let mut r = m.cst(32, 0);
        let (one, minus) = (m.cst(32, 1), m.cst(32, 0xffff_ffff));
        for i in (0..n).rev() {
            let (x, y) = (o1.byte(f1 + i), o2.byte(f2 + i));
            if x == y { continue; }
            let e = m.eq(x, y);
            let l = m.ult(x, y);
            let d = m.ite(l, minus, one);
            r = m.ite(e, r, d);
        }
        Ok(from_t(r))
    }
    fn libm(&mut self, n: &str, a: &[Val], tys: &[Rc<Ty>], ret: &Ty) -> R<Val> {
        if ret.lanes() > 0 { return Err(Stop::Err(format!("vector {n}"))); }
        if let Some(c) = a.iter().map(|v| if let Val::I(k) = v { Some(*k) } else { None }).collect::<Option<Vec<u64>>>() {
            return match libm(n, &c) { Some(r) => Ok(Val::I(r)), None => Err(Stop::Err(format!("libm {n}"))) };
        }
        let ts: Vec<T> = a.iter().zip(tys).map(|(v, t)| to_t(v, t.scalar_w().unwrap())).collect();
        let w = ret.scalar_w().unwrap();
        if n.starts_with("fmod") { return Ok(from_t(tm().fop(Op::FRem, ts[0], ts[1], 0))); }
        let key = (n.to_string(), ts.clone());
        if let Some(&t) = self.uf_map.get(&key) { return Ok(from_t(t)); }
        let m = tm();
        let id = m.ufs.len();
        m.ufs.push((n.to_string(), ts));
        let t = m.uf_term(w, id as u32);
        self.uf_map.insert(key, t);
        Ok(from_t(t))
    }
    fn intrinsic(&mut self, st: &mut State, k: &Intr, a: Vec<Val>, tys: &[Rc<Ty>], ret: &Ty) -> R<Val> {
        macro_rules! k { ($i:expr) => { self.concretize(st, &a[$i], tys[$i].scalar_w().unwrap())? } }
        match k {
            Intr::Memcpy => { let (d, s, n) = (k!(0), k!(1), k!(2)); st.mem.copy(d, s, n as usize).map_err(merr)?; return Ok(Val::I(0)); }
            Intr::Memset => { let (d, n) = (k!(0), k!(2)); self.memset(st, d, &a[1], 8, n as usize)?; return Ok(Val::I(0)); }
            Intr::Tls | Intr::Expect => return Ok(a[0].clone()),
            Intr::IsConst => return Ok(Val::I(0)),
            Intr::ObjSize => return Ok(Val::I(u64::MAX)),
            Intr::StackSave => return Ok(Val::I(0)),
            Intr::PtrMask => return Ok(bin(BinOp::And, 64, &a[0], &a[1])),
            Intr::Trap => { let m = st.model.clone(); let w = self.where_(st); return Err(Stop::Fail(self.violation(st, &m, "trap", format!("trap at {w}")))); }
            Intr::LoadRel => {
                let (p, o) = (k!(0), k!(1));
                return match self.md.rel.get(&p.wrapping_add(o)) { Some(t) => Ok(Val::I(*t)), None => Err(Stop::Err("load.relative".into())) };
            }
            Intr::Libm(n) => return self.libm(n, &a, tys, ret),
            Intr::Unknown(n) => return Err(Stop::Err(format!("intrinsic {n}"))),
            Intr::RedAdd | Intr::RedOr | Intr::RedAnd | Intr::RedXor | Intr::RedMul | Intr::RedUmax | Intr::RedUmin | Intr::RedSmax | Intr::RedSmin => {
                let Val::A(x) = &a[0] else { panic!() };
                let w = tys[0].elem_w();
                let mut acc = x[0].clone();
                for l in &x[1..] {
                    acc = match k {
                        Intr::RedAdd => bin(BinOp::Add, w, &acc, l), Intr::RedOr => bin(BinOp::Or, w, &acc, l), Intr::RedAnd => bin(BinOp::And, w, &acc, l), Intr::RedXor => bin(BinOp::Xor, w, &acc, l), Intr::RedMul => bin(BinOp::Mul, w, &acc, l),
                        Intr::RedUmax => minmax(34, w, &acc, l), Intr::RedUmin => minmax(36, w, &acc, l), Intr::RedSmax => minmax(38, w, &acc, l), _ => minmax(40, w, &acc, l),
                    };
                }
                return Ok(acc);
            }
            Intr::RedFmin | Intr::RedFmax => {
                let Val::A(x) = &a[0] else { panic!() };
                let w = tys[0].elem_w();
                let op = if matches!(k, Intr::RedFmin) { Op::FMin } else { Op::FMax };
                let mut acc = x[0].clone();
                for l in &x[1..] { acc = from_t(tm().fop(op, to_t(&acc, w), to_t(l, w), 0)); }
                return Ok(acc);
            }
            Intr::Pmovmskb => {
                let Val::A(x) = &a[0] else { panic!() };
                let mut acc = tm().cst(16, 0);
                for (i, l) in x.iter().enumerate() {
                    let t = to_t(l, 8);
                    let b = tm().extract(t, 7, 7);
                    let z = tm().zext(b, 16);
                    let s = tm().cst(16, i as u128);
                    let sh = tm().shl(z, s);
                    acc = tm().or(acc, sh);
                }
                return Ok(from_t(tm().zext(acc, 32)));
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                if tys[0].lanes() > 0 { return Err(Stop::Err("vector overflow intrinsic".into())); }
                let w = tys[0].scalar_w().unwrap();
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let (ux, uy) = (x as u128, y as u128);
                    let (ix, iy) = (sx(x, w) as i128, sx(y, w) as i128);
                    let mx = m64(w) as u128;
                    let (r, o) = match k {
                        Intr::UaddO => (ux + uy, ux + uy > mx),
                        Intr::UsubO => (ux.wrapping_sub(uy), ux < uy),
                        Intr::UmulO => (ux * uy, ux * uy > mx),
                        _ => { let r = match k { Intr::SaddO => ix + iy, Intr::SsubO => ix - iy, _ => ix * iy }; (r as u128, r != sx(r as u64 & m64(w), w) as i128) }
                    };
                    return Ok(Val::A(Rc::new(vec![Val::I(r as u64 & m64(w)), Val::I(o as u64)])));
                }
                let m = tm();
                let (x, y) = (to_t(&a[0], w), to_t(&a[1], w));
                let (r, o) = match k {
                    Intr::UaddO => { let r = m.add(x, y); if m.umax[x as usize].checked_add(m.umax[y as usize]).map_or(false, |s| s <= mask(w)) { (r, m.fls()) } else { (r, m.ult(r, x)) } }
                    Intr::UsubO => { let r = m.sub(x, y); (r, m.ult(x, y)) }
                    Intr::UmulO => {
                        let r = m.mul(x, y);
                        if m.umax[x as usize].checked_mul(m.umax[y as usize]).map_or(false, |s| s <= mask(w)) { (r, m.fls()) }
                        else if let Some(c) = m.is_const(y) { if c == 0 { (r, m.fls()) } else { let l = m.cst(w, mask(w) / c); (r, m.ult(l, x)) } }
                        else { let (x2, y2) = (m.zext(x, 2 * w), m.zext(y, 2 * w)); let p = m.mul(x2, y2); let h = m.extract(p, 2 * w - 1, w); let z = m.cst(w, 0); let e = m.eq(h, z); (r, m.not(e)) }
                    }
                    _ => {
                        let w2 = if *k == Intr::SmulO { 2 * w } else { w + 1 };
                        let (x2, y2) = (m.sext(x, w2), m.sext(y, w2));
                        let p = match k { Intr::SaddO => m.add(x2, y2), Intr::SsubO => m.sub(x2, y2), _ => m.mul(x2, y2) };
                        let r = m.extract(p, w - 1, 0);
                        let back = m.sext(r, w2);
                        let e = m.eq(back, p);
                        (r, m.not(e))
                    }
                };
                return Ok(Val::A(Rc::new(vec![from_t(r), from_t(o)])));
            }
            _ => {}
        }
        // element-wise intrinsics
        let lanes = ret.lanes().max(tys[0].lanes());
        if lanes > 0 {
            let Ty::Vec(_, re) = ret else { return Err(Stop::Err(format!("vector intrinsic {k:?}"))) };
            let mut out = vec![];
            for i in 0..lanes {
                let la: Vec<Val> = a.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                let lt: Vec<Rc<Ty>> = tys.iter().map(|t| if let Ty::Vec(_, e) = &**t { e.clone() } else { t.clone() }).collect();
                out.push(self.scalar_intr(k, &la, &lt, re)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        self.scalar_intr(k, &a, tys, ret)
    }
    fn scalar_intr(&mut self, k: &Intr, a: &[Val], tys: &[Rc<Ty>], ret: &Ty) -> R<Val> {
        let w = tys[0].scalar_w().unwrap();
        if let Val::I(x) = a[0] {
            let x = x & m64(w);
            match k {
                Intr::Cttz => return Ok(Val::I(if x == 0 { w as u64 } else { x.trailing_zeros() as u64 })),
                Intr::Ctlz => return Ok(Val::I(if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) })),
                Intr::Ctpop => return Ok(Val::I(x.count_ones() as u64)),
                Intr::Bswap => return Ok(Val::I(x.swap_bytes() >> (64 - w))),
                Intr::Bitreverse => return Ok(Val::I(x.reverse_bits() >> (64 - w))),
                _ => {}
            }
        }
        let m = tm();
        let rw = ret.scalar_w().unwrap();
        let x = to_t(&a[0], w);
        let f1 = |m: &mut Tm, kk: u128| from_t(m.fconv(Op::FRound, x, w, kk));
        Ok(match k {
            Intr::Cttz | Intr::Ctlz => {
                let mut r = m.cst(w, w as u128);
                let order: Vec<u16> = if *k == Intr::Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                for i in order { let b = m.extract(x, i, i); let v = m.cst(w, if *k == Intr::Cttz { i } else { w - 1 - i } as u128); r = m.ite(b, v, r); }
                from_t(r)
            }
            Intr::Ctpop => { let mut r = m.cst(w, 0); for i in 0..w { let b = m.extract(x, i, i); let z = m.zext(b, w); r = m.add(r, z); } from_t(r) }
            Intr::Bswap => { let n = w / 8; let mut r = m.extract(x, w - 1, w - 8); for i in (0..n - 1).rev() { let b = m.extract(x, i * 8 + 7, i * 8); r = m.concat(b, r); } from_t(r) }
            Intr::Bitreverse => { let mut r = m.extract(x, w - 1, w - 1); for i in (0..w - 1).rev() { let b = m.extract(x, i, i); r = m.concat(b, r); } from_t(r) }
            Intr::Fshl | Intr::Fshr => {
                let y = to_t(&a[1], w);
                let s = to_t(&a[2], w);
                let wt = m.cst(w, w as u128);
                let s = m.urem(s, wt);
                let z = m.cst(w, 0);
                let is0 = m.eq(s, z);
                let inv = m.sub(wt, s);
                let (p, q, d) = if *k == Intr::Fshl { (m.shl(x, s), m.lshr(y, inv), x) } else { (m.shl(x, inv), m.lshr(y, s), y) };
                let r = m.or(p, q);
                from_t(m.ite(is0, d, r))
            }
            Intr::Umax => minmax(34, w, &a[0], &a[1]), Intr::Umin => minmax(36, w, &a[0], &a[1]), Intr::Smax => minmax(38, w, &a[0], &a[1]), Intr::Smin => minmax(40, w, &a[0], &a[1]),
            Intr::Abs => { let n = m.neg(x); let z = m.cst(w, 0); let s = m.slt(x, z); from_t(m.ite(s, n, x)) }
            Intr::UaddSat => { let y = to_t(&a[1], w); let r = m.add(x, y); let o = m.ult(r, x); let mx = m.cst(w, mask(w)); from_t(m.ite(o, mx, r)) }
            Intr::UsubSat => { let y = to_t(&a[1], w); let r = m.sub(x, y); let o = m.ult(x, y); let z = m.cst(w, 0); from_t(m.ite(o, z, r)) }
            Intr::SaddSat | Intr::SsubSat => {
                let y = to_t(&a[1], w);
                let (x2, y2) = (m.sext(x, w + 1), m.sext(y, w + 1));
                let p = if *k == Intr::SaddSat { m.add(x2, y2) } else { m.sub(x2, y2) };
                let r = m.extract(p, w - 1, 0);
                let back = m.sext(r, w + 1);
                let e = m.eq(back, p);
                let neg = m.extract(p, w, w);
                let (lo, hi) = (m.cst(w, 1u128 << (w - 1)), m.cst(w, mask(w) >> 1));
                let sat = m.ite(neg, lo, hi);
                from_t(m.ite(e, r, sat))
            }
            Intr::Ucmp | Intr::Scmp => {
                let y = to_t(&a[1], w);
                let l = if *k == Intr::Ucmp { m.ult(x, y) } else { m.slt(x, y) };
                let e = m.eq(x, y);
                let (one, z, mi) = (m.cst(rw, 1), m.cst(rw, 0), m.cst(rw, mask(rw)));
                let g = m.ite(e, z, one);
                from_t(m.ite(l, mi, g))
            }
            Intr::Fabs => { let k = m.cst(w, mask(w) >> 1); from_t(m.and(x, k)) }
            Intr::Copysign => { let y = to_t(&a[1], w); let k = m.cst(w, mask(w) >> 1); let s = m.cst(w, 1u128 << (w - 1)); let p = m.and(x, k); let q = m.and(y, s); from_t(m.or(p, q)) }
            Intr::Sqrt => from_t(m.fop(Op::FSqrt, x, 0, 0)),
            Intr::Fma => { let (y, z) = (to_t(&a[1], w), to_t(&a[2], w)); from_t(m.fop(Op::FFma, x, y, z)) }
            Intr::Trunc => f1(m, 0), Intr::Floor => f1(m, 1), Intr::Ceil => f1(m, 2), Intr::Round => f1(m, 3), Intr::Rint => f1(m, 4),
            Intr::MinNum => { let y = to_t(&a[1], w); from_t(m.fop(Op::FMin, x, y, 0)) }
            Intr::MaxNum => { let y = to_t(&a[1], w); from_t(m.fop(Op::FMax, x, y, 0)) }
            Intr::FToUSat => from_t(m.fconv(Op::FToU, x, rw, 0)),
            Intr::FToSSat => from_t(m.fconv(Op::FToS, x, rw, 0)),
            Intr::IsFpClass => {
                let Val::I(mask_) = a[1] else { return Err(Stop::Err("is.fpclass".into())) };
                let (eb, mb) = if w == 32 { (8u16, 23u16) } else { (11, 52) };
                let man = m.extract(x, mb - 1, 0); let ex = m.extract(x, mb + eb - 1, mb); let sg = m.extract(x, w - 1, w - 1);
                let (mz, ez, eo) = { let a0 = m.cst(mb, 0); let b0 = m.cst(eb, 0); let b1 = m.cst(eb, mask(eb)); (m.eq(man, a0), m.eq(ex, b0), m.eq(ex, b1)) };
                let nmz = m.not(mz); let nez = m.not(ez); let neo = m.not(eo); let pos = m.not(sg);
                let nan = m.and(eo, nmz); let inf = m.and(eo, mz); let zero = m.and(ez, mz); let sub = m.and(ez, nmz); let nor = m.and(nez, neo);
                let q = m.extract(x, mb - 1, mb - 1); let nq = m.not(q);
                let cls: [T; 10] = [m.and(nan, nq), m.and(nan, q), m.and(inf, sg), m.and(nor, sg), m.and(sub, sg), m.and(zero, sg), m.and(zero, pos), m.and(sub, pos), m.and(nor, pos), m.and(inf, pos)];
                let mut r = m.fls();
                for (i, c) in cls.iter().enumerate() { if mask_ >> i & 1 == 1 { r = m.or(r, *c); } }
                from_t(r)
            }
            _ => return Err(Stop::Err(format!("intrinsic {k:?}"))),
        })
    }
}
fn minmax(p: u32, w: u16, a: &Val, b: &Val) -> Val {
    match icmp(p, w, a, b) { Val::I(k) => if k != 0 { a.clone() } else { b.clone() }, Val::T(t) => { let (x, y) = (to_t(a, w), to_t(b, w)); from_t(tm().ite(t, x, y)) } _ => panic!() }
}
