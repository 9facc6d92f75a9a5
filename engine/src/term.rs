//! Hash-consed bit-vector / floating point terms with a local simplifier.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite, Table,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FEq, FLt, FLe, FIsNan, FExt, FTrunc,
    FToS, FToU, SToF, UToF, FRound, FMin, FMax, Uf,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: T, pub b: T, pub c: T, pub k: u128 }

pub struct Tm {
    pub nodes: Vec<Node>,
    pub umax: Vec<u128>,
    map: FxMap<Node, T>,
    pub tables: Vec<Rc<Vec<u8>>>,
    table_map: HashMap<Vec<u8>, u32>,
    // variable sets (interned)
    vset: Vec<u32>, // per term; 0 = not computed
    pub sets: Vec<Rc<Vec<u32>>>,
    set_map: HashMap<Rc<Vec<u32>>, u32>,
    union_cache: FxMap<(u32, u32), u32>,
    // evaluation cache
    ev: Vec<u128>,
    ev_stamp: Vec<u32>,
    ev_epoch: u32,
    ev_model: u64,
    pub ufs: Vec<(String, Vec<T>)>,
}

struct G(UnsafeCell<Option<Tm>>);
unsafe impl Sync for G {}
static TM: G = G(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn tm() -> &'static mut Tm {
    unsafe {
        let o = &mut *TM.0.get();
        if o.is_none() { *o = Some(Tm::new()); }
        o.as_mut().unwrap_unchecked()
    }
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

impl Tm {
    fn new() -> Tm {
        let mut t = Tm {
            nodes: vec![], umax: vec![], map: Default::default(), tables: vec![], table_map: Default::default(),
            vset: vec![], sets: vec![], set_map: Default::default(), union_cache: Default::default(),
            ev: vec![], ev_stamp: vec![], ev_epoch: 1, ev_model: 0, ufs: vec![],
        };
        // term 0 is reserved
        t.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        t.umax.push(0);
        t.vset.push(0);
        let e = Rc::new(vec![]);
        t.sets.push(e.clone()); // id 0 unused marker
        t.sets.push(e.clone()); // id 1 = empty
        t.set_map.insert(e, 1);
        t
    }
    fn put(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let id = self.nodes.len() as T;
        let um = self.compute_umax(&n);
        self.nodes.push(n.clone());
        self.umax.push(um);
        self.vset.push(0);
        self.map.insert(n, id);
        id
    }
    fn compute_umax(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let u = |t: T| self.umax[t as usize];
        let cap = |x: u128| -> u128 { // all ones up to the top bit
            if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u16) } };
        match n.op {
            Op::Const => n.k,
            Op::ZExt => u(n.a),
            Op::And => u(n.a).min(u(n.b)),
            Op::Or | Op::Xor => cap(u(n.a) | u(n.b)).min(m),
            Op::Ite => u(n.b).max(u(n.c)),
            Op::LShr => if let Some(k) = self.is_const(n.b) { if k >= n.w as u128 { 0 } else { u(n.a) >> k } } else { u(n.a) },
            Op::UDiv => if let Some(k) = self.is_const(n.b) { if k == 0 { m } else { u(n.a) / k } } else { u(n.a).max(m) },
            Op::URem => if let Some(k) = self.is_const(n.b) { if k == 0 { u(n.a) } else { u(n.a).min(k - 1) } } else { u(n.a) },
            Op::Add => u(n.a).checked_add(u(n.b)).filter(|x| *x <= m).unwrap_or(m),
            Op::Mul => u(n.a).checked_mul(u(n.b)).filter(|x| *x <= m).unwrap_or(m),
            Op::Concat => { let lw = self.nodes[n.b as usize].w; (u(n.a) << lw) | mask(lw).min(cap(u(n.b)).max(u(n.b))) }
            Op::Extract => { let x = u(n.a) >> n.k; x.min(m) }
            Op::Shl => if let Some(k) = self.is_const(n.b) { if k < 127 { u(n.a).checked_shl(k as u32).filter(|x| *x <= m && (*x >> k) == u(n.a)).unwrap_or(m) } else { m } } else { m },
            Op::Table => { // max over entries is not worth computing except for small tables
                m }
            _ => m,
        }
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    #[inline]
    pub fn is_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn cst(&mut self, w: u16, k: u128) -> T { self.put(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) }) }
    pub fn var(&mut self, w: u16, id: u32) -> T { self.put(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 }) }
    pub fn tru(&mut self) -> T { self.cst(1, 1) }
    pub fn fls(&mut self) -> T { self.cst(1, 0) }
    fn mk(&mut self, op: Op, w: u16, a: T, b: T, c: T, k: u128) -> T { self.put(Node { op, w, a, b, c, k }) }
    #[inline]
    fn n(&self, t: T) -> Node { self.nodes[t as usize].clone() }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(a) { return self.cst(w, !k); }
        let n = self.n(a);
        if n.op == Op::Not { return n.a; }
        if w == 1 {
            match n.op {
                Op::Ult => return self.ule(n.b, n.a),
                Op::Ule => return self.ult(n.b, n.a),
                Op::Slt => return self.sle(n.b, n.a),
                Op::Sle => return self.slt(n.b, n.a),
                _ => {}
            }
        }
        if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
            let x = self.not(n.b); let y = self.not(n.c);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::Not, w, a, 0, 0, 0)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b { return a; }
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(w, j & k); }
            if k == 0 { return b; }
            if k == mask(w) { return a; }
            if self.umax[a as usize] & !k == 0 && (k & (k + 1)) == 0 { return a; }
            // contiguous mask [lo, hi)
            let lo = k.trailing_zeros() as u16;
            let hi = 128 - k.leading_zeros() as u16;
            if k == mask(hi) & !mask(lo) {
                let mid = self.extract(a, hi - 1, lo);
                let mut r = mid;
                if lo > 0 { let z = self.cst(lo, 0); r = self.concat(r, z); }
                return self.zext(r, w);
            }
            let n = self.n(a);
            if n.op == Op::And { if let Some(j) = self.is_const(n.b) { let c = self.cst(w, j & k); return self.and(n.a, c); } }
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let x = self.and(n.b, b); let y = self.and(n.c, b); return self.ite(n.a, x, y);
            }
        }
        if let Some(r) = self.split_bitop(Op::And, a, b) { return r; }
        if w == 1 {
            let na = self.n(a); let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(1, 0); }
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            // x == k1 & x == k2
            if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a {
                if let (Some(j), Some(k)) = (self.is_const(na.b), self.is_const(nb.b)) { if j != k { return self.cst(1, 0); } }
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b { return a; }
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(w, j | k); }
            if k == 0 { return a; }
            if k == mask(w) { return b; }
        }
        if w == 1 {
            let na = self.n(a); let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(1, 1); }
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
        }
        if let Some(r) = self.split_bitop(Op::Or, a, b) { return r; }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(w, j ^ k); }
            if k == 0 { return a; }
            if k == mask(w) { return self.not(a); }
            let n = self.n(a);
            if n.op == Op::Xor { if let Some(j) = self.is_const(n.b) { let c = self.cst(w, j ^ k); return self.xor(n.a, c); } }
        }
        // x ^ (x ^ y) = y
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
        if let Some(r) = self.split_bitop(Op::Xor, a, b) { return r; }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    /// Bitwise ops over concatenations: split at a concat boundary when one side is
    /// constant (zero/ones) on one of the parts.
    fn split_bitop(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            let cut = match n.op {
                Op::Concat => self.w(n.b),
                Op::ZExt => self.w(n.a),
                _ => continue,
            };
            let (xh, xl) = if n.op == Op::Concat { (n.a, n.b) } else { (self.cst(w - cut, 0), n.a) };
            let yh = self.extract(y, w - 1, cut);
            let yl = self.extract(y, cut - 1, 0);
            let simple = |s: &Tm, p: T, q: T| {
                for t in [p, q] { if let Some(k) = s.is_const(t) { if k == 0 || k == mask(s.w(t)) { return true; } } }
                s.is_const(p).is_some() && s.is_const(q).is_some()
            };
            let compl = |s: &Tm, t: T| matches!(s.nodes[t as usize].op, Op::Concat | Op::ZExt | Op::Const);
            if simple(self, xh, yh) || simple(self, xl, yl) || (compl(self, x) && compl(self, y)) {
                let h = match op { Op::And => self.and(xh, yh), Op::Or => self.or(xh, yh), _ => self.xor(xh, yh) };
                let l = match op { Op::And => self.and(xl, yl), Op::Or => self.or(xl, yl), _ => self.xor(xl, yl) };
                return Some(self.concat(h, l));
            }
        }
        None
    }
    fn order(&self, a: T, b: T) -> (T, T) {
        let ca = self.is_const(a).is_some();
        let cb = self.is_const(b).is_some();
        if ca && !cb { (b, a) } else if cb && !ca { (a, b) } else if a <= b { (a, b) } else { (b, a) }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(w, j.wrapping_add(k)); }
            if k == 0 { return a; }
            let n = self.n(a);
            match n.op {
                Op::Add => if let Some(j) = self.is_const(n.b) { let c = self.cst(w, j.wrapping_add(k)); return self.add(n.a, c); },
                Op::Ite => if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let x = self.add(n.b, b); let y = self.add(n.c, b); return self.ite(n.a, x, y);
                },
                Op::Concat | Op::ZExt => {
                    // adding a constant that only touches the high part, or low zeros
                    let cut = if n.op == Op::Concat { self.w(n.b) } else { self.w(n.a) };
                    if k & mask(cut) == 0 && cut < w {
                        let (h, l) = if n.op == Op::Concat { (n.a, n.b) } else { (self.cst(w - cut, 0), n.a) };
                        let kc = self.cst(w - cut, k >> cut);
                        let h2 = self.add(h, kc);
                        return self.concat(h2, l);
                    }
                    if n.op == Op::Concat && self.is_const(n.b) == Some(0) && k < (1u128 << cut) {
                        let l2 = self.cst(cut, k);
                        return self.concat(n.a, l2);
                    }
                }
                _ => {}
            }
        } else {
            let na = self.n(a); let nb = self.n(b);
            // pull constants outwards
            if na.op == Op::Add { if let Some(_) = self.is_const(na.b) { let s = self.add(na.a, b); return self.add(s, na.b); } }
            if nb.op == Op::Add { if let Some(_) = self.is_const(nb.b) { let s = self.add(a, nb.a); return self.add(s, nb.b); } }
            if na.op == Op::Sub && na.b == b { return na.a; }
            if nb.op == Op::Sub && nb.b == a { return nb.a; }
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        if let Some(k) = self.is_const(b) { let c = self.cst(w, k.wrapping_neg()); return self.add(a, c); }
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Add {
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
            if self.is_const(na.b).is_some() { let s = self.sub(na.a, b); return self.add(s, na.b); }
        }
        if nb.op == Op::Add {
            if let Some(k) = self.is_const(nb.b) { let s = self.sub(a, nb.a); let c = self.cst(w, k.wrapping_neg()); return self.add(s, c); }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: T) -> T { let w = self.w(a); let z = self.cst(w, 0); self.sub(z, a) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(w, j.wrapping_mul(k)); }
            if k == 0 { return b; }
            if k == 1 { return a; }
            if k.is_power_of_two() { let s = self.cst(w, k.trailing_zeros() as u128); return self.shl(a, s); }
            let n = self.n(a);
            if n.op == Op::Mul { if let Some(j) = self.is_const(n.b) { let c = self.cst(w, j.wrapping_mul(k)); return self.mul(n.a, c); } }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 1 { return a; }
            if k != 0 {
                if let Some(j) = self.is_const(a) { return self.cst(w, j / k); }
                if self.umax[a as usize] < k { return self.cst(w, 0); }
                if k.is_power_of_two() { let s = self.cst(w, k.trailing_zeros() as u128); return self.lshr(a, s); }
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k != 0 {
                if let Some(j) = self.is_const(a) { return self.cst(w, j % k); }
                if self.umax[a as usize] < k { return a; }
                if k.is_power_of_two() { let s = self.cst(w, k - 1); return self.and(a, s); }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (sext(j, w), sext(k, w));
            if y != 0 { return self.cst(w, x.wrapping_div(y) as u128); }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (sext(j, w), sext(k, w));
            if y != 0 { return self.cst(w, x.wrapping_rem(y) as u128); }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            if let Some(j) = self.is_const(a) { return self.cst(w, j << k); }
            let k = k as u16;
            let hi = self.extract(a, w - 1 - k, 0);
            let z = self.cst(k, 0);
            return self.concat(hi, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            let hi = self.extract(a, w - 1, k as u16);
            return self.zext(hi, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1);
            let hi = self.extract(a, w - 1, k as u16);
            return self.sext(hi, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let Some(k) = self.is_const(h) {
            if let Some(j) = self.is_const(l) { return self.cst(w, (k << wl) | j); }
            if k == 0 { return self.zext(l, w); }
        }
        let nh = self.n(h); let nl = self.n(l);
        // merge adjacent extracts
        if let Some(m) = self.adjacent(h, l) { return m; }
        if nl.op == Op::Concat {
            if let Some(m) = self.adjacent(h, nl.a) { return self.concat(m, nl.b); }
            if let (Some(_), Some(_)) = (self.is_const(h), self.is_const(nl.a)) { let m = self.concat(h, nl.a); return self.concat(m, nl.b); }
        }
        if nh.op == Op::Concat {
            // right-nest
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        // ite with constants on one condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b); let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Ite && self.is_const(nh.b).is_some() && self.is_const(nh.c).is_some() && self.is_const(l).is_some() {
            let x = self.concat(nh.b, l); let y = self.concat(nh.c, l);
            return self.ite(nh.a, x, y);
        }
        if nl.op == Op::Ite && self.is_const(nl.b).is_some() && self.is_const(nl.c).is_some() && self.is_const(h).is_some() {
            let x = self.concat(h, nl.b); let y = self.concat(h, nl.c);
            return self.ite(nl.a, x, y);
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    /// extract(x, hi..) ++ extract(x, lo..) with touching ranges
    fn adjacent(&mut self, h: T, l: T) -> Option<T> {
        let nh = self.n(h);
        if nh.op != Op::Extract { return None; }
        let nl = self.n(l);
        let (xl, lol, wl) = if nl.op == Op::Extract { (nl.a, nl.k as u16, nl.w) } else { (l, 0, nl.w) };
        if xl == nh.a && nh.k as u16 == lol + wl {
            return Some(self.extract(xl, nh.k as u16 + nh.w - 1, lol));
        }
        // sign-bit extension pieces are handled in sext()
        None
    }
    pub fn extract(&mut self, a: T, hi: u16, lo: u16) -> T {
        let wa = self.w(a);
        debug_assert!(hi < wa && lo <= hi);
        if lo == 0 && hi + 1 == wa { return a; }
        let w = hi - lo + 1;
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => { let b = n.k as u16; return self.extract(n.a, hi + b, lo + b); }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, hi - wl, lo - wl); }
                if hi < wl { return self.extract(n.b, hi, lo); }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi { return self.cst(w, 0); }
                if hi < wi { return self.extract(n.a, hi, lo); }
                let l = self.extract(n.a, wi - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi { return self.extract(n.a, hi, lo); }
                if lo < wi { let l = self.extract(n.a, wi - 1, lo); return self.sext(l, w); }
                let s = self.extract(n.a, wi - 1, wi - 1);
                return self.sext(s, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            Op::Not => { let x = self.extract(n.a, hi, lo); return self.not(x); }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) };
            }
            _ => {}
        }
        if self.umax[a as usize] >> lo == 0 { return self.cst(w, 0); }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                let x = self.zext(n.b, w); let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            },
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        let n = self.n(a);
        if wa == 1 && n.op != Op::Const { let x = self.cst(w, u128::MAX); let y = self.cst(w, 0); return self.ite(a, x, y); }
        match n.op {
            Op::Const => return self.cst(w, sext(n.k, wa) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                let x = self.sext(n.b, w); let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            },
            _ => {}
        }
        if self.umax[a as usize] >> (wa - 1) == 0 { return self.zext(a, w); }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.is_const(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // ite(x == k, k, x) = x
        if nc.op == Op::Eq {
            if nc.a == b && nc.b == a { return b; }
            if nc.a == a && nc.b == b { return b; }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 1); }
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        let n = self.n(a);
        if let Some(k) = self.is_const(b) {
            if let Some(j) = self.is_const(a) { return self.cst(1, (j == k) as u128); }
            if w == 1 { return if k == 1 { a } else { self.not(a) }; }
            if self.umax[a as usize] < k { return self.cst(1, 0); }
            match n.op {
                Op::ZExt => { let wi = self.w(n.a); if k > mask(wi) { return self.cst(1, 0); } let c = self.cst(wi, k); return self.eq(n.a, c); }
                Op::SExt => { let wi = self.w(n.a); let c = self.cst(wi, k); if (sext(k & mask(wi), wi) as u128) & mask(w) != k { return self.cst(1, 0); } return self.eq(n.a, c); }
                Op::Add => if let Some(j) = self.is_const(n.b) { let c = self.cst(w, k.wrapping_sub(j)); return self.eq(n.a, c); },
                Op::Xor => if let Some(j) = self.is_const(n.b) { let c = self.cst(w, k ^ j); return self.eq(n.a, c); },
                Op::Not => { let c = self.cst(w, !k); return self.eq(n.a, c); }
                Op::Ite => {
                    if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                        let x = self.eq(n.b, b); let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    let kh = self.cst(w - wl, k >> wl); let kl = self.cst(wl, k);
                    let x = self.eq(n.a, kh);
                    if self.is_const(x) == Some(0) { return x; }
                    let y = self.eq(n.b, kl);
                    return self.and(x, y);
                }
                Op::Sub => if k == 0 { return self.eq(n.a, n.b); },
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if n.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(n.a), self.w(nb.a));
                if wa == wb { return self.eq(n.a, nb.a); }
                if wa < wb { let x = self.zext(n.a, wb); return self.eq(x, nb.a); }
                let x = self.zext(nb.a, wa); return self.eq(n.a, x);
            }
            if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                let x = self.eq(n.a, nb.a); let y = self.eq(n.b, nb.b);
                return self.and(x, y);
            }
            if n.op == Op::Add && nb.op == Op::Add {
                if n.b == nb.b { return self.eq(n.a, nb.a); }
                if n.a == nb.a { return self.eq(n.b, nb.b); }
            }
            if n.op == Op::Ite && nb.op == Op::Ite && n.a == nb.a {
                let x = self.eq(n.b, nb.b); let y = self.eq(n.c, nb.c);
                return self.ite(n.a, x, y);
            }
            if n.op == Op::Ite && (n.b == b || n.c == b) {
                let x = self.eq(n.b, b); let y = self.eq(n.c, b);
                return self.ite(n.a, x, y);
            }
            if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
                let x = self.eq(nb.b, a); let y = self.eq(nb.c, a);
                return self.ite(nb.a, x, y);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 0); }
        if let (Some(j), Some(k)) = (self.is_const(a), self.is_const(b)) { return self.cst(1, (j < k) as u128); }
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return self.cst(1, 0); }
            if self.umax[a as usize] < k { return self.cst(1, 1); }
            if k == 1 { let z = self.cst(w, 0); return self.eq(a, z); }
            let n = self.n(a);
            if n.op == Op::ZExt { let wi = self.w(n.a); let c = self.cst(wi, k); return self.ult(n.a, c); }
            if n.op == Op::Ite && (self.is_const(n.b).is_some() && self.is_const(n.c).is_some()) {
                let x = self.ult(n.b, b); let y = self.ult(n.c, b); return self.ite(n.a, x, y);
            }
            if n.op == Op::Concat && k & mask(self.w(n.b)) == 0 { let wl = self.w(n.b); let c = self.cst(w - wl, k >> wl); return self.ult(n.a, c); }
        }
        if let Some(k) = self.is_const(a) {
            if k == mask(w) || self.umax[b as usize] <= k { return self.cst(1, 0); }
            if k == 0 { let e = self.eq(b, a); return self.not(e); }
            let n = self.n(b);
            if n.op == Op::ZExt { let wi = self.w(n.a); let c = self.cst(wi, k); return self.ult(c, n.a); }
            if n.op == Op::Ite && (self.is_const(n.b).is_some() && self.is_const(n.c).is_some()) {
                let x = self.ult(a, n.b); let y = self.ult(a, n.c); return self.ite(n.a, x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ult(na.a, nb.a); }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 1); }
        let w = self.w(a);
        if let Some(k) = self.is_const(b) { if k == mask(w) { return self.cst(1, 1); } let c = self.cst(w, k + 1); return self.ult(a, c); }
        if let Some(k) = self.is_const(a) { if k == 0 { return self.cst(1, 1); } let c = self.cst(w, k - 1); return self.ult(c, b); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ule(na.a, nb.a); }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    fn signsmall(&self, a: T) -> bool { let w = self.w(a); self.umax[a as usize] >> (w - 1) == 0 }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 0); }
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.is_const(a), self.is_const(b)) { return self.cst(1, (sext(j, w) < sext(k, w)) as u128); }
        if self.signsmall(a) && self.signsmall(b) { return self.ult(a, b); }
        if self.is_const(b) == Some(0) { return self.extract(a, w - 1, w - 1); }
        if self.is_const(a) == Some(mask(w)) { let s = self.extract(b, w - 1, w - 1); return self.not(s); }
        let n = self.n(a);
        if let (Op::SExt, Some(k)) = (n.op, self.is_const(b)) {
            let wi = self.w(n.a);
            let ks = sext(k, w);
            let lim = 1i128 << (wi - 1);
            if ks >= lim { return self.cst(1, 1); }
            if ks < -lim { return self.cst(1, 0); }
            let c = self.cst(wi, k); return self.slt(n.a, c);
        }
        let n = self.n(b);
        if let (Op::SExt, Some(k)) = (n.op, self.is_const(a)) {
            let wi = self.w(n.a);
            let ks = sext(k, w);
            let lim = 1i128 << (wi - 1);
            if ks >= lim { return self.cst(1, 0); }
            if ks < -lim { return self.cst(1, 1); }
            let c = self.cst(wi, k); return self.slt(c, n.a);
        }
        if n.op == Op::Ite && self.is_const(a).is_some() && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.slt(a, n.b); let y = self.slt(a, n.c); return self.ite(n.a, x, y);
        }
        let na = self.n(a);
        if na.op == Op::Ite && self.is_const(b).is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let x = self.slt(na.b, b); let y = self.slt(na.c, b); return self.ite(na.a, x, y);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        if a == b { return self.cst(1, 1); }
        let w = self.w(a);
        if let Some(k) = self.is_const(b) { if k == mask(w) >> 1 { return self.cst(1, 1); } let c = self.cst(w, k + 1); return self.slt(a, c); }
        if let Some(k) = self.is_const(a) { if k == 1u128 << (w - 1) { return self.cst(1, 1); } let c = self.cst(w, k.wrapping_sub(1)); return self.slt(c, b); }
        if self.signsmall(a) && self.signsmall(b) { return self.ule(a, b); }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    /// Little-endian read of `w` bits at byte offset `off` of a constant table.
    pub fn table(&mut self, data: &[u8], off: T, w: u16) -> T {
        if let Some(k) = self.is_const(off) { return self.cst(w, tab_read(data, k as usize, w)); }
        let id = match self.table_map.get(data) {
            Some(&i) => i,
            None => { let i = self.tables.len() as u32; self.tables.push(Rc::new(data.to_vec())); self.table_map.insert(data.to_vec(), i); i }
        };
        self.mk(Op::Table, w, off, 0, 0, id as u128)
    }

    // ---- floating point (operands are the IEEE bit patterns, w = 32 or 64)
    pub fn fop(&mut self, op: Op, a: T, b: T, c: T) -> T {
        let w = self.w(a);
        let rw = match op { Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => 1, _ => w };
        let all = self.is_const(a).is_some() && (b == 0 || self.is_const(b).is_some()) && (c == 0 || self.is_const(c).is_some());
        if all {
            let (x, y, z) = (self.nodes[a as usize].k, self.nodes[b as usize].k, self.nodes[c as usize].k);
            let v = feval(op, w, x, y, z, 0);
            return self.cst(rw, v);
        }
        self.mk(op, rw, a, b, c, w as u128)
    }
    /// conversions; `w` is the result width
    pub fn fconv(&mut self, op: Op, a: T, w: u16, k: u128) -> T {
        let wa = self.w(a);
        if let Some(x) = self.is_const(a) { let v = fconv_eval(op, wa, w, x, k); return self.cst(w, v); }
        let n = self.n(a);
        if op == Op::FTrunc && n.op == Op::FExt {
            // f32 -> f64 -> f32: identity except that signalling NaNs are quieted
            let x = n.a;
            let nan = self.fop(Op::FIsNan, x, 0, 0);
            let q = self.cst(32, 0x0040_0000);
            let xq = self.or(x, q);
            return self.ite(nan, xq, x);
        }
        self.mk(op, w, a, 0, 0, k)
    }

    pub fn uf_term(&mut self, w: u16, id: u32) -> T { self.mk(Op::Uf, w, 0, 0, 0, id as u128) }
    // ---- variable sets
    pub fn varset(&mut self, t: T) -> u32 {
        if self.vset[t as usize] != 0 { return self.vset[t as usize]; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.vset[x as usize] != 0 { stack.pop(); continue; }
            let n = &self.nodes[x as usize];
            let ch: [T; 3] = match n.op { Op::Const | Op::Var => [0, 0, 0], _ => [n.a, n.b, n.c] };
            if n.op == Op::Const { self.vset[x as usize] = 1; stack.pop(); continue; }
            if n.op == Op::Var { let v = n.k as u32; let s = self.intern(vec![v]); self.vset[x as usize] = s; stack.pop(); continue; }
            let mut ready = true;
            let extra: Vec<T> = if n.op == Op::Uf { self.ufs[n.k as usize].1.clone() } else { vec![] };
            for c in ch.iter().copied().chain(extra.iter().copied()) { if c != 0 && self.vset[c as usize] == 0 { stack.push(c); ready = false; } }
            if ready {
                let mut s = 1;
                for c in ch.iter().copied().chain(extra.iter().copied()) { if c != 0 { let cs = self.vset[c as usize]; s = self.union(s, cs); } }
                self.vset[x as usize] = s;
                stack.pop();
            }
        }
        self.vset[t as usize]
    }
    fn intern(&mut self, v: Vec<u32>) -> u32 {
        let r = Rc::new(v);
        if let Some(&i) = self.set_map.get(&r) { return i; }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.set_map.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 1 { return a; }
        if a == 1 { return b; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_cache.get(&key) { return r; }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) { v.push(x[i]); i += 1; }
            else if i >= x.len() || y[j] < x[i] { v.push(y[j]); j += 1; }
            else { v.push(x[i]); i += 1; j += 1; }
        }
        let r = self.intern(v);
        self.union_cache.insert(key, r);
        r
    }

    // ---- evaluation under a model
    pub fn eval(&mut self, t: T, m: &Model) -> u128 {
        if let Some(k) = self.is_const(t) { return k; }
        if self.ev_model != m.id { self.ev_model = m.id; self.ev_epoch += 1; }
        if self.ev.len() < self.nodes.len() { self.ev.resize(self.nodes.len(), 0); self.ev_stamp.resize(self.nodes.len(), 0); }
        let ep = self.ev_epoch;
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.ev_stamp[x as usize] == ep { stack.pop(); continue; }
            let n = self.nodes[x as usize].clone();
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => m.get(n.k as u32) & mask(n.w),
                Op::Ite => {
                    if self.ev_stamp[n.a as usize] != ep { stack.push(n.a); continue; }
                    let s = if self.ev[n.a as usize] != 0 { n.b } else { n.c };
                    if self.ev_stamp[s as usize] != ep { stack.push(s); continue; }
                    self.ev[s as usize]
                }
                _ => {
                    let mut ready = true;
                    for c in [n.a, n.b, n.c] { if c != 0 && self.ev_stamp[c as usize] != ep { stack.push(c); ready = false; } }
                    if !ready { continue; }
                    let (a, b, c) = (self.ev[n.a as usize], self.ev[n.b as usize], self.ev[n.c as usize]);
                    self.eval1(&n, a, b, c, m)
                }
            };
            self.ev[x as usize] = v;
            self.ev_stamp[x as usize] = ep;
            stack.pop();
        }
        self.ev[t as usize]
    }
    fn eval1(&self, n: &Node, a: u128, b: u128, c: u128, m: &Model) -> u128 {
        let w = n.w;
        let mk = mask(w);
        let wa = self.w(n.a);
        match n.op {
            Op::Not => !a & mk,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Add => a.wrapping_add(b) & mk,
            Op::Sub => a.wrapping_sub(b) & mk,
            Op::Mul => a.wrapping_mul(b) & mk,
            Op::UDiv => if b == 0 { mk } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { mk } } else { x.wrapping_div(y) as u128 & mk } }
            Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & mk } }
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & mk },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let s = b.min(w as u128 - 1); (sext(a, w) >> s) as u128 & mk }
            Op::Concat => (a << self.w(n.b)) | b,
            Op::Extract => (a >> n.k) & mk,
            Op::ZExt => a,
            Op::SExt => sext(a, wa) as u128 & mk,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
            Op::Sle => (sext(a, wa) <= sext(b, wa)) as u128,
            Op::Table => tab_read(&self.tables[n.k as usize], a as usize, w),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FFma | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan
            | Op::FMin | Op::FMax => feval(n.op, wa, a, b, c, 0),
            Op::FExt | Op::FTrunc | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FRound => fconv_eval(n.op, wa, w, a, n.k),
            Op::Uf => m.uf(n.k as u32),
            _ => unreachable!(),
        }
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => format!("#{t}:{}", n.w),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Table || n.op == Op::Uf { s += &format!("#{}", n.k); }
                for c in [n.a, n.b, n.c] { if c != 0 { s += " "; s += &self.show(c, depth - 1); } }
                s + ")" + &(if matches!(n.op, Op::ZExt | Op::SExt) { format!(":{}", n.w) } else { String::new() })
            }
        }
    }
}

pub fn tab_read(d: &[u8], off: usize, w: u16) -> u128 {
    let mut v = 0u128;
    for i in 0..(w as usize).div_ceil(8) { v |= (*d.get(off.wrapping_add(i)).unwrap_or(&0) as u128) << (8 * i); }
    v & mask(w)
}

pub fn feval(op: Op, w: u16, a: u128, b: u128, c: u128, _k: u128) -> u128 {
    macro_rules! go { ($f:ty, $u:ty) => {{
        let (x, y, z) = (<$f>::from_bits(a as $u), <$f>::from_bits(b as $u), <$f>::from_bits(c as $u));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::FSqrt => x.sqrt().to_bits() as u128,
            Op::FFma => x.mul_add(y, z).to_bits() as u128,
            Op::FMin => x.min(y).to_bits() as u128,
            Op::FMax => x.max(y).to_bits() as u128,
            Op::FEq => (x == y) as u128,
            Op::FLt => (x < y) as u128,
            Op::FLe => (x <= y) as u128,
            Op::FIsNan => x.is_nan() as u128,
            _ => unreachable!(),
        }
    }}}
    if w == 32 { go!(f32, u32) } else { go!(f64, u64) }
}
/// rounding kinds for FRound: 0 trunc 1 floor 2 ceil 3 round(half away) 4 roundeven/rint
pub fn fconv_eval(op: Op, wa: u16, w: u16, a: u128, k: u128) -> u128 {
    let xd = || -> f64 { if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) } };
    match op {
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::FToS => { // saturating
            let x = xd();
            let v: i128 = if x.is_nan() { 0 } else { x.trunc() as i128 };
            let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
            v.clamp(lo, hi) as u128 & mask(w)
        }
        Op::FToU => { let x = xd(); let v: u128 = if x.is_nan() { 0 } else { x.trunc() as u128 }; v.min(mask(w)) }
        Op::SToF => { let v = sext(a, wa); if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FRound => {
            macro_rules! r { ($x:expr) => { match k { 0 => $x.trunc(), 1 => $x.floor(), 2 => $x.ceil(), 3 => $x.round(), _ => $x.round_ties_even() } } }
            if w == 32 { r!(f32::from_bits(a as u32)).to_bits() as u128 } else { r!(f64::from_bits(a as u64)).to_bits() as u128 }
        }
        _ => unreachable!(),
    }
}

/// An assignment of the symbolic variables (bytes); missing = 0.
#[derive(Debug)]
pub struct Model { pub id: u64, pub vals: Vec<u64>, pub ufv: Vec<u128> }
impl Model {
    pub fn get(&self, v: u32) -> u128 { *self.vals.get(v as usize).unwrap_or(&0) as u128 }
    pub fn uf(&self, v: u32) -> u128 { *self.ufv.get(v as usize).unwrap_or(&0) }
}
pub fn new_model(vals: Vec<u64>, ufv: Vec<u128>) -> Rc<Model> {
    static mut NEXT: u64 = 1;
    unsafe { NEXT += 1; Rc::new(Model { id: NEXT, vals, ufv }) }
}
