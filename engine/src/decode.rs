//! Loads a bitcode module and lowers functions (lazily) to a compact register code.
use crate::intr::{self, Intr};
use crate::llvm::*;
use crate::llvm;
use crate::mem::*;
use crate::term::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::rc::Rc;

#[derive(Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), F32, F64, Ptr,
    Vec(usize, Rc<Ty>),
    Struct(Vec<(usize, Rc<Ty>)>, usize),
    Arr(usize, Rc<Ty>, usize),
    Other(u32),
}
impl Ty {
    pub fn scalar_w(&self) -> Option<u16> {
        match self { Ty::Int(w) => Some(*w), Ty::F32 => Some(32), Ty::F64 | Ty::Ptr => Some(64), _ => None }
    }
    /// bits of a scalar, or of the vector element
    pub fn elem_w(&self) -> u16 {
        match self { Ty::Vec(_, e) => e.elem_w(), t => t.scalar_w().unwrap_or_else(|| panic!("elem_w of {t:?}")) }
    }
    pub fn lanes(&self) -> usize { if let Ty::Vec(n, _) = self { *n } else { 0 } }
    pub fn size(&self) -> usize {
        match self {
            Ty::Vec(n, e) => (n * e.elem_w() as usize).div_ceil(8),
            Ty::Struct(_, s) => *s,
            Ty::Arr(n, _, st) => n * st,
            Ty::Void => 0,
            t => (t.scalar_w().unwrap() as usize).div_ceil(8),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), T(T), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), C(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, PtrToInt, IntToPtr, BitCast }

#[derive(Debug)]
pub enum Callee { Fn(u32), Intr(Intr), Ind(Opnd), Asm(String) }

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u16, lanes: usize, a: Opnd, b: Opnd, d: u32 },
    FNeg { w: u16, lanes: usize, a: Opnd, d: u32 },
    Cast { op: CastOp, from: Rc<Ty>, to: Rc<Ty>, a: Opnd, d: u32 },
    ICmp { p: u32, w: u16, lanes: usize, a: Opnd, b: Opnd, d: u32 },
    FCmp { p: u32, w: u16, lanes: usize, a: Opnd, b: Opnd, d: u32 },
    Select { c: Opnd, a: Opnd, b: Opnd, ty: Rc<Ty>, vc: bool, d: u32 },
    Load { ty: Rc<Ty>, p: Opnd, d: u32 },
    Store { ty: Rc<Ty>, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: i64, idx: Vec<(Opnd, i64, u16)>, d: u32 },
    Alloca { size: usize, n: Opnd, d: u32 },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, w: u16, cases: Vec<(u128, u32)>, def: u32 },
    Call { callee: Callee, args: Vec<Opnd>, tys: Vec<Rc<Ty>>, ret: Rc<Ty>, d: u32, next: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue { a: Opnd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opnd, v: Opnd, idx: Vec<u32>, d: u32 },
    ExtractElt { a: Opnd, i: Opnd, d: u32 },
    InsertElt { a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { a: Opnd, b: Opnd, mask: Vec<i32>, ew: u16, d: u32 },
    Mov { a: Opnd, d: u32 },
    CmpXchg { p: Opnd, c: Opnd, n: Opnd, ty: Rc<Ty>, d: u32 },
    Rmw { op: u32, p: Opnd, v: Opnd, ty: Rc<Ty>, d: u32 },
    Nop,
    Unsupported(String),
}
pub const NONE: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub lines: Vec<u32>,
}
#[derive(Debug)]
pub struct Code { pub fid: u32, pub nargs: usize, pub nregs: usize, pub blocks: Vec<Block>, pub reg_tys: Vec<Rc<Ty>> }

pub struct Func { pub v: V, pub name: String, pub decl: bool, pub noreturn: bool, pub builtin: Option<intr::Builtin>, pub code: Option<Rc<Code>>, pub seen: Vec<bool>, pub calls: u64 }

pub struct Module {
    pub cx: *mut std::ffi::c_void,
    pub td: *mut std::ffi::c_void,
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    fmap: FxMap<usize, u32>,
    pub gmap: FxMap<usize, u32>, // global var -> object index in globals
    pub gnames: Vec<String>,
    pub globals: Vec<Rc<Obj>>,
    tys: FxMap<usize, Rc<Ty>>,
    pub rel: FxMap<u64, u64>,
    pub lines: Vec<(u32, u32)>, // file id, line
    pub files: Vec<String>,
    file_map: HashMap<String, u32>,
    line_map: FxMap<(u32, u32), u32>,
    pub nfuncs_base: u32,
}

pub fn func_addr(i: u32) -> u64 { addr_of(REG_FUNC + i) }

impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let cx = LLVMContextCreate();
            let p = CString::new(path).unwrap();
            let mut buf = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {path}"); }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(cx, buf, &mut m) != 0 { panic!("cannot parse {path}"); }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module {
                cx, td, funcs: vec![], by_name: HashMap::new(), fmap: Default::default(), gmap: Default::default(), gnames: vec![], globals: vec![],
                tys: Default::default(), rel: Default::default(), lines: vec![], files: vec![], file_map: HashMap::new(), line_map: Default::default(), nfuncs_base: 0,
            };
            let nr = LLVMGetEnumAttributeKindForName(c"noreturn".as_ptr(), 8);
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let name = llvm::name(f);
                let id = md.funcs.len() as u32;
                let noreturn = !LLVMGetEnumAttributeAtIndex(f, u32::MAX, nr).is_null();
                let decl = LLVMIsDeclaration(f) != 0;
                md.fmap.insert(f as usize, id);
                md.by_name.insert(name.clone(), id);
                let builtin = intr::builtin(&name, decl, noreturn);
                md.funcs.push(Func { v: f, name, decl, noreturn, builtin, code: None, seen: vec![], calls: 0 });
                f = LLVMGetNextFunction(f);
            }
            let mut gs = vec![];
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let idx = gs.len() as u32;
                md.gmap.insert(g as usize, idx);
                gs.push(g);
                md.gnames.push(llvm::name(g));
                g = LLVMGetNextGlobal(g);
            }
            for (i, &g) in gs.iter().enumerate() {
                let t = LLVMGlobalGetValueType(g);
                let sized = LLVMGetTypeKind(t) != 16;
                let size = if sized { LLVMABISizeOfType(td, t) as usize } else { 0 };
                let mut data = vec![0u8; size];
                if LLVMIsDeclaration(g) == 0 {
                    let init = LLVMGetInitializer(g);
                    md.write_const(init, &mut data, 0, addr_of(REG_GLOBAL + i as u32));
                }
                md.globals.push(Rc::new(Obj { data, sym: None, constant: LLVMIsGlobalConstant(g) != 0, alive: true }));
            }
            md
        }
    }
    pub fn ty(&mut self, t: llvm::Ty) -> Rc<Ty> {
        if let Some(r) = self.tys.get(&(t as usize)) { return r.clone(); }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                12 => Ty::Ptr,
                13 => { let e = self.ty(LLVMGetElementType(t)); Ty::Vec(LLVMGetVectorSize(t) as usize, e) }
                11 => { let et = LLVMGetElementType(t); let e = self.ty(et); Ty::Arr(LLVMGetArrayLength2(t) as usize, e, LLVMABISizeOfType(self.td, et) as usize) }
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n { let e = self.ty(LLVMStructGetTypeAtIndex(t, i)); v.push((LLVMOffsetOfElement(self.td, t, i) as usize, e)); }
                    Ty::Struct(v, LLVMABISizeOfType(self.td, t) as usize)
                }
                k => Ty::Other(k),
            }
        };
        let r = Rc::new(r);
        self.tys.insert(t as usize, r.clone());
        r
    }
    fn int_bits(&mut self, v: V) -> u128 {
        unsafe {
            let t = LLVMTypeOf(v);
            let w = LLVMGetIntTypeWidth(t);
            if w <= 64 { return (LLVMConstIntGetZExtValue(v) as u128) & mask(w as u16); }
            let s = llvm::print(v);
            let tail = s.rsplit(' ').next().unwrap();
            let x: i128 = tail.parse().unwrap_or_else(|_| tail.parse::<u128>().map(|u| u as i128).unwrap_or_else(|_| panic!("wide const {s}")));
            x as u128 & mask(w as u16)
        }
    }
    pub fn global_addr(&self, v: V) -> Option<u64> {
        unsafe {
            if !LLVMIsAFunction(v).is_null() { return Some(func_addr(self.fmap[&(v as usize)])); }
            if !LLVMIsAGlobalVariable(v).is_null() {
                if LLVMIsDeclaration(v) != 0 && LLVMGetLinkage(v) == 12 { return Some(0); } // extern_weak
                return Some(addr_of(REG_GLOBAL + self.gmap[&(v as usize)]));
            }
            if !LLVMIsAGlobalAlias(v).is_null() { return self.global_addr(LLVMAliasGetAliasee(v)); }
            None
        }
    }
    /// Constant scalar -> bits
    fn const_scalar(&mut self, v: V) -> u128 {
        unsafe {
            if !LLVMIsAConstantInt(v).is_null() && LLVMGetTypeKind(LLVMTypeOf(v)) == 8 { return self.int_bits(v); }
            if !LLVMIsAConstantFP(v).is_null() {
                let w = match LLVMGetTypeKind(LLVMTypeOf(v)) { 2 => 32, 3 => 64, 1 => 16, k => panic!("fp kind {k}") };
                let it = LLVMIntTypeInContext(self.cx, w);
                let b = LLVMConstBitCast(v, it);
                return self.int_bits(b);
            }
            if !LLVMIsAConstantPointerNull(v).is_null() || !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return 0; }
            if let Some(a) = self.global_addr(v) { return a as u128; }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let o = |i| LLVMGetOperand(v, i);
                let tw = { let t = LLVMTypeOf(v); let t = self.ty(t); t.scalar_w().unwrap() };
                return match op {
                    29 => {
                        let base = self.const_scalar(o(0)) as u64;
                        let mut off = 0i64;
                        let mut t = LLVMGetGEPSourceElementType(v);
                        let n = LLVMGetNumOperands(v) as u32;
                        for i in 1..n {
                            let ix = o(i);
                            let iw = LLVMGetIntTypeWidth(LLVMTypeOf(ix)) as u16;
                            let k = sext(self.const_scalar(ix), iw) as i64;
                            if i == 1 { off += k * LLVMABISizeOfType(self.td, t) as i64; continue; }
                            match LLVMGetTypeKind(t) {
                                10 => { off += LLVMOffsetOfElement(self.td, t, k as u32) as i64; t = LLVMStructGetTypeAtIndex(t, k as u32); }
                                11 | 13 => { t = LLVMGetElementType(t); off += k * LLVMABISizeOfType(self.td, t) as i64; }
                                kk => panic!("gep into kind {kk}"),
                            }
                        }
                        base.wrapping_add(off as u64) as u128
                    }
                    30 | 39 | 40 | 41 | 60 | 69 => self.const_scalar(o(0)) & mask(tw),
                    8 => (self.const_scalar(o(0)).wrapping_add(self.const_scalar(o(1)))) & mask(tw),
                    10 => (self.const_scalar(o(0)).wrapping_sub(self.const_scalar(o(1)))) & mask(tw),
                    28 => self.const_scalar(o(0)) ^ self.const_scalar(o(1)),
                    _ => panic!("constant expression: {}", llvm::print(v)),
                };
            }
            panic!("constant: {}", llvm::print(v));
        }
    }
    fn write_const(&mut self, v: V, out: &mut [u8], off: usize, base: u64) {
        unsafe {
            let t = LLVMTypeOf(v);
            let ty = self.ty(t);
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAConstantPointerNull(v).is_null() { return; }
            match &*ty {
                Ty::Struct(fs, _) => for (i, (o, _)) in fs.iter().enumerate() { let e = LLVMGetAggregateElement(v, i as u32); self.write_const(e, out, off + o, base); },
                Ty::Arr(n, _, st) => {
                    if !LLVMIsAConstantDataSequential(v).is_null() {
                        let mut l = 0;
                        let p = LLVMGetRawDataValues(v, &mut l) as *const u8;
                        let s = std::slice::from_raw_parts(p, n * st);
                        out[off..off + n * st].copy_from_slice(s);
                        return;
                    }
                    for i in 0..*n { let e = LLVMGetAggregateElement(v, i as u32); self.write_const(e, out, off + i * st, base); }
                }
                Ty::Vec(n, e) => {
                    let sz = e.size();
                    for i in 0..*n { let x = LLVMGetAggregateElement(v, i as u32); self.write_const(x, out, off + i * sz, base); }
                }
                _ => {
                    // relative table entry: trunc(ptrtoint a - ptrtoint b) to i32
                    if *ty == Ty::Int(32) && !LLVMIsAConstantExpr(v).is_null() && LLVMGetConstOpcode(v) == 30 {
                        let s = LLVMGetOperand(v, 0);
                        if !LLVMIsAConstantExpr(s).is_null() && LLVMGetConstOpcode(s) == 10 {
                            let target = self.const_scalar(LLVMGetOperand(s, 0)) as u64;
                            self.rel.insert(base + off as u64, target);
                            return;
                        }
                    }
                    let x = self.const_scalar(v);
                    let n = ty.size();
                    for i in 0..n { out[off + i] = (x >> (8 * i)) as u8; }
                }
            }
        }
    }
    pub fn const_val(&mut self, v: V) -> Val {
        unsafe {
            let t = LLVMTypeOf(v);
            let ty = self.ty(t);
            match &*ty {
                Ty::Struct(fs, _) => { let n = fs.len(); self.const_agg(v, n, t) }
                Ty::Arr(n, _, _) => { let n = *n; self.const_agg(v, n, t) }
                Ty::Vec(n, _) => { let n = *n; self.const_agg(v, n, t) }
                Ty::Void | Ty::Other(_) => Val::I(0),
                _ => {
                    let w = ty.scalar_w().unwrap();
                    let x = self.const_scalar(v);
                    if w <= 64 { Val::I(x as u64) } else { Val::T(tm().cst(w, x)) }
                }
            }
        }
    }
    fn zero_val(&mut self, t: llvm::Ty) -> Val {
        let ty = self.ty(t);
        zero_of(&ty)
    }
    fn const_agg(&mut self, v: V, n: usize, t: llvm::Ty) -> Val {
        unsafe {
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return self.zero_val(t); }
            let mut out = vec![];
            for i in 0..n {
                let e = LLVMGetAggregateElement(v, i as u32);
                if e.is_null() { // splat ConstantInt/FP of vector type
                    return self.splat(v, n);
                }
                out.push(self.const_val(e));
            }
            Val::A(Rc::new(out))
        }
    }
    fn splat(&mut self, v: V, _n: usize) -> Val { panic!("vector constant {}", llvm::print(v)) }

    fn line_id(&mut self, inst: V) -> Option<u32> {
        unsafe {
            let line = LLVMGetDebugLocLine(inst);
            if line == 0 { return None; }
            let mut l = 0u32;
            let p = LLVMGetDebugLocFilename(inst, &mut l);
            if p.is_null() { return None; }
            let f = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l as usize)).into_owned();
            let mut dl = 0u32;
            let dp = LLVMGetDebugLocDirectory(inst, &mut dl);
            let f = if f.starts_with('/') || dp.is_null() { f } else { format!("{}/{}", String::from_utf8_lossy(std::slice::from_raw_parts(dp as *const u8, dl as usize)), f) };
            let fid = match self.file_map.get(&f) { Some(&i) => i, None => { let i = self.files.len() as u32; self.files.push(f.clone()); self.file_map.insert(f, i); i } };
            Some(match self.line_map.get(&(fid, line)) { Some(&i) => i, None => { let i = self.lines.len() as u32; self.lines.push((fid, line)); self.line_map.insert((fid, line), i); i } })
        }
    }

    pub fn code(&mut self, fid: u32) -> Rc<Code> {
        if let Some(c) = &self.funcs[fid as usize].code { return c.clone(); }
        let c = Rc::new(self.lower(fid));
        self.funcs[fid as usize].seen = vec![false; c.blocks.len()];
        self.funcs[fid as usize].code = Some(c.clone());
        c
    }
    fn lower(&mut self, fid: u32) -> Code {
        unsafe {
            let f = self.funcs[fid as usize].v;
            let mut regs: FxMap<usize, u32> = Default::default();
            let nargs = LLVMCountParams(f);
            let mut reg_tys = vec![];
            for i in 0..nargs { let p = LLVMGetParam(f, i); regs.insert(p as usize, i); let t = self.ty(LLVMTypeOf(p)); reg_tys.push(t); }
            let mut nregs = nargs;
            let mut bidx: FxMap<usize, u32> = Default::default();
            let mut bbs = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bidx.insert(b as usize, bbs.len() as u32);
                bbs.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i as usize, nregs); nregs += 1; let t = self.ty(LLVMTypeOf(i)); reg_tys.push(t); }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &bbs {
                let mut blk = Block::default();
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if let Some(l) = self.line_id(i) { if !blk.lines.contains(&l) { blk.lines.push(l); } }
                    let d = regs.get(&(i as usize)).copied().unwrap_or(NONE);
                    if LLVMGetInstructionOpcode(i) == 44 {
                        let n = LLVMCountIncoming(i);
                        let mut inc = vec![];
                        for k in 0..n {
                            let o = self.opnd(LLVMGetIncomingValue(i, k), &regs);
                            inc.push((bidx[&(LLVMGetIncomingBlock(i, k) as usize)], o));
                        }
                        blk.phis.push((d, inc));
                    } else {
                        let ins = self.lower_inst(i, d, &regs, &bidx);
                        if !matches!(ins, Inst::Nop) { blk.insts.push(ins); }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(blk);
            }
            Code { fid, nargs: nargs as usize, nregs: nregs as usize, blocks, reg_tys }
        }
    }
    fn opnd(&mut self, v: V, regs: &FxMap<usize, u32>) -> Opnd {
        if let Some(&r) = regs.get(&(v as usize)) { return Opnd::R(r); }
        unsafe {
            if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 || LLVMGetTypeKind(LLVMTypeOf(v)) == 16 { return Opnd::C(Val::I(0)); }
        }
        Opnd::C(self.const_val(v))
    }
    unsafe fn lower_inst(&mut self, i: V, d: u32, regs: &FxMap<usize, u32>, bidx: &FxMap<usize, u32>) -> Inst {
        unsafe {
            let op = LLVMGetInstructionOpcode(i);
            let n = LLVMGetNumOperands(i) as u32;
            macro_rules! o { ($k:expr) => { { let v = LLVMGetOperand(i, $k); self.opnd(v, regs) } } }
            let t = LLVMTypeOf(i);
            let ity = self.ty(t);
            let bb = |b: B| bidx[&(b as usize)];
            macro_rules! oty { ($k:expr) => { { let t = LLVMTypeOf(LLVMGetOperand(i, $k)); self.ty(t) } } }
            match op {
                8..=25 => {
                    let bop = match op { 8 => BinOp::Add, 9 => BinOp::FAdd, 10 => BinOp::Sub, 11 => BinOp::FSub, 12 => BinOp::Mul, 13 => BinOp::FMul, 14 => BinOp::UDiv,
                        15 => BinOp::SDiv, 16 => BinOp::FDiv, 17 => BinOp::URem, 18 => BinOp::SRem, 19 => BinOp::FRem, 20 => BinOp::Shl, 21 => BinOp::LShr, 22 => BinOp::AShr,
                        23 => BinOp::And, 24 => BinOp::Or, _ => BinOp::Xor };
                    Inst::Bin { op: bop, w: ity.elem_w(), lanes: ity.lanes(), a: o!(0), b: o!(1), d }
                }
                66 => Inst::FNeg { w: ity.elem_w(), lanes: ity.lanes(), a: o!(0), d },
                30..=41 | 60 | 69 => {
                    let c = match op { 30 => CastOp::Trunc, 31 => CastOp::ZExt, 32 => CastOp::SExt, 33 => CastOp::FPToUI, 34 => CastOp::FPToSI, 35 => CastOp::UIToFP,
                        36 => CastOp::SIToFP, 37 => CastOp::FPTrunc, 38 => CastOp::FPExt, 39 | 69 => CastOp::PtrToInt, 40 => CastOp::IntToPtr, _ => CastOp::BitCast };
                    Inst::Cast { op: c, from: oty!(0), to: ity, a: o!(0), d }
                }
                42 => { let ty = oty!(0); Inst::ICmp { p: LLVMGetICmpPredicate(i), w: ty.elem_w(), lanes: ty.lanes(), a: o!(0), b: o!(1), d } }
                43 => { let ty = oty!(0); Inst::FCmp { p: LLVMGetFCmpPredicate(i), w: ty.elem_w(), lanes: ty.lanes(), a: o!(0), b: o!(1), d } }
                46 => { let ct = oty!(0); Inst::Select { c: o!(0), a: o!(1), b: o!(2), vc: ct.lanes() > 0, ty: ity, d } }
                27 => Inst::Load { ty: ity, p: o!(0), d },
                28 => Inst::Store { ty: oty!(0), v: o!(0), p: o!(1) },
                29 => {
                    let base = o!(0);
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut t = LLVMGetGEPSourceElementType(i);
                    for k in 1..n {
                        let ix = LLVMGetOperand(i, k);
                        let kind = if k == 1 { 0 } else { LLVMGetTypeKind(t) };
                        let scale;
                        if kind == 10 {
                            let c = LLVMConstIntGetZExtValue(ix) as u32;
                            off += LLVMOffsetOfElement(self.td, t, c) as i64;
                            t = LLVMStructGetTypeAtIndex(t, c);
                            continue;
                        } else if k == 1 { scale = LLVMABISizeOfType(self.td, t) as i64; }
                        else { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(self.td, t) as i64; }
                        if !LLVMIsAConstantInt(ix).is_null() {
                            let w = LLVMGetIntTypeWidth(LLVMTypeOf(ix)) as u16;
                            off += sext(self.int_bits(ix), w) as i64 * scale;
                        } else {
                            let xt = LLVMTypeOf(ix);
                            let xt = self.ty(xt);
                            if xt.lanes() > 0 { return Inst::Unsupported("vector gep".into()); }
                            let w = xt.scalar_w().unwrap();
                            let ov = self.opnd(ix, regs);
                            idx.push((ov, scale, w));
                        }
                    }
                    Inst::Gep { base, off, idx, d }
                }
                26 => { let at = LLVMGetAllocatedType(i); Inst::Alloca { size: LLVMABISizeOfType(self.td, at) as usize, n: o!(0), d } }
                1 => { if n == 0 { Inst::Ret(None) } else { Inst::Ret(Some(o!(0))) } }
                7 => Inst::Unreachable,
                3 => {
                    let v = o!(0);
                    let w = oty!(0).scalar_w().unwrap();
                    let ns = LLVMGetNumSuccessors(i);
                    let mut cases = vec![];
                    for k in 1..ns { let cv = LLVMGetSwitchCaseValue(i, k); cases.push((self.int_bits(cv), bb(LLVMGetSuccessor(i, k)))); }
                    Inst::Switch { v, w, cases, def: bb(LLVMGetSuccessor(i, 0)) }
                }
                45 | 5 => {
                    let cv = LLVMGetCalledValue(i);
                    let na = LLVMGetNumArgOperands(i);
                    let next = if op == 5 { bb(LLVMGetNormalDest(i)) } else { NONE };
                    let mut name = String::new();
                    let callee = if !LLVMIsAFunction(cv).is_null() {
                        name = llvm::name(cv);
                        if name.starts_with("llvm.") {
                            if intr::ignored(&name) { return Inst::Nop; }
                            Callee::Intr(Intr::parse(&name))
                        } else { Callee::Fn(self.fmap[&(cv as usize)]) }
                    } else if !LLVMIsAInlineAsm(cv).is_null() {
                        let mut l = 0;
                        let p = LLVMGetInlineAsmAsmString(cv, &mut l);
                        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
                        if s.is_empty() || s.trim_start().starts_with("/*") && d == NONE { return Inst::Nop; }
                        Callee::Asm(s)
                    } else { let o = self.opnd(cv, regs); Callee::Ind(o) };
                    let mut args = vec![];
                    let mut tys = vec![];
                    for k in 0..na {
                        let a = LLVMGetOperand(i, k);
                        let at = LLVMTypeOf(a);
                        tys.push(self.ty(at));
                        args.push(self.opnd(a, regs));
                    }
                    let _ = name;
                    Inst::Call { callee, args, tys, ret: ity, d, next }
                }
                53 => { let k = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); Inst::ExtractValue { a: o!(0), idx: (0..k).map(|j| *p.add(j as usize)).collect(), d } }
                54 => { let k = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); Inst::InsertValue { a: o!(0), v: o!(1), idx: (0..k).map(|j| *p.add(j as usize)).collect(), d } }
                50 => Inst::ExtractElt { a: o!(0), i: o!(1), d },
                51 => Inst::InsertElt { a: o!(0), v: o!(1), i: o!(2), d },
                52 => { let k = LLVMGetNumMaskElements(i); Inst::Shuffle { a: o!(0), b: o!(1), mask: (0..k).map(|j| LLVMGetMaskValue(i, j)).collect(), ew: ity.elem_w(), d } }
                68 => Inst::Mov { a: o!(0), d },
                55 => Inst::Nop,
                56 => Inst::CmpXchg { p: o!(0), c: o!(1), n: o!(2), ty: oty!(1), d },
                57 => Inst::Rmw { op: LLVMGetAtomicRMWBinOp(i), p: o!(0), v: o!(1), ty: ity, d },
                58 | 59 => Inst::Unsupported("unwinding".into()),
                _ => {
                    let ns = LLVMGetNumSuccessors(i);
                    if op == 2 || ns > 0 {
                        if ns == 1 { return Inst::Br(bb(LLVMGetSuccessor(i, 0))); }
                        if ns == 2 { return Inst::CondBr(o!(0), bb(LLVMGetSuccessor(i, 0)), bb(LLVMGetSuccessor(i, 1))); }
                    }
                    Inst::Unsupported(format!("opcode {op}: {}", llvm::print(i)))
                }
            }
        }
    }
}

pub fn zero_of(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_of(e); *n])),
        Ty::Arr(n, e, _) => Val::A(Rc::new(vec![zero_of(e); *n])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|(_, t)| zero_of(t)).collect())),
        Ty::Int(w) if *w > 64 => Val::T(tm().cst(*w, 0)),
        _ => Val::I(0),
    }
}
