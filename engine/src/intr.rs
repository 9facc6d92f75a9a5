//! Names of LLVM intrinsics and of the external functions that the engine models.
#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Memcpy, Memset, Assume, Cttz, Ctlz, Ctpop, Bswap, Bitreverse, Fshl, Fshr, Umax, Umin, Smax, Smin, Abs,
    UaddSat, UsubSat, SaddSat, SsubSat, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Ucmp, Scmp,
    Fabs, Sqrt, Fma, Floor, Ceil, Trunc, Round, Rint, Copysign, MinNum, MaxNum, FToUSat, FToSSat,
    Tls, LoadRel, IsConst, Expect, ObjSize, Trap, RedAdd, RedOr, RedAnd, RedXor, RedUmax, RedFmin, RedFmax, RedUmin, RedSmax, RedSmin, RedMul, Pmovmskb, StackSave, Libm(String), IsFpClass, PtrMask,
    Unknown(String),
}
pub fn ignored(n: &str) -> bool {
    ["llvm.lifetime.", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg.", "llvm.x86.sse2.pause", "llvm.prefetch", "llvm.donothing", "llvm.sideeffect",
     "llvm.stackrestore", "llvm.invariant.", "llvm.va_", "llvm.pseudoprobe", "llvm.fake.use"].iter().any(|p| n.starts_with(p))
}
impl Intr {
    pub fn parse(n: &str) -> Intr {
        let s = &n[5..];
        let p = |x: &str| s == x || s.starts_with(&format!("{x}."));
        for (k, v) in [
            ("memcpy", Intr::Memcpy), ("memmove", Intr::Memcpy), ("memset", Intr::Memset), ("cttz", Intr::Cttz), ("ctlz", Intr::Ctlz), ("ctpop", Intr::Ctpop),
            ("bswap", Intr::Bswap), ("bitreverse", Intr::Bitreverse), ("fshl", Intr::Fshl), ("fshr", Intr::Fshr), ("umax", Intr::Umax), ("umin", Intr::Umin),
            ("smax", Intr::Smax), ("smin", Intr::Smin), ("abs", Intr::Abs), ("uadd.sat", Intr::UaddSat), ("usub.sat", Intr::UsubSat), ("sadd.sat", Intr::SaddSat), ("ssub.sat", Intr::SsubSat),
            ("uadd.with.overflow", Intr::UaddO), ("usub.with.overflow", Intr::UsubO), ("umul.with.overflow", Intr::UmulO),
            ("sadd.with.overflow", Intr::SaddO), ("ssub.with.overflow", Intr::SsubO), ("smul.with.overflow", Intr::SmulO), ("ucmp", Intr::Ucmp), ("scmp", Intr::Scmp),
            ("fabs", Intr::Fabs), ("sqrt", Intr::Sqrt), ("fma", Intr::Fma), ("fmuladd", Intr::Fma), ("floor", Intr::Floor), ("ceil", Intr::Ceil), ("trunc", Intr::Trunc), ("round", Intr::Round),
            ("rint", Intr::Rint), ("roundeven", Intr::Rint), ("nearbyint", Intr::Rint), ("copysign", Intr::Copysign),
            ("minnum", Intr::MinNum), ("maxnum", Intr::MaxNum), ("minimumnum", Intr::MinNum), ("maximumnum", Intr::MaxNum),
            ("fptoui.sat", Intr::FToUSat), ("fptosi.sat", Intr::FToSSat), ("threadlocal.address", Intr::Tls), ("load.relative", Intr::LoadRel), ("is.constant", Intr::IsConst),
            ("expect", Intr::Expect), ("expect.with.probability", Intr::Expect), ("objectsize", Intr::ObjSize), ("trap", Intr::Trap), ("ubsantrap", Intr::Trap), ("debugtrap", Intr::Trap),
            ("vector.reduce.add", Intr::RedAdd), ("vector.reduce.or", Intr::RedOr), ("vector.reduce.and", Intr::RedAnd), ("vector.reduce.xor", Intr::RedXor), ("vector.reduce.mul", Intr::RedMul),
            ("vector.reduce.fmin", Intr::RedFmin), ("vector.reduce.fmax", Intr::RedFmax), ("vector.reduce.umax", Intr::RedUmax), ("vector.reduce.umin", Intr::RedUmin), ("vector.reduce.smax", Intr::RedSmax), ("vector.reduce.smin", Intr::RedSmin),
            ("x86.sse2.pmovmskb.128", Intr::Pmovmskb), ("stacksave", Intr::StackSave), ("is.fpclass", Intr::IsFpClass), ("ptrmask", Intr::PtrMask),
        ] { if p(k) { return v; } }
        for f in ["sin", "cos", "tan", "pow", "powi", "exp", "exp2", "exp10", "log", "log2", "log10", "atan2", "atan", "asin", "acos"] {
            if p(f) { let d = if s.contains(".f32") { format!("{f}f") } else { f.to_string() }; return Intr::Libm(d); }
        }
        Intr::Unknown(n.to_string())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Builtin {
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Memcpy, Memset, Strlen, Memchr, Abort, Panic,
    Getrandom, Ret(u64), RetPtrErrno, Write, ClockGettime, Syscall, Libm(String),
    Sym, Assume, Check, Observe, Param, Reach, Concretize, Log, IsSym,
    Unsupported,
}
const LIBM: &[&str] = &["sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "cbrt", "hypot", "fmod", "fdim", "fma"];
pub fn builtin(name: &str, decl: bool, noreturn: bool) -> Option<Builtin> {
    use Builtin::*;
    if !decl {
        if noreturn && name != "main" && !name.starts_with("h_") { return Some(Panic); }
        // the per-process hash seed of std's HashMap
        if name.contains("hashmap_random_keys") { return None; }
        return None;
    }
    if name.starts_with("llvm.") { return None; }
    Some(match name {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" => AlignedAlloc,
        "memcmp" | "bcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "abort" | "_exit" | "exit" | "pthread_exit" => Abort,
        "getrandom" => Getrandom,
        "getenv" | "getauxval" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Ret(0),
        "gettid" | "pthread_self" | "getpid" => Ret(1),
        // no file is there (std looks for cgroup limits)
        "open64" | "open" | "vh_raw_open" | "vh_raw_statx" | "vh_raw_close" | "vh_raw_unlink" | "vh_raw_mkdir" | "vh_raw_rename" | "sched_getaffinity" => Ret(0xffff_ffff),
        "vh_raw_read" | "vh_raw_lseek" => Ret(u64::MAX),
        "sysconf" => Ret(4096),
        "__errno_location" => RetPtrErrno,
        "write" | "vh_raw_write" => Write,
        "clock_gettime" => ClockGettime,
        "syscall" => Syscall,
        "vh_sym" => Sym,
        "vh_assume" => Assume,
        "vh_check" => Check,
        "vh_observe" => Observe,
        "vh_param" => Param,
        "vh_reach" => Reach,
        "vh_concretize" => Concretize,
        "vh_is_symbolic" => IsSym,
        "vh_log" => Log,
        n => {
            let base = n.strip_suffix('f').unwrap_or(n);
            if LIBM.contains(&n) || LIBM.contains(&base) { Libm(n.to_string()) }
            else if noreturn { Panic } else { Unsupported }
        }
    })
}

pub fn libm(name: &str, a: &[u64]) -> Option<u64> {
    let (base, f) = if LIBM.contains(&name) && !(name.ends_with('f') && LIBM.contains(&&name[..name.len() - 1])) { (name, false) } else if name == "powi" { (name, false) } else { (name.strip_suffix('f')?, true) };
    macro_rules! go { ($t:ty, $u:ty) => {{
        let x = <$t>::from_bits(a[0] as $u);
        let y = <$t>::from_bits(*a.get(1).unwrap_or(&0) as $u);
        (match base {
            "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "atan2" => x.atan2(y),
            "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "exp" => x.exp(), "exp2" => x.exp2(), "expm1" => x.exp_m1(), "log" => x.ln(), "log2" => x.log2(),
            "log10" => x.log10(), "log1p" => x.ln_1p(), "pow" => x.powf(y), "powi" => x.powi(*a.get(1)? as i32), "cbrt" => x.cbrt(), "hypot" => x.hypot(y), "fmod" => x % y,
            _ => return None,
        }).to_bits() as u64
    }}}
    Some(if f { go!(f32, u32) } else { go!(f64, u64) })
}
