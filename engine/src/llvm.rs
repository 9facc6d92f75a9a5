//! Hand written binding to the LLVM-C API of the LLVM shipped with rustc.
#![allow(non_camel_case_types, non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_void};
pub type V = *mut c_void; // LLVMValueRef
pub type Ty = *mut c_void;
pub type B = *mut c_void;
pub type M = *mut c_void;
unsafe extern "C" {
    pub fn LLVMContextCreate() -> *mut c_void;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut *mut c_void, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: *mut c_void, buf: *mut c_void, m: *mut M) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: M) -> *mut c_void;
    pub fn LLVMGetFirstFunction(m: M) -> V;
    pub fn LLVMGetNextFunction(f: V) -> V;
    pub fn LLVMGetFirstGlobal(m: M) -> V;
    pub fn LLVMGetNextGlobal(g: V) -> V;
    pub fn LLVMGetFirstGlobalAlias(m: M) -> V;
    pub fn LLVMGetNextGlobalAlias(g: V) -> V;
    pub fn LLVMAliasGetAliasee(a: V) -> V;
    pub fn LLVMGetInitializer(g: V) -> V;
    pub fn LLVMIsGlobalConstant(g: V) -> c_int;
    pub fn LLVMGlobalGetValueType(g: V) -> Ty;
    pub fn LLVMIsDeclaration(f: V) -> c_int;
    pub fn LLVMGetValueName2(v: V, len: *mut usize) -> *const c_char;
    pub fn LLVMGetFirstBasicBlock(f: V) -> B;
    pub fn LLVMGetNextBasicBlock(b: B) -> B;
    pub fn LLVMGetFirstInstruction(b: B) -> V;
    pub fn LLVMGetNextInstruction(i: V) -> V;
    pub fn LLVMGetInstructionOpcode(i: V) -> c_uint;
    pub fn LLVMGetNumOperands(i: V) -> c_int;
    pub fn LLVMGetOperand(i: V, n: c_uint) -> V;
    pub fn LLVMTypeOf(v: V) -> Ty;
    pub fn LLVMGetTypeKind(t: Ty) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    pub fn LLVMGetElementType(t: Ty) -> Ty;
    pub fn LLVMGetVectorSize(t: Ty) -> c_uint;
    pub fn LLVMGetArrayLength2(t: Ty) -> u64;
    pub fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    pub fn LLVMOffsetOfElement(td: *mut c_void, t: Ty, i: c_uint) -> u64;
    pub fn LLVMABISizeOfType(td: *mut c_void, t: Ty) -> u64;
    pub fn LLVMCountParams(f: V) -> c_uint;
    pub fn LLVMGetParam(f: V, i: c_uint) -> V;
    pub fn LLVMCountIncoming(p: V) -> c_uint;
    pub fn LLVMGetIncomingValue(p: V, i: c_uint) -> V;
    pub fn LLVMGetIncomingBlock(p: V, i: c_uint) -> B;
    pub fn LLVMGetNumSuccessors(i: V) -> c_uint;
    pub fn LLVMGetSuccessor(i: V, n: c_uint) -> B;
    pub fn LLVMGetSwitchCaseValue(i: V, n: c_uint) -> V;
    pub fn LLVMGetICmpPredicate(i: V) -> c_uint;
    pub fn LLVMGetFCmpPredicate(i: V) -> c_uint;
    pub fn LLVMGetCalledValue(i: V) -> V;
    pub fn LLVMGetNumArgOperands(i: V) -> c_uint;
    pub fn LLVMGetNormalDest(i: V) -> B;
    pub fn LLVMGetAllocatedType(i: V) -> Ty;
    pub fn LLVMGetGEPSourceElementType(i: V) -> Ty;
    pub fn LLVMGetNumIndices(i: V) -> c_uint;
    pub fn LLVMGetIndices(i: V) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(i: V) -> c_uint;
    pub fn LLVMGetMaskValue(i: V, n: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(i: V) -> c_uint;
    pub fn LLVMIsAConstantInt(v: V) -> V;
    pub fn LLVMIsAConstantFP(v: V) -> V;
    pub fn LLVMIsAConstantPointerNull(v: V) -> V;
    pub fn LLVMIsAUndefValue(v: V) -> V;
    pub fn LLVMIsAConstantExpr(v: V) -> V;
    pub fn LLVMIsAConstantAggregateZero(v: V) -> V;
    pub fn LLVMIsAFunction(v: V) -> V;
    pub fn LLVMIsAGlobalVariable(v: V) -> V;
    pub fn LLVMIsAGlobalAlias(v: V) -> V;
    pub fn LLVMIsAArgument(v: V) -> V;
    pub fn LLVMIsAInstruction(v: V) -> V;
    pub fn LLVMIsAInlineAsm(v: V) -> V;
    pub fn LLVMIsConstant(v: V) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: V) -> u64;
    pub fn LLVMConstBitCast(v: V, t: Ty) -> V;
    pub fn LLVMIntTypeInContext(c: *mut c_void, w: c_uint) -> Ty;
    pub fn LLVMPrintValueToString(v: V) -> *mut c_char;
    pub fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    pub fn LLVMGetConstOpcode(v: V) -> c_uint;
    pub fn LLVMGetRawDataValues(v: V, n: *mut usize) -> *const c_char;
    pub fn LLVMIsAConstantDataSequential(v: V) -> V;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMGetEnumAttributeAtIndex(f: V, i: c_uint, k: c_uint) -> V;
    pub fn LLVMGetCallSiteEnumAttribute(c: V, i: c_uint, k: c_uint) -> V;
    pub fn LLVMGetInlineAsmAsmString(v: V, len: *mut usize) -> *const c_char;
    pub fn LLVMGetDebugLocLine(v: V) -> c_uint;
    pub fn LLVMGetDebugLocFilename(v: V, len: *mut c_uint) -> *const c_char;
    pub fn LLVMGetDebugLocDirectory(v: V, len: *mut c_uint) -> *const c_char;
    pub fn LLVMGetLinkage(v: V) -> c_uint;
}
pub fn name(v: V) -> String {
    unsafe { let mut l = 0; let p = LLVMGetValueName2(v, &mut l); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned() }
}
pub fn print(v: V) -> String {
    unsafe { std::ffi::CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() }
}
