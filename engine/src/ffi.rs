#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong};
pub type Ctx = *mut u8;
pub type Md = *mut u8;
pub type Val = *mut u8;
pub type Ty = *mut u8;
pub type Bb = *mut u8;
pub type Buf = *mut u8;
pub type Td = *mut u8;
extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMContextSetDiagnosticHandler(c: Ctx, h: Option<extern "C" fn(*mut u8, *mut u8)>, u: *mut u8);
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Buf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, m: *mut Md) -> c_int;
    pub fn LLVMGetFirstFunction(m: Md) -> Val;
    pub fn LLVMGetNextFunction(v: Val) -> Val;
    pub fn LLVMGetFirstGlobal(m: Md) -> Val;
    pub fn LLVMGetNextGlobal(v: Val) -> Val;
    pub fn LLVMGetFirstGlobalAlias(m: Md) -> Val;
    pub fn LLVMGetNextGlobalAlias(v: Val) -> Val;
    pub fn LLVMAliasGetAliasee(v: Val) -> Val;
    pub fn LLVMGetValueName2(v: Val, l: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Val) -> c_int;
    pub fn LLVMGetGlobalParent(v: Val) -> Md;
    pub fn LLVMGetLinkage(v: Val) -> c_int;
    pub fn LLVMGetInitializer(v: Val) -> Val;
    pub fn LLVMGlobalGetValueType(v: Val) -> Ty;
    pub fn LLVMIsGlobalConstant(v: Val) -> c_int;
    pub fn LLVMGetAlignment(v: Val) -> c_uint;
    pub fn LLVMTypeOf(v: Val) -> Ty;
    pub fn LLVMGetTypeKind(t: Ty) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    pub fn LLVMGetVectorSize(t: Ty) -> c_uint;
    pub fn LLVMGetElementType(t: Ty) -> Ty;
    pub fn LLVMGetArrayLength2(t: Ty) -> u64;
    pub fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    pub fn LLVMGetModuleDataLayout(m: Md) -> Td;
    pub fn LLVMABISizeOfType(d: Td, t: Ty) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(d: Td, t: Ty) -> c_ulonglong;
    pub fn LLVMOffsetOfElement(d: Td, t: Ty, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetValueKind(v: Val) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Val) -> c_ulonglong;
    pub fn LLVMPrintValueToString(v: Val) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Ty) -> *mut c_char;
    pub fn LLVMDisposeMessage(p: *mut c_char);
    pub fn LLVMConstBitCast(v: Val, t: Ty) -> Val;
    pub fn LLVMIntTypeInContext(c: Ctx, w: c_uint) -> Ty;
    pub fn LLVMGetOperand(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetNumOperands(v: Val) -> c_int;
    pub fn LLVMGetAggregateElement(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetConstOpcode(v: Val) -> c_int;
    pub fn LLVMGetInstructionOpcode(v: Val) -> c_int;
    pub fn LLVMGetICmpPredicate(v: Val) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: Val) -> c_int;
    pub fn LLVMCountIncoming(v: Val) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetIncomingBlock(v: Val, i: c_uint) -> Bb;
    pub fn LLVMIsConditional(v: Val) -> c_int;
    pub fn LLVMGetCondition(v: Val) -> Val;
    pub fn LLVMGetNumSuccessors(v: Val) -> c_uint;
    pub fn LLVMGetSuccessor(v: Val, i: c_uint) -> Bb;
    pub fn LLVMGetCalledValue(v: Val) -> Val;
    pub fn LLVMGetNumArgOperands(v: Val) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(v: Val) -> Ty;
    pub fn LLVMGetNumMaskElements(v: Val) -> c_uint;
    pub fn LLVMGetMaskValue(v: Val, i: c_uint) -> c_int;
    pub fn LLVMGetIndices(v: Val) -> *const c_uint;
    pub fn LLVMGetNumIndices(v: Val) -> c_uint;
    pub fn LLVMGetAllocatedType(v: Val) -> Ty;
    pub fn LLVMGetFirstBasicBlock(f: Val) -> Bb;
    pub fn LLVMGetNextBasicBlock(b: Bb) -> Bb;
    pub fn LLVMGetFirstInstruction(b: Bb) -> Val;
    pub fn LLVMGetNextInstruction(v: Val) -> Val;
    pub fn LLVMCountParams(f: Val) -> c_uint;
    pub fn LLVMGetParam(f: Val, i: c_uint) -> Val;
    pub fn LLVMGetReturnType(t: Ty) -> Ty;
    pub fn LLVMGetAtomicRMWBinOp(v: Val) -> c_int;
    pub fn LLVMValueAsBasicBlock(v: Val) -> Bb;
    pub fn LLVMIsACallInst(v: Val) -> Val;
}
