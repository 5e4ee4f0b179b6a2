#![allow(non_camel_case_types, non_snake_case)]
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong};
macro_rules! opaque { ($($n:ident),*) => { $(#[repr(C)] pub struct $n { _p: [u8; 0] })* } }
opaque!(OCtx, OMod, OTy, OVal, OBB, OBld, OBuf, OTgt, OTM, OErr, OPBO, OTD);
pub type Ctx = *mut OCtx;
pub type Mod = *mut OMod;
pub type Ty = *mut OTy;
pub type Val = *mut OVal;
pub type BB = *mut OBB;
pub type Bld = *mut OBld;
pub type Buf = *mut OBuf;
pub type Tgt = *mut OTgt;
pub type TM = *mut OTM;
pub type Bool = c_int;

macro_rules! binops { ($($n:ident),* $(,)?) => { extern "C" { $(pub fn $n(b: Bld, l: Val, r: Val, n: *const c_char) -> Val;)* } } }
binops!(LLVMBuildAdd, LLVMBuildNSWAdd, LLVMBuildNUWAdd, LLVMBuildSub, LLVMBuildNSWSub, LLVMBuildNUWSub, LLVMBuildMul, LLVMBuildNSWMul,
    LLVMBuildNUWMul, LLVMBuildUDiv, LLVMBuildExactUDiv, LLVMBuildSDiv, LLVMBuildExactSDiv, LLVMBuildURem, LLVMBuildSRem, LLVMBuildShl, LLVMBuildLShr,
    LLVMBuildAShr, LLVMBuildAnd, LLVMBuildOr, LLVMBuildXor);
macro_rules! casts { ($($n:ident),* $(,)?) => { extern "C" { $(pub fn $n(b: Bld, v: Val, t: Ty, n: *const c_char) -> Val;)* } } }
casts!(LLVMBuildTrunc, LLVMBuildZExt, LLVMBuildSExt, LLVMBuildIntCast, LLVMBuildPtrToInt, LLVMBuildIntToPtr,
    LLVMBuildBitCast, LLVMBuildPointerCast, LLVMBuildZExtOrBitCast, LLVMBuildSExtOrBitCast, LLVMBuildTruncOrBitCast, LLVMBuildAddrSpaceCast);

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMContextDispose(c: Ctx);
    pub fn LLVMContextSetDiagnosticHandler(c: Ctx, h: Option<extern "C" fn(*mut std::ffi::c_void, *mut std::ffi::c_void)>, d: *mut std::ffi::c_void);
    pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: Ctx) -> Mod;
    pub fn LLVMDisposeModule(m: Mod);
    pub fn LLVMCloneModule(m: Mod) -> Mod;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, out: *mut Mod) -> Bool;
    pub fn LLVMLinkModules2(d: Mod, s: Mod) -> Bool;
    pub fn LLVMVerifyModule(m: Mod, action: c_int, msg: *mut *mut c_char) -> Bool;
    pub fn LLVMVerifyFunction(f: Val, action: c_int) -> Bool;
    pub fn LLVMPrintModuleToString(m: Mod) -> *mut c_char;
    pub fn LLVMPrintModuleToFile(m: Mod, f: *const c_char, err: *mut *mut c_char) -> Bool;
    pub fn LLVMWriteBitcodeToFile(m: Mod, f: *const c_char) -> c_int;
    pub fn LLVMWriteBitcodeToMemoryBuffer(m: Mod) -> Buf;
    pub fn LLVMSetTarget(m: Mod, t: *const c_char);
    pub fn LLVMGetTarget(m: Mod) -> *const c_char;
    pub fn LLVMGetModuleContext(m: Mod) -> Ctx;
    pub fn LLVMGetNamedFunction(m: Mod, n: *const c_char) -> Val;
    pub fn LLVMGetNamedGlobal(m: Mod, n: *const c_char) -> Val;
    pub fn LLVMGetFirstFunction(m: Mod) -> Val;
    pub fn LLVMGetLastFunction(m: Mod) -> Val;
    pub fn LLVMGetNextFunction(f: Val) -> Val;
    pub fn LLVMGetPreviousFunction(f: Val) -> Val;
    pub fn LLVMGetFirstGlobal(m: Mod) -> Val;
    pub fn LLVMGetNextGlobal(m: Val) -> Val;
    pub fn LLVMAddFunction(m: Mod, n: *const c_char, t: Ty) -> Val;
    pub fn LLVMDeleteFunction(f: Val);
    pub fn LLVMAddGlobal(m: Mod, t: Ty, n: *const c_char) -> Val;
    pub fn LLVMAddGlobalInAddressSpace(m: Mod, t: Ty, n: *const c_char, a: c_uint) -> Val;
    pub fn LLVMDeleteGlobal(g: Val);
    pub fn LLVMSetInitializer(g: Val, v: Val);
    pub fn LLVMGetInitializer(g: Val) -> Val;
    pub fn LLVMSetGlobalConstant(g: Val, c: Bool);
    pub fn LLVMIsGlobalConstant(g: Val) -> Bool;
    pub fn LLVMSetUnnamedAddr(g: Val, c: Bool);
    pub fn LLVMSetAlignment(g: Val, c: c_uint);
    pub fn LLVMGetAlignment(g: Val) -> c_uint;
    pub fn LLVMSetLinkage(g: Val, l: c_int);
    pub fn LLVMGetLinkage(g: Val) -> c_int;
    pub fn LLVMSetVisibility(g: Val, l: c_int);
    pub fn LLVMSetSection(g: Val, n: *const c_char);
    pub fn LLVMGlobalGetValueType(g: Val) -> Ty;
    pub fn LLVMIsDeclaration(g: Val) -> Bool;
    pub fn LLVMGetAllocatedType(g: Val) -> Ty;

    pub fn LLVMCreateBuilderInContext(c: Ctx) -> Bld;
    pub fn LLVMDisposeBuilder(b: Bld);
    pub fn LLVMPositionBuilderAtEnd(b: Bld, bb: BB);
    pub fn LLVMPositionBuilderBefore(b: Bld, i: Val);
    pub fn LLVMPositionBuilder(b: Bld, bb: BB, i: Val);
    pub fn LLVMGetInsertBlock(b: Bld) -> BB;
    pub fn LLVMClearInsertionPosition(b: Bld);

    pub fn LLVMIntTypeInContext(c: Ctx, n: c_uint) -> Ty;
    pub fn LLVMVoidTypeInContext(c: Ctx) -> Ty;
    pub fn LLVMPointerTypeInContext(c: Ctx, a: c_uint) -> Ty;
    pub fn LLVMStructTypeInContext(c: Ctx, e: *mut Ty, n: c_uint, packed: Bool) -> Ty;
    pub fn LLVMArrayType2(e: Ty, n: u64) -> Ty;
    pub fn LLVMFunctionType(r: Ty, p: *mut Ty, n: c_uint, va: Bool) -> Ty;
    pub fn LLVMGetTypeKind(t: Ty) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    pub fn LLVMTypeIsSized(t: Ty) -> Bool;
    pub fn LLVMGetElementType(t: Ty) -> Ty;
    pub fn LLVMGetArrayLength2(t: Ty) -> u64;
    pub fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    pub fn LLVMIsPackedStruct(t: Ty) -> Bool;
    pub fn LLVMGetReturnType(t: Ty) -> Ty;
    pub fn LLVMCountParamTypes(t: Ty) -> c_uint;
    pub fn LLVMGetParamTypes(t: Ty, o: *mut Ty);
    pub fn LLVMIsFunctionVarArg(t: Ty) -> Bool;
    pub fn LLVMGetTypeContext(t: Ty) -> Ctx;
    pub fn LLVMPrintTypeToString(t: Ty) -> *mut c_char;
    pub fn LLVMSizeOf(t: Ty) -> Val;
    pub fn LLVMAlignOf(t: Ty) -> Val;

    pub fn LLVMTypeOf(v: Val) -> Ty;
    pub fn LLVMPrintValueToString(v: Val) -> *mut c_char;
    pub fn LLVMSetValueName2(v: Val, n: *const c_char, l: usize);
    pub fn LLVMGetValueName2(v: Val, l: *mut usize) -> *const c_char;
    pub fn LLVMIsConstant(v: Val) -> Bool;
    pub fn LLVMIsNull(v: Val) -> Bool;
    pub fn LLVMIsUndef(v: Val) -> Bool;
    pub fn LLVMIsPoison(v: Val) -> Bool;
    pub fn LLVMIsAConstantInt(v: Val) -> Val;
    pub fn LLVMReplaceAllUsesWith(v: Val, n: Val);
    pub fn LLVMConstNull(t: Ty) -> Val;
    pub fn LLVMConstAllOnes(t: Ty) -> Val;
    pub fn LLVMGetUndef(t: Ty) -> Val;
    pub fn LLVMGetPoison(t: Ty) -> Val;
    pub fn LLVMConstInt(t: Ty, n: c_ulonglong, s: Bool) -> Val;
    pub fn LLVMConstIntOfArbitraryPrecision(t: Ty, n: c_uint, w: *const u64) -> Val;
    pub fn LLVMConstIntOfStringAndSize(t: Ty, s: *const c_char, l: c_uint, radix: u8) -> Val;
    pub fn LLVMConstIntGetZExtValue(v: Val) -> c_ulonglong;
    pub fn LLVMConstIntGetSExtValue(v: Val) -> i64;
    pub fn LLVMConstStringInContext(c: Ctx, s: *const c_char, n: c_uint, nonull: Bool) -> Val;
    pub fn LLVMConstArray2(t: Ty, v: *mut Val, n: u64) -> Val;
    pub fn LLVMConstStructInContext(c: Ctx, v: *mut Val, n: c_uint, packed: Bool) -> Val;
    pub fn LLVMConstNot(v: Val) -> Val;
    pub fn LLVMConstNeg(v: Val) -> Val;
    pub fn LLVMConstAdd(a: Val, b: Val) -> Val;
    pub fn LLVMConstSub(a: Val, b: Val) -> Val;
    pub fn LLVMConstMul(a: Val, b: Val) -> Val;
    pub fn LLVMConstXor(a: Val, b: Val) -> Val;
    pub fn LLVMConstTrunc(a: Val, t: Ty) -> Val;
    pub fn LLVMConstPtrToInt(a: Val, t: Ty) -> Val;
    pub fn LLVMConstIntToPtr(a: Val, t: Ty) -> Val;

    pub fn LLVMGetParam(f: Val, i: c_uint) -> Val;
    pub fn LLVMCountParams(f: Val) -> c_uint;
    pub fn LLVMAppendBasicBlockInContext(c: Ctx, f: Val, n: *const c_char) -> BB;
    pub fn LLVMInsertBasicBlockInContext(c: Ctx, b: BB, n: *const c_char) -> BB;
    pub fn LLVMGetBasicBlockTerminator(b: BB) -> Val;
    pub fn LLVMGetBasicBlockParent(b: BB) -> Val;
    pub fn LLVMGetBasicBlockName(b: BB) -> *const c_char;
    pub fn LLVMGetFirstBasicBlock(f: Val) -> BB;
    pub fn LLVMGetLastBasicBlock(f: Val) -> BB;
    pub fn LLVMGetEntryBasicBlock(f: Val) -> BB;
    pub fn LLVMGetNextBasicBlock(f: BB) -> BB;
    pub fn LLVMGetPreviousBasicBlock(f: BB) -> BB;
    pub fn LLVMCountBasicBlocks(f: Val) -> c_uint;
    pub fn LLVMDeleteBasicBlock(b: BB);
    pub fn LLVMRemoveBasicBlockFromParent(b: BB);
    pub fn LLVMMoveBasicBlockAfter(b: BB, a: BB);
    pub fn LLVMMoveBasicBlockBefore(b: BB, a: BB);
    pub fn LLVMGetFirstInstruction(b: BB) -> Val;
    pub fn LLVMGetLastInstruction(b: BB) -> Val;
    pub fn LLVMGetNextInstruction(v: Val) -> Val;
    pub fn LLVMGetPreviousInstruction(v: Val) -> Val;
    pub fn LLVMGetInstructionParent(v: Val) -> BB;
    pub fn LLVMInstructionEraseFromParent(v: Val);
    pub fn LLVMGetInstructionOpcode(v: Val) -> c_int;
    pub fn LLVMIsAInstruction(v: Val) -> Val;
    pub fn LLVMIsTerminator(v: Val) -> Bool;
    pub fn LLVMSetVolatile(v: Val, b: Bool);
    pub fn LLVMIsTailCall(v: Val) -> Bool;
    pub fn LLVMSetTailCall(v: Val, b: Bool);
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ctx, k: c_uint, v: u64) -> *mut std::ffi::c_void;
    pub fn LLVMAddAttributeAtIndex(f: Val, i: c_uint, a: *mut std::ffi::c_void);

    pub fn LLVMBuildNot(b: Bld, v: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildNeg(b: Bld, v: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildICmp(b: Bld, p: c_int, l: Val, r: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildAlloca(b: Bld, t: Ty, n: *const c_char) -> Val;
    pub fn LLVMBuildArrayAlloca(b: Bld, t: Ty, s: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildLoad2(b: Bld, t: Ty, p: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildStore(b: Bld, v: Val, p: Val) -> Val;
    pub fn LLVMBuildStructGEP2(b: Bld, t: Ty, p: Val, i: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildGEP2(b: Bld, t: Ty, p: Val, i: *mut Val, ni: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildInBoundsGEP2(b: Bld, t: Ty, p: Val, i: *mut Val, ni: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildCall2(b: Bld, t: Ty, f: Val, a: *mut Val, na: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildBr(b: Bld, bb: BB) -> Val;
    pub fn LLVMBuildCondBr(b: Bld, c: Val, t: BB, e: BB) -> Val;
    pub fn LLVMBuildSwitch(b: Bld, v: Val, e: BB, n: c_uint) -> Val;
    pub fn LLVMAddCase(s: Val, v: Val, b: BB);
    pub fn LLVMBuildRet(b: Bld, v: Val) -> Val;
    pub fn LLVMBuildRetVoid(b: Bld) -> Val;
    pub fn LLVMBuildUnreachable(b: Bld) -> Val;
    pub fn LLVMBuildSelect(b: Bld, c: Val, t: Val, e: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildPhi(b: Bld, t: Ty, n: *const c_char) -> Val;
    pub fn LLVMAddIncoming(p: Val, v: *mut Val, b: *mut BB, n: c_uint);
    pub fn LLVMCountIncoming(p: Val) -> c_uint;
    pub fn LLVMBuildExtractValue(b: Bld, v: Val, i: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildInsertValue(b: Bld, a: Val, v: Val, i: c_uint, n: *const c_char) -> Val;
    pub fn LLVMBuildIsNull(b: Bld, v: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildIsNotNull(b: Bld, v: Val, n: *const c_char) -> Val;
    pub fn LLVMBuildMemCpy(b: Bld, d: Val, da: c_uint, s: Val, sa: c_uint, n: Val) -> Val;
    pub fn LLVMBuildMemMove(b: Bld, d: Val, da: c_uint, s: Val, sa: c_uint, n: Val) -> Val;
    pub fn LLVMBuildMemSet(b: Bld, d: Val, v: Val, n: Val, a: c_uint) -> Val;
    pub fn LLVMBuildGlobalStringPtr(b: Bld, s: *const c_char, n: *const c_char) -> Val;
    pub fn LLVMBuildGlobalString(b: Bld, s: *const c_char, n: *const c_char) -> Val;

    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> Buf;
    pub fn LLVMDisposeMemoryBuffer(b: Buf);
    pub fn LLVMGetBufferStart(b: Buf) -> *const c_char;
    pub fn LLVMGetBufferSize(b: Buf) -> usize;

    pub fn LLVMInitializeWebAssemblyTargetInfo();
    pub fn LLVMInitializeWebAssemblyTarget();
    pub fn LLVMInitializeWebAssemblyTargetMC();
    pub fn LLVMInitializeWebAssemblyAsmPrinter();
    pub fn LLVMInitializeWebAssemblyAsmParser();
    pub fn LLVMGetTargetFromName(n: *const c_char) -> Tgt;
    pub fn LLVMGetTargetFromTriple(n: *const c_char, o: *mut Tgt, e: *mut *mut c_char) -> Bool;
    pub fn LLVMCreateTargetMachine(t: Tgt, triple: *const c_char, cpu: *const c_char, f: *const c_char, lvl: c_int, r: c_int, cm: c_int) -> TM;
    pub fn LLVMDisposeTargetMachine(t: TM);
    pub fn LLVMTargetMachineEmitToMemoryBuffer(t: TM, m: Mod, ft: c_int, e: *mut *mut c_char, o: *mut Buf) -> Bool;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMRunPasses(m: Mod, p: *const c_char, tm: TM, o: *mut OPBO) -> *mut OErr;
    pub fn LLVMCreatePassBuilderOptions() -> *mut OPBO;
    pub fn LLVMDisposePassBuilderOptions(o: *mut OPBO);
    pub fn LLVMPassBuilderOptionsSetInlinerThreshold(o: *mut OPBO, t: c_int);
    pub fn LLVMParseCommandLineOptions(n: c_int, v: *const *const c_char, o: *const c_char);
    pub fn LLVMPassBuilderOptionsSetMergeFunctions(o: *mut OPBO, t: Bool);
    pub fn LLVMGetErrorMessage(e: *mut OErr) -> *mut c_char;
    pub fn LLVMDisposeErrorMessage(m: *mut c_char);
}
