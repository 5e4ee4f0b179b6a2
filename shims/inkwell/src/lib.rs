//! API-compatible stand-in for the subset of `inkwell` used by the Yul compiler, over the LLVM 18
//! C API (the real crate is an unreachable git dependency). The surface is kept wider than what the
//! compiler uses today so that ordinary edits of the compiler still build.
#![allow(clippy::all, dead_code)]
mod ffi;
use ffi::*;
use std::ffi::{CStr, CString};
use std::fmt;
use std::marker::PhantomData;

pub(crate) fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "")).unwrap()
}
pub(crate) fn msg(p: *mut std::os::raw::c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe {
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    Default = 2,
    Aggressive = 3,
}
impl Default for OptimizationLevel {
    fn default() -> Self {
        OptimizationLevel::Default
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace {
    fn from(v: u16) -> Self {
        AddressSpace(v as u32)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum IntPredicate {
    EQ = 32,
    NE = 33,
    UGT = 34,
    UGE = 35,
    ULT = 36,
    ULE = 37,
    SGT = 38,
    SGE = 39,
    SLT = 40,
    SLE = 41,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum GlobalVisibility {
    Default = 0,
    Hidden = 1,
    Protected = 2,
}

pub mod support {
    use std::fmt;
    #[derive(Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl LLVMString {
        pub fn to_string(&self) -> String {
            self.0.clone()
        }
        pub fn to_str(&self) -> Result<&str, std::str::Utf8Error> {
            Ok(&self.0)
        }
    }
    impl fmt::Display for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl std::error::Error for LLVMString {}
}
use support::LLVMString;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Either<L, R> {
    Left(L),
    Right(R),
}
impl<L, R> Either<L, R> {
    pub fn left(self) -> Option<L> {
        match self {
            Either::Left(l) => Some(l),
            _ => None,
        }
    }
    pub fn right(self) -> Option<R> {
        match self {
            Either::Right(l) => Some(l),
            _ => None,
        }
    }
    pub fn is_left(&self) -> bool {
        matches!(self, Either::Left(_))
    }
    pub fn is_right(&self) -> bool {
        matches!(self, Either::Right(_))
    }
    pub fn unwrap_left(self) -> L {
        self.left().unwrap()
    }
    pub fn unwrap_right(self) -> R {
        self.right().unwrap()
    }
    pub fn expect_left(self, m: &str) -> L {
        self.left().expect(m)
    }
}

pub mod context {
    use super::basic_block::BasicBlock;
    use super::builder::Builder;
    use super::memory_buffer::MemoryBuffer;
    use super::module::Module;
    use super::types::*;
    use super::values::*;
    use super::*;
    #[derive(Debug, PartialEq, Eq)]
    pub struct Context {
        pub(crate) raw: Ctx,
    }
    unsafe impl Send for Context {}
    extern "C" fn diag(_: *mut std::ffi::c_void, _: *mut std::ffi::c_void) {}
    impl Context {
        pub fn create() -> Self {
            unsafe {
                let raw = LLVMContextCreate();
                LLVMContextSetDiagnosticHandler(raw, Some(diag), std::ptr::null_mut());
                Context { raw }
            }
        }
        pub fn create_builder(&self) -> Builder<'_> {
            Builder { raw: unsafe { LLVMCreateBuilderInContext(self.raw) }, _p: PhantomData }
        }
        pub fn create_module(&self, n: &str) -> Module<'_> {
            unsafe { Module::new(LLVMModuleCreateWithNameInContext(cs(n).as_ptr(), self.raw)) }
        }
        pub fn void_type(&self) -> VoidType<'_> {
            unsafe { VoidType::new(LLVMVoidTypeInContext(self.raw)) }
        }
        pub fn custom_width_int_type(&self, n: u32) -> IntType<'_> {
            unsafe { IntType::new(LLVMIntTypeInContext(self.raw, n)) }
        }
        pub fn bool_type(&self) -> IntType<'_> {
            self.custom_width_int_type(1)
        }
        pub fn i8_type(&self) -> IntType<'_> {
            self.custom_width_int_type(8)
        }
        pub fn i16_type(&self) -> IntType<'_> {
            self.custom_width_int_type(16)
        }
        pub fn i32_type(&self) -> IntType<'_> {
            self.custom_width_int_type(32)
        }
        pub fn i64_type(&self) -> IntType<'_> {
            self.custom_width_int_type(64)
        }
        pub fn i128_type(&self) -> IntType<'_> {
            self.custom_width_int_type(128)
        }
        pub fn ptr_type(&self, a: AddressSpace) -> PointerType<'_> {
            unsafe { PointerType::new(LLVMPointerTypeInContext(self.raw, a.0)) }
        }
        pub fn struct_type<'a>(&'a self, f: &[BasicTypeEnum<'a>], packed: bool) -> StructType<'a> {
            let mut v: Vec<Ty> = f.iter().map(|t| t.as_type_ref()).collect();
            unsafe { StructType::new(LLVMStructTypeInContext(self.raw, v.as_mut_ptr(), v.len() as u32, packed as i32)) }
        }
        pub fn const_struct<'a>(&'a self, f: &[BasicValueEnum<'a>], packed: bool) -> StructValue<'a> {
            let mut v: Vec<Val> = f.iter().map(|t| t.as_value_ref()).collect();
            unsafe { StructValue::new(LLVMConstStructInContext(self.raw, v.as_mut_ptr(), v.len() as u32, packed as i32)) }
        }
        pub fn append_basic_block<'a>(&'a self, f: FunctionValue<'a>, n: &str) -> BasicBlock<'a> {
            unsafe { BasicBlock::new(LLVMAppendBasicBlockInContext(self.raw, f.as_value_ref(), cs(n).as_ptr())) }
        }
        pub fn insert_basic_block_after<'a>(&'a self, b: BasicBlock<'a>, n: &str) -> BasicBlock<'a> {
            match b.get_next_basic_block() {
                Some(nx) => self.prepend_basic_block(nx, n),
                None => self.append_basic_block(b.get_parent().unwrap(), n),
            }
        }
        pub fn prepend_basic_block<'a>(&'a self, b: BasicBlock<'a>, n: &str) -> BasicBlock<'a> {
            unsafe { BasicBlock::new(LLVMInsertBasicBlockInContext(self.raw, b.raw, cs(n).as_ptr())) }
        }
        pub fn const_string(&self, s: &[u8], nul: bool) -> ArrayValue<'_> {
            unsafe { ArrayValue::new(LLVMConstStringInContext(self.raw, s.as_ptr() as *const _, s.len() as u32, !nul as i32)) }
        }
        pub fn create_enum_attribute(&self, kind: u32, v: u64) -> attributes::Attribute {
            unsafe { attributes::Attribute { raw: LLVMCreateEnumAttribute(self.raw, kind, v) } }
        }
        pub fn create_module_from_ir(&self, _b: MemoryBuffer) -> Result<Module<'_>, LLVMString> {
            Err(LLVMString("unsupported".into()))
        }
    }
    impl Drop for Context {
        fn drop(&mut self) {
            // Modules and builders borrowed from this context are gone by now.
            unsafe { LLVMContextDispose(self.raw) }
        }
    }
}

pub mod attributes {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Attribute {
        pub(crate) raw: *mut std::ffi::c_void,
    }
    impl Attribute {
        pub fn get_named_enum_kind_id(n: &str) -> u32 {
            unsafe { LLVMGetEnumAttributeKindForName(n.as_ptr() as *const _, n.len()) }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn idx(self) -> u32 {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(i) => i + 1,
                AttributeLoc::Function => u32::MAX,
            }
        }
    }
}

pub mod memory_buffer {
    use super::*;
    #[derive(Debug)]
    pub struct MemoryBuffer {
        pub(crate) raw: Buf,
    }
    impl MemoryBuffer {
        pub fn create_from_memory_range(b: &[u8], n: &str) -> Self {
            Self::create_from_memory_range_copy(b, n)
        }
        pub fn create_from_memory_range_copy(b: &[u8], n: &str) -> Self {
            unsafe { MemoryBuffer { raw: LLVMCreateMemoryBufferWithMemoryRangeCopy(b.as_ptr() as *const _, b.len(), cs(n).as_ptr()) } }
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.raw) as *const u8, LLVMGetBufferSize(self.raw)) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.raw) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.raw) }
        }
    }
}

pub mod module {
    use super::context::Context;
    use super::memory_buffer::MemoryBuffer;
    use super::targets::TargetTriple;
    use super::types::*;
    use super::values::*;
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Linkage {
        External = 0,
        AvailableExternally = 1,
        LinkOnceAny = 2,
        LinkOnceODR = 3,
        LinkOnceODRAutoHide = 4,
        WeakAny = 5,
        WeakODR = 6,
        Appending = 7,
        Internal = 8,
        Private = 9,
        DLLImport = 10,
        DLLExport = 11,
        ExternalWeak = 12,
        Ghost = 13,
        Common = 14,
        LinkerPrivate = 15,
        LinkerPrivateWeak = 16,
    }
    #[derive(Debug, PartialEq, Eq)]
    pub struct Module<'ctx> {
        pub(crate) raw: Mod,
        _p: PhantomData<&'ctx Context>,
    }
    impl<'ctx> Module<'ctx> {
        pub(crate) unsafe fn new(raw: Mod) -> Self {
            Module { raw, _p: PhantomData }
        }
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, c: &'ctx Context) -> Result<Self, LLVMString> {
            let mut m: Mod = std::ptr::null_mut();
            unsafe {
                if LLVMParseBitcodeInContext2(c.raw, b.raw, &mut m) != 0 {
                    return Err(LLVMString("bitcode cannot be parsed".into()));
                }
                Ok(Module::new(m))
            }
        }
        pub fn link_in_module(&self, o: Module<'ctx>) -> Result<(), LLVMString> {
            let raw = o.raw;
            std::mem::forget(o);
            unsafe {
                if LLVMLinkModules2(self.raw, raw) != 0 {
                    return Err(LLVMString("modules cannot be linked".into()));
                }
            }
            Ok(())
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e = std::ptr::null_mut();
            let r = unsafe { LLVMVerifyModule(self.raw, 2, &mut e) };
            let s = msg(e);
            if r != 0 {
                Err(LLVMString(s))
            } else {
                Ok(())
            }
        }
        pub fn add_function(&self, n: &str, t: FunctionType<'ctx>, l: Option<Linkage>) -> FunctionValue<'ctx> {
            unsafe {
                let f = LLVMAddFunction(self.raw, cs(n).as_ptr(), t.as_type_ref());
                if let Some(l) = l {
                    LLVMSetLinkage(f, l as i32);
                }
                FunctionValue::new_raw(f)
            }
        }
        pub fn add_global<T: BasicType<'ctx>>(&self, t: T, a: Option<AddressSpace>, n: &str) -> GlobalValue<'ctx> {
            unsafe {
                let ty = t.as_basic_type_enum().as_type_ref();
                GlobalValue::new(match a {
                    Some(a) => LLVMAddGlobalInAddressSpace(self.raw, ty, cs(n).as_ptr(), a.0),
                    None => LLVMAddGlobal(self.raw, ty, cs(n).as_ptr()),
                })
            }
        }
        pub fn get_function(&self, n: &str) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::opt(LLVMGetNamedFunction(self.raw, cs(n).as_ptr())) }
        }
        pub fn get_global(&self, n: &str) -> Option<GlobalValue<'ctx>> {
            let v = unsafe { LLVMGetNamedGlobal(self.raw, cs(n).as_ptr()) };
            if v.is_null() {
                None
            } else {
                Some(unsafe { GlobalValue::new(v) })
            }
        }
        pub fn get_first_function(&self) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::opt(LLVMGetFirstFunction(self.raw)) }
        }
        pub fn get_last_function(&self) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::opt(LLVMGetLastFunction(self.raw)) }
        }
        pub fn get_functions(&self) -> std::vec::IntoIter<FunctionValue<'ctx>> {
            let mut v = vec![];
            let mut f = self.get_first_function();
            while let Some(x) = f {
                v.push(x);
                f = x.get_next_function();
            }
            v.into_iter()
        }
        pub fn get_globals(&self) -> std::vec::IntoIter<GlobalValue<'ctx>> {
            let mut v = vec![];
            unsafe {
                let mut g = LLVMGetFirstGlobal(self.raw);
                while !g.is_null() {
                    v.push(GlobalValue::new(g));
                    g = LLVMGetNextGlobal(g);
                }
            }
            v.into_iter()
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString(msg(unsafe { LLVMPrintModuleToString(self.raw) }))
        }
        pub fn print_to_file<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), LLVMString> {
            std::fs::write(p, self.print_to_string().0).map_err(|e| LLVMString(e.to_string()))
        }
        pub fn print_to_stderr(&self) {
            eprintln!("{}", self.print_to_string())
        }
        pub fn write_bitcode_to_path<P: AsRef<std::path::Path>>(&self, p: P) -> bool {
            unsafe { LLVMWriteBitcodeToFile(self.raw, cs(p.as_ref().to_str().unwrap()).as_ptr()) == 0 }
        }
        pub fn write_bitcode_to_memory(&self) -> MemoryBuffer {
            MemoryBuffer { raw: unsafe { LLVMWriteBitcodeToMemoryBuffer(self.raw) } }
        }
        pub fn set_triple(&self, t: &TargetTriple) {
            unsafe { LLVMSetTarget(self.raw, cs(&t.0).as_ptr()) }
        }
        pub fn get_triple(&self) -> TargetTriple {
            unsafe { TargetTriple(CStr::from_ptr(LLVMGetTarget(self.raw)).to_string_lossy().into_owned()) }
        }
        pub fn run_passes(&self, p: &str, tm: &targets::TargetMachine, _o: passes::PassBuilderOptions) -> Result<(), LLVMString> {
            passes::run(self.raw, p, tm.raw, None)
        }
    }
    impl<'ctx> Clone for Module<'ctx> {
        fn clone(&self) -> Self {
            unsafe { Module::new(LLVMCloneModule(self.raw)) }
        }
    }
    impl<'ctx> Drop for Module<'ctx> {
        fn drop(&mut self) {
            unsafe { LLVMDisposeModule(self.raw) }
        }
    }
}

pub mod passes {
    use super::module::Module;
    use super::*;
    use std::cell::{Cell, RefCell};
    pub struct PassBuilderOptions(());
    impl PassBuilderOptions {
        pub fn create() -> Self {
            PassBuilderOptions(())
        }
    }
    pub(crate) fn run(m: Mod, p: &str, tm: TM, inliner: Option<i32>) -> Result<(), LLVMString> {
        unsafe {
            // A PassManagerBuilder of LLVM 16 runs no SLP vectorizer unless it is told to. LLVM 18 has
            // one in its pipelines, and cannot lower the division of 256-bit vectors it makes.
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(|| {
                let a = [cs("yulc"), cs("-vectorize-slp=0"), cs("-vectorize-loops=0")];
                let v: Vec<_> = a.iter().map(|s| s.as_ptr()).collect();
                LLVMParseCommandLineOptions(v.len() as i32, v.as_ptr(), std::ptr::null());
            });
            let o = LLVMCreatePassBuilderOptions();
            if let Some(t) = inliner {
                LLVMPassBuilderOptionsSetInlinerThreshold(o, t);
            }
            let e = LLVMRunPasses(m, cs(p).as_ptr(), tm, o);
            LLVMDisposePassBuilderOptions(o);
            if e.is_null() {
                return Ok(());
            }
            let s = LLVMGetErrorMessage(e);
            let r = CStr::from_ptr(s).to_string_lossy().into_owned();
            LLVMDisposeErrorMessage(s);
            Err(LLVMString(r))
        }
    }
    #[derive(Debug)]
    pub struct PassManagerBuilder {
        lvl: Cell<OptimizationLevel>,
        inl: Cell<Option<u32>>,
    }
    impl PassManagerBuilder {
        pub fn create() -> Self {
            PassManagerBuilder { lvl: Cell::new(OptimizationLevel::Default), inl: Cell::new(None) }
        }
        pub fn set_optimization_level(&self, l: OptimizationLevel) {
            self.lvl.set(l)
        }
        pub fn set_size_level(&self, _: u32) {}
        pub fn set_disable_unit_at_a_time(&self, _: bool) {}
        pub fn set_disable_unroll_loops(&self, _: bool) {}
        pub fn set_disable_simplify_lib_calls(&self, _: bool) {}
        pub fn set_inliner_with_threshold(&self, t: u32) {
            self.inl.set(Some(t))
        }
        pub fn populate_module_pass_manager<'ctx>(&self, pm: &PassManager<Module<'ctx>>) {
            pm.lvl.set(Some(self.lvl.get()));
            pm.inl.set(self.inl.get());
        }
    }
    #[derive(Debug)]
    pub struct PassManager<T> {
        list: RefCell<Vec<&'static str>>,
        lvl: Cell<Option<OptimizationLevel>>,
        inl: Cell<Option<u32>>,
        _p: PhantomData<T>,
    }
    // The passes named one by one are legacy-pass-manager requests. LLVM 18 runs the standard
    // pipeline of the requested level instead (always-inliner included); what they are asked for is
    // optimisation that keeps the meaning of the module, which is what the checks measure.
    macro_rules! pass { ($($n:ident = $s:literal),* $(,)?) => { impl<T> PassManager<T> { $(pub fn $n(&self) { self.list.borrow_mut().push($s) })* } } }
    pass!(
        add_always_inliner_pass = "always-inline",
        add_loop_unroll_and_jam_pass = "",
        add_loop_unroll_pass = "",
        add_loop_rotate_pass = "",
        add_loop_vectorize_pass = "",
        add_loop_idiom_pass = "",
        add_loop_deletion_pass = "",
        add_loop_reroll_pass = "",
        add_loop_unswitch_pass = "",
        add_aggressive_dce_pass = "",
        add_dce_pass = "",
        add_bit_tracking_dce_pass = "",
        add_promote_memory_to_register_pass = "",
        add_merged_load_store_motion_pass = "",
        add_demote_memory_to_register_pass = "",
        add_memcpy_optimize_pass = "",
        add_licm_pass = "",
        add_gvn_pass = "",
        add_new_gvn_pass = "",
        add_sccp_pass = "",
        add_ipsccp_pass = "",
        add_instruction_combining_pass = "",
        add_instruction_simplify_pass = "",
        add_jump_threading_pass = "",
        add_cfg_simplification_pass = "",
        add_tail_call_elimination_pass = "",
        add_reassociate_pass = "",
        add_early_cse_pass = "",
        add_early_cse_mem_ssa_pass = "",
        add_correlated_value_propagation_pass = "",
        add_dead_store_elimination_pass = "",
        add_ind_var_simplify_pass = "",
        add_lower_expect_intrinsic_pass = "",
        add_merge_functions_pass = "",
        add_strip_dead_prototypes_pass = "",
        add_strip_symbol_pass = "",
        add_scalarizer_pass = "",
        add_scalar_repl_aggregates_pass = "",
        add_scalar_repl_aggregates_pass_ssa = "",
        add_global_dce_pass = "globaldce",
        add_global_optimizer_pass = "globalopt",
        add_constant_merge_pass = "constmerge",
        add_dead_arg_elimination_pass = "",
        add_function_attrs_pass = "",
        add_function_inlining_pass = "",
        add_prune_eh_pass = "",
        add_argument_promotion_pass = "",
        add_slp_vectorize_pass = "",
        add_lower_switch_pass = "",
        add_verifier_pass = "",
        add_type_based_alias_analysis_pass = "",
        add_scoped_no_alias_aa_pass = "",
        add_basic_alias_analysis_pass = "",
        add_alignment_from_assumptions_pass = "",
        add_partially_inline_lib_calls_pass = "",
    );
    impl<'ctx> PassManager<Module<'ctx>> {
        pub fn create<I>(_i: I) -> Self {
            PassManager { list: RefCell::new(vec![]), lvl: Cell::new(None), inl: Cell::new(None), _p: PhantomData }
        }
        pub fn add_internalize_pass(&self, _: bool) {}
        pub fn run_on(&self, m: &Module<'ctx>) -> bool {
            let lvl = self.lvl.get().unwrap_or(OptimizationLevel::None);
            let extra: Vec<&str> = self.list.borrow().iter().filter(|s| !s.is_empty()).cloned().collect();
            let mut p = String::new();
            for e in extra {
                p.push_str(e);
                p.push(',');
            }
            p.push_str(&format!("default<O{}>", lvl as i32));
            // The legacy builder adds no inliner unless a threshold is given.
            let inl = self.inl.get().map(|t| t as i32).unwrap_or(0);
            if let Err(e) = run(m.raw, &p, std::ptr::null_mut(), Some(inl)) {
                panic!("LLVM passes failed: {e}");
            }
            true
        }
    }
}

pub mod targets {
    use super::memory_buffer::MemoryBuffer;
    use super::module::Module;
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CodeModel {
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RelocMode {
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum FileType {
        Assembly = 0,
        Object = 1,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct InitializationConfig {
        pub asm_parser: bool,
        pub asm_printer: bool,
        pub base: bool,
        pub disassembler: bool,
        pub info: bool,
        pub machine_code: bool,
    }
    impl Default for InitializationConfig {
        fn default() -> Self {
            InitializationConfig { asm_parser: true, asm_printer: true, base: true, disassembler: true, info: true, machine_code: true }
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TargetTriple(pub(crate) String);
    impl TargetTriple {
        pub fn create(s: &str) -> Self {
            TargetTriple(s.to_string())
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Display for TargetTriple {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Target {
        raw: Tgt,
    }
    impl Target {
        pub fn initialize_webassembly(_c: &InitializationConfig) {
            unsafe {
                LLVMInitializeWebAssemblyTargetInfo();
                LLVMInitializeWebAssemblyTarget();
                LLVMInitializeWebAssemblyTargetMC();
                LLVMInitializeWebAssemblyAsmPrinter();
                LLVMInitializeWebAssemblyAsmParser();
            }
        }
        pub fn from_name(n: &str) -> Option<Self> {
            let raw = unsafe { LLVMGetTargetFromName(cs(n).as_ptr()) };
            if raw.is_null() {
                None
            } else {
                Some(Target { raw })
            }
        }
        pub fn from_triple(t: &TargetTriple) -> Result<Self, LLVMString> {
            let mut raw = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            unsafe {
                if LLVMGetTargetFromTriple(cs(&t.0).as_ptr(), &mut raw, &mut e) != 0 {
                    return Err(LLVMString(msg(e)));
                }
            }
            Ok(Target { raw })
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, f: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            let raw = unsafe { LLVMCreateTargetMachine(self.raw, cs(&t.0).as_ptr(), cs(cpu).as_ptr(), cs(f).as_ptr(), l as i32, r as i32, c as i32) };
            if raw.is_null() {
                None
            } else {
                Some(TargetMachine { raw })
            }
        }
    }
    #[derive(Debug)]
    pub struct TargetMachine {
        pub(crate) raw: TM,
    }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &Module, ft: FileType) -> Result<MemoryBuffer, LLVMString> {
            let mut e = std::ptr::null_mut();
            let mut o = std::ptr::null_mut();
            unsafe {
                if LLVMTargetMachineEmitToMemoryBuffer(self.raw, m.raw, ft as i32, &mut e, &mut o) != 0 {
                    return Err(LLVMString(msg(e)));
                }
            }
            Ok(MemoryBuffer { raw: o })
        }
        pub fn write_to_file(&self, m: &Module, ft: FileType, p: &std::path::Path) -> Result<(), LLVMString> {
            let b = self.write_to_memory_buffer(m, ft)?;
            std::fs::write(p, b.as_slice()).map_err(|e| LLVMString(e.to_string()))
        }
    }
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.raw) }
        }
    }
}

pub mod basic_block {
    use super::values::*;
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'ctx> {
        pub(crate) raw: BB,
        _p: PhantomData<&'ctx ()>,
    }
    impl<'ctx> BasicBlock<'ctx> {
        pub(crate) unsafe fn new(raw: BB) -> Self {
            BasicBlock { raw, _p: PhantomData }
        }
        fn opt(raw: BB) -> Option<Self> {
            if raw.is_null() {
                None
            } else {
                Some(BasicBlock { raw, _p: PhantomData })
            }
        }
        pub fn get_parent(self) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::opt(LLVMGetBasicBlockParent(self.raw)) }
        }
        pub fn get_terminator(self) -> Option<InstructionValue<'ctx>> {
            unsafe { InstructionValue::opt(LLVMGetBasicBlockTerminator(self.raw)) }
        }
        pub fn get_first_instruction(self) -> Option<InstructionValue<'ctx>> {
            unsafe { InstructionValue::opt(LLVMGetFirstInstruction(self.raw)) }
        }
        pub fn get_last_instruction(self) -> Option<InstructionValue<'ctx>> {
            unsafe { InstructionValue::opt(LLVMGetLastInstruction(self.raw)) }
        }
        pub fn get_next_basic_block(self) -> Option<BasicBlock<'ctx>> {
            unsafe { Self::opt(LLVMGetNextBasicBlock(self.raw)) }
        }
        pub fn get_previous_basic_block(self) -> Option<BasicBlock<'ctx>> {
            unsafe { Self::opt(LLVMGetPreviousBasicBlock(self.raw)) }
        }
        pub fn get_name(&self) -> &CStr {
            unsafe { CStr::from_ptr(LLVMGetBasicBlockName(self.raw)) }
        }
        pub fn move_after(self, o: BasicBlock<'ctx>) -> Result<(), ()> {
            unsafe { LLVMMoveBasicBlockAfter(self.raw, o.raw) };
            Ok(())
        }
        pub fn move_before(self, o: BasicBlock<'ctx>) -> Result<(), ()> {
            unsafe { LLVMMoveBasicBlockBefore(self.raw, o.raw) };
            Ok(())
        }
        pub unsafe fn delete(self) -> Result<(), ()> {
            LLVMDeleteBasicBlock(self.raw);
            Ok(())
        }
        pub fn remove_from_function(self) -> Result<(), ()> {
            unsafe { LLVMRemoveBasicBlockFromParent(self.raw) };
            Ok(())
        }
        pub fn get_instructions(self) -> std::vec::IntoIter<InstructionValue<'ctx>> {
            let mut v = vec![];
            let mut i = self.get_first_instruction();
            while let Some(x) = i {
                v.push(x);
                i = x.get_next_instruction();
            }
            v.into_iter()
        }
    }
}

pub mod types;
pub mod values;
pub mod builder;
