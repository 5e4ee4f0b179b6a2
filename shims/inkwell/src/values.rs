use super::attributes::*;
use super::basic_block::BasicBlock;
use super::module::Linkage;
use super::types::*;
use super::*;
use std::fmt::Debug;

macro_rules! val {
    ($($n:ident),*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $n<'ctx> { pub(crate) raw: Val, _p: PhantomData<&'ctx ()> }
        impl<'ctx> $n<'ctx> {
            pub(crate) unsafe fn new(raw: Val) -> Self { $n { raw, _p: PhantomData } }
            pub fn as_value_ref(&self) -> Val { self.raw }
            pub fn print_to_string(self) -> LLVMString { LLVMString(msg(unsafe { LLVMPrintValueToString(self.raw) })) }
            pub fn get_name(&self) -> &CStr { unsafe { let mut l = 0usize; CStr::from_ptr(LLVMGetValueName2(self.raw, &mut l)) } }
            pub fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.raw, n.as_ptr() as *const _, n.len()) } }
            pub fn is_null(self) -> bool { unsafe { LLVMIsNull(self.raw) != 0 } }
            pub fn is_undef(self) -> bool { unsafe { LLVMIsUndef(self.raw) != 0 } }
            pub fn is_poison(self) -> bool { unsafe { LLVMIsPoison(self.raw) != 0 } }
            pub fn is_const(self) -> bool { unsafe { LLVMIsConstant(self.raw) != 0 } }
        }
        impl<'ctx> fmt::Display for $n<'ctx> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.print_to_string().0) }
        }
        impl<'ctx> AsValueRef for $n<'ctx> { fn as_value_ref(&self) -> Val { self.raw } }
        impl<'ctx> AnyValue<'ctx> for $n<'ctx> {}
    )* }
}
val!(IntValue, PointerValue, ArrayValue, StructValue, FloatValue, VectorValue, FunctionValue, GlobalValue, InstructionValue, CallSiteValue, PhiValue);

#[allow(private_interfaces)]
pub trait AsValueRef {
    fn as_value_ref(&self) -> Val;
}
pub trait AnyValue<'ctx>: AsValueRef + Debug {
    fn print_to_string(&self) -> LLVMString {
        LLVMString(msg(unsafe { LLVMPrintValueToString(AsValueRef::as_value_ref(self)) }))
    }
}
pub trait BasicValue<'ctx>: AnyValue<'ctx> {
    fn as_basic_value_enum(&self) -> BasicValueEnum<'ctx> {
        unsafe { BasicValueEnum::new(AsValueRef::as_value_ref(self)) }
    }
    fn as_instruction_value(&self) -> Option<InstructionValue<'ctx>> {
        unsafe { InstructionValue::opt(LLVMIsAInstruction(AsValueRef::as_value_ref(self))) }
    }
    fn get_first_use(&self) -> Option<()> {
        None
    }
    fn set_name(&self, n: &str) {
        unsafe { LLVMSetValueName2(AsValueRef::as_value_ref(self), n.as_ptr() as *const _, n.len()) }
    }
}
macro_rules! basic {
    ($($n:ident => $t:ident),*) => { $(
        impl<'ctx> BasicValue<'ctx> for $n<'ctx> {}
        impl<'ctx> From<$n<'ctx>> for BasicValueEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicValueEnum::$n(t) } }
        impl<'ctx> From<$n<'ctx>> for BasicMetadataValueEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicMetadataValueEnum::$n(t) } }
        impl<'ctx> $n<'ctx> {
            pub fn get_type(self) -> $t<'ctx> { unsafe { $t::new(LLVMTypeOf(self.raw)) } }
            pub fn as_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { InstructionValue::opt(LLVMIsAInstruction(self.raw)) } }
            pub fn replace_all_uses_with(self, o: $n<'ctx>) { unsafe { LLVMReplaceAllUsesWith(self.raw, o.raw) } }
        }
        impl<'ctx> TryFrom<BasicValueEnum<'ctx>> for $n<'ctx> { type Error = (); fn try_from(e: BasicValueEnum<'ctx>) -> Result<Self, ()> { if let BasicValueEnum::$n(t) = e { Ok(t) } else { Err(()) } } }
    )* }
}
basic!(IntValue => IntType, PointerValue => PointerType, ArrayValue => ArrayType, StructValue => StructType, FloatValue => FloatType, VectorValue => VectorType);

macro_rules! enum_val {
    ($e:ident { $($n:ident : $is:ident $into:ident),* }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $e<'ctx> { $($n($n<'ctx>)),* }
        impl<'ctx> $e<'ctx> {
            pub fn as_value_ref(&self) -> Val { match self { $($e::$n(t) => t.raw),* } }
            $(pub fn $is(self) -> bool { matches!(self, $e::$n(_)) }
              pub fn $into(self) -> $n<'ctx> { if let $e::$n(t) = self { t } else { panic!("Found {:?} but expected the {} variant", self, stringify!($n)) } })*
            pub fn print_to_string(self) -> LLVMString { LLVMString(msg(unsafe { LLVMPrintValueToString(self.as_value_ref()) })) }
        }
        impl<'ctx> fmt::Display for $e<'ctx> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.print_to_string().0) }
        }
        impl<'ctx> AsValueRef for $e<'ctx> { fn as_value_ref(&self) -> Val { $e::as_value_ref(self) } }
        impl<'ctx> AnyValue<'ctx> for $e<'ctx> {}
    }
}
enum_val!(BasicValueEnum { ArrayValue: is_array_value into_array_value, IntValue: is_int_value into_int_value, FloatValue: is_float_value into_float_value,
    PointerValue: is_pointer_value into_pointer_value, StructValue: is_struct_value into_struct_value, VectorValue: is_vector_value into_vector_value });
enum_val!(BasicMetadataValueEnum { ArrayValue: is_array_value into_array_value, IntValue: is_int_value into_int_value, FloatValue: is_float_value into_float_value,
    PointerValue: is_pointer_value into_pointer_value, StructValue: is_struct_value into_struct_value, VectorValue: is_vector_value into_vector_value });
impl<'ctx> BasicValue<'ctx> for BasicValueEnum<'ctx> {}
impl<'ctx> From<BasicValueEnum<'ctx>> for BasicMetadataValueEnum<'ctx> {
    fn from(t: BasicValueEnum<'ctx>) -> Self {
        match t {
            BasicValueEnum::ArrayValue(x) => x.into(),
            BasicValueEnum::IntValue(x) => x.into(),
            BasicValueEnum::FloatValue(x) => x.into(),
            BasicValueEnum::PointerValue(x) => x.into(),
            BasicValueEnum::StructValue(x) => x.into(),
            BasicValueEnum::VectorValue(x) => x.into(),
        }
    }
}
impl<'ctx> BasicValueEnum<'ctx> {
    pub(crate) unsafe fn new(v: Val) -> Self {
        match BasicTypeEnum::new(LLVMTypeOf(v)) {
            BasicTypeEnum::ArrayType(_) => BasicValueEnum::ArrayValue(ArrayValue::new(v)),
            BasicTypeEnum::IntType(_) => BasicValueEnum::IntValue(IntValue::new(v)),
            BasicTypeEnum::FloatType(_) => BasicValueEnum::FloatValue(FloatValue::new(v)),
            BasicTypeEnum::PointerType(_) => BasicValueEnum::PointerValue(PointerValue::new(v)),
            BasicTypeEnum::StructType(_) => BasicValueEnum::StructValue(StructValue::new(v)),
            BasicTypeEnum::VectorType(_) => BasicValueEnum::VectorValue(VectorValue::new(v)),
        }
    }
    pub fn get_type(&self) -> BasicTypeEnum<'ctx> {
        unsafe { BasicTypeEnum::new(LLVMTypeOf(self.as_value_ref())) }
    }
    pub fn set_name(&self, n: &str) {
        BasicValue::set_name(self, n)
    }
    pub fn is_const(&self) -> bool {
        unsafe { LLVMIsConstant(self.as_value_ref()) != 0 }
    }
}
impl<'ctx> IntValue<'ctx> {
    pub fn is_constant_int(self) -> bool {
        unsafe { !LLVMIsAConstantInt(self.raw).is_null() }
    }
    pub fn get_zero_extended_constant(self) -> Option<u64> {
        if !self.is_constant_int() || self.get_type().get_bit_width() > 64 {
            return None;
        }
        unsafe { Some(LLVMConstIntGetZExtValue(self.raw)) }
    }
    pub fn get_sign_extended_constant(self) -> Option<i64> {
        if !self.is_constant_int() || self.get_type().get_bit_width() > 64 {
            return None;
        }
        unsafe { Some(LLVMConstIntGetSExtValue(self.raw)) }
    }
    pub fn const_not(self) -> Self {
        unsafe { IntValue::new(LLVMConstNot(self.raw)) }
    }
    pub fn const_neg(self) -> Self {
        unsafe { IntValue::new(LLVMConstNeg(self.raw)) }
    }
    pub fn const_add(self, o: Self) -> Self {
        unsafe { IntValue::new(LLVMConstAdd(self.raw, o.raw)) }
    }
    pub fn const_sub(self, o: Self) -> Self {
        unsafe { IntValue::new(LLVMConstSub(self.raw, o.raw)) }
    }
    pub fn const_mul(self, o: Self) -> Self {
        unsafe { IntValue::new(LLVMConstMul(self.raw, o.raw)) }
    }
    pub fn const_xor(self, o: Self) -> Self {
        unsafe { IntValue::new(LLVMConstXor(self.raw, o.raw)) }
    }
    pub fn const_truncate(self, t: IntType<'ctx>) -> Self {
        unsafe { IntValue::new(LLVMConstTrunc(self.raw, t.raw)) }
    }
    pub fn const_to_pointer(self, t: PointerType<'ctx>) -> PointerValue<'ctx> {
        unsafe { PointerValue::new(LLVMConstIntToPtr(self.raw, t.raw)) }
    }
}
impl<'ctx> PointerValue<'ctx> {
    pub fn const_to_int(self, t: IntType<'ctx>) -> IntValue<'ctx> {
        unsafe { IntValue::new(LLVMConstPtrToInt(self.raw, t.raw)) }
    }
}
impl<'ctx> FunctionValue<'ctx> {
    pub(crate) unsafe fn new_raw(v: Val) -> Self {
        FunctionValue::new(v)
    }
    pub(crate) unsafe fn opt(v: Val) -> Option<Self> {
        if v.is_null() {
            None
        } else {
            Some(FunctionValue::new(v))
        }
    }
    pub fn get_type(self) -> FunctionType<'ctx> {
        unsafe { FunctionType::new(LLVMGlobalGetValueType(self.raw)) }
    }
    pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'ctx>> {
        if i >= self.count_params() {
            return None;
        }
        unsafe { Some(BasicValueEnum::new(LLVMGetParam(self.raw, i))) }
    }
    pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> {
        self.get_nth_param(0)
    }
    pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> {
        (0..self.count_params()).filter_map(|i| self.get_nth_param(i)).collect()
    }
    pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'ctx>> {
        self.get_params().into_iter()
    }
    pub fn count_params(self) -> u32 {
        unsafe { LLVMCountParams(self.raw) }
    }
    pub fn get_first_basic_block(self) -> Option<BasicBlock<'ctx>> {
        unsafe {
            let b = LLVMGetFirstBasicBlock(self.raw);
            if b.is_null() {
                None
            } else {
                Some(BasicBlock::new(b))
            }
        }
    }
    pub fn get_last_basic_block(self) -> Option<BasicBlock<'ctx>> {
        unsafe {
            let b = LLVMGetLastBasicBlock(self.raw);
            if b.is_null() {
                None
            } else {
                Some(BasicBlock::new(b))
            }
        }
    }
    pub fn get_basic_blocks(self) -> Vec<BasicBlock<'ctx>> {
        let mut v = vec![];
        let mut b = self.get_first_basic_block();
        while let Some(x) = b {
            v.push(x);
            b = x.get_next_basic_block();
        }
        v
    }
    pub fn count_basic_blocks(self) -> u32 {
        unsafe { LLVMCountBasicBlocks(self.raw) }
    }
    pub fn get_next_function(self) -> Option<Self> {
        unsafe { Self::opt(LLVMGetNextFunction(self.raw)) }
    }
    pub fn get_linkage(self) -> Linkage {
        unsafe { linkage(LLVMGetLinkage(self.raw)) }
    }
    pub fn set_linkage(self, l: Linkage) {
        unsafe { LLVMSetLinkage(self.raw, l as i32) }
    }
    pub fn verify(self, _print: bool) -> bool {
        unsafe { LLVMVerifyFunction(self.raw, 2) == 0 }
    }
    pub fn as_global_value(self) -> GlobalValue<'ctx> {
        unsafe { GlobalValue::new(self.raw) }
    }
    pub fn add_attribute(self, l: AttributeLoc, a: Attribute) {
        unsafe { LLVMAddAttributeAtIndex(self.raw, l.idx(), a.raw) }
    }
    pub unsafe fn delete(self) {
        LLVMDeleteFunction(self.raw)
    }
}
fn linkage(i: i32) -> Linkage {
    use Linkage::*;
    match i {
        1 => AvailableExternally,
        2 => LinkOnceAny,
        3 => LinkOnceODR,
        5 => WeakAny,
        6 => WeakODR,
        7 => Appending,
        8 => Internal,
        9 => Private,
        12 => ExternalWeak,
        14 => Common,
        _ => External,
    }
}
impl<'ctx> GlobalValue<'ctx> {
    pub fn set_initializer(self, v: &dyn BasicValue<'ctx>) {
        unsafe { LLVMSetInitializer(self.raw, v.as_value_ref()) }
    }
    pub fn get_initializer(self) -> Option<BasicValueEnum<'ctx>> {
        unsafe {
            let v = LLVMGetInitializer(self.raw);
            if v.is_null() {
                None
            } else {
                Some(BasicValueEnum::new(v))
            }
        }
    }
    pub fn as_pointer_value(self) -> PointerValue<'ctx> {
        unsafe { PointerValue::new(self.raw) }
    }
    pub fn set_constant(self, c: bool) {
        unsafe { LLVMSetGlobalConstant(self.raw, c as i32) }
    }
    pub fn is_constant(self) -> bool {
        unsafe { LLVMIsGlobalConstant(self.raw) != 0 }
    }
    pub fn set_linkage(self, l: Linkage) {
        unsafe { LLVMSetLinkage(self.raw, l as i32) }
    }
    pub fn get_linkage(self) -> Linkage {
        unsafe { linkage(LLVMGetLinkage(self.raw)) }
    }
    pub fn set_alignment(self, a: u32) {
        unsafe { LLVMSetAlignment(self.raw, a) }
    }
    pub fn get_alignment(self) -> u32 {
        unsafe { LLVMGetAlignment(self.raw) }
    }
    pub fn set_unnamed_addr(self, a: bool) {
        unsafe { LLVMSetUnnamedAddr(self.raw, a as i32) }
    }
    pub fn set_visibility(self, v: GlobalVisibility) {
        unsafe { LLVMSetVisibility(self.raw, v as i32) }
    }
    pub fn set_section(self, s: Option<&str>) {
        unsafe { LLVMSetSection(self.raw, cs(s.unwrap_or("")).as_ptr()) }
    }
    pub fn get_value_type(self) -> AnyTypeEnum<'ctx> {
        unsafe { AnyTypeEnum::new(LLVMGlobalGetValueType(self.raw)) }
    }
    pub fn is_declaration(self) -> bool {
        unsafe { LLVMIsDeclaration(self.raw) != 0 }
    }
    pub unsafe fn delete(self) {
        LLVMDeleteGlobal(self.raw)
    }
}
impl<'ctx> ArrayValue<'ctx> {
    pub fn is_const_string(self) -> bool {
        false
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum InstructionOpcode {
    Return,
    Br,
    Switch,
    Unreachable,
    Call,
    Other(i32),
}
impl<'ctx> InstructionValue<'ctx> {
    pub(crate) fn opt(v: Val) -> Option<Self> {
        if v.is_null() {
            None
        } else {
            Some(unsafe { InstructionValue::new(v) })
        }
    }
    pub fn get_opcode(self) -> InstructionOpcode {
        match unsafe { LLVMGetInstructionOpcode(self.raw) } {
            1 => InstructionOpcode::Return,
            2 => InstructionOpcode::Br,
            3 => InstructionOpcode::Switch,
            7 => InstructionOpcode::Unreachable,
            45 => InstructionOpcode::Call,
            n => InstructionOpcode::Other(n),
        }
    }
    pub fn is_terminator(self) -> bool {
        unsafe { !LLVMIsTerminator(self.raw) != 0 }
    }
    pub fn get_next_instruction(self) -> Option<Self> {
        Self::opt(unsafe { LLVMGetNextInstruction(self.raw) })
    }
    pub fn get_previous_instruction(self) -> Option<Self> {
        Self::opt(unsafe { LLVMGetPreviousInstruction(self.raw) })
    }
    pub fn get_parent(self) -> Option<BasicBlock<'ctx>> {
        unsafe { Some(BasicBlock::new(LLVMGetInstructionParent(self.raw))) }
    }
    pub fn erase_from_basic_block(self) {
        unsafe { LLVMInstructionEraseFromParent(self.raw) }
    }
    pub fn set_alignment(&self, a: u32) -> Result<(), &'static str> {
        unsafe { LLVMSetAlignment(self.raw, a) };
        Ok(())
    }
    pub fn set_volatile(self, v: bool) -> Result<(), &'static str> {
        unsafe { LLVMSetVolatile(self.raw, v as i32) };
        Ok(())
    }
    pub fn get_type(self) -> AnyTypeEnum<'ctx> {
        unsafe { AnyTypeEnum::new(LLVMTypeOf(self.raw)) }
    }
    pub fn replace_all_uses_with(self, o: &InstructionValue<'ctx>) {
        unsafe { LLVMReplaceAllUsesWith(self.raw, o.raw) }
    }
}
impl<'ctx> CallSiteValue<'ctx> {
    pub fn try_as_basic_value(self) -> Either<BasicValueEnum<'ctx>, InstructionValue<'ctx>> {
        unsafe {
            if LLVMGetTypeKind(LLVMTypeOf(self.raw)) == 0 {
                Either::Right(InstructionValue::new(self.raw))
            } else {
                Either::Left(BasicValueEnum::new(self.raw))
            }
        }
    }
    pub fn set_tail_call(self, t: bool) {
        unsafe { LLVMSetTailCall(self.raw, t as i32) }
    }
    pub fn is_tail_call(self) -> bool {
        unsafe { LLVMIsTailCall(self.raw) != 0 }
    }
}
impl<'ctx> PhiValue<'ctx> {
    pub fn add_incoming(self, inc: &[(&dyn BasicValue<'ctx>, BasicBlock<'ctx>)]) {
        let mut v: Vec<Val> = inc.iter().map(|x| x.0.as_value_ref()).collect();
        let mut b: Vec<BB> = inc.iter().map(|x| x.1.raw).collect();
        unsafe { LLVMAddIncoming(self.raw, v.as_mut_ptr(), b.as_mut_ptr(), v.len() as u32) }
    }
    pub fn count_incoming(self) -> u32 {
        unsafe { LLVMCountIncoming(self.raw) }
    }
    pub fn as_basic_value(self) -> BasicValueEnum<'ctx> {
        unsafe { BasicValueEnum::new(self.raw) }
    }
}
pub trait IntMathValue<'ctx>: BasicValue<'ctx> {}
impl<'ctx> IntMathValue<'ctx> for IntValue<'ctx> {}
