use super::basic_block::BasicBlock;
use super::types::*;
use super::values::*;
use super::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BuilderError {
    UnsetPosition,
    AlignmentError(&'static str),
    ExtractOutOfRange,
    BitwidthError(&'static str),
    PointeeTypeMismatch(&'static str),
    ValueTypeMismatch(&'static str),
    OrderingError(&'static str),
    GEPPointee,
    GEPIndex,
    NotSameType,
    NotPointerToInteger,
}
impl fmt::Display for BuilderError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            BuilderError::UnsetPosition => write!(f, "Builder position is not set"),
            e => write!(f, "{e:?}"),
        }
    }
}
impl std::error::Error for BuilderError {}

#[derive(Debug)]
pub struct Builder<'ctx> {
    pub(crate) raw: Bld,
    pub(crate) _p: PhantomData<&'ctx ()>,
}
macro_rules! bin {
    ($($n:ident = $f:ident),* $(,)?) => { $(
        pub fn $n(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
            self.pos()?;
            unsafe { Ok(IntValue::new($f(self.raw, l.raw, r.raw, cs(n).as_ptr()))) }
        }
    )* }
}
macro_rules! cast {
    ($($n:ident = $f:ident),* $(,)?) => { $(
        pub fn $n(&self, l: IntValue<'ctx>, t: IntType<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
            self.pos()?;
            unsafe { Ok(IntValue::new($f(self.raw, l.raw, t.raw, cs(n).as_ptr()))) }
        }
    )* }
}
impl<'ctx> Builder<'ctx> {
    fn pos(&self) -> Result<(), BuilderError> {
        if unsafe { LLVMGetInsertBlock(self.raw) }.is_null() {
            Err(BuilderError::UnsetPosition)
        } else {
            Ok(())
        }
    }
    pub fn position_at_end(&self, b: BasicBlock<'ctx>) {
        unsafe { LLVMPositionBuilderAtEnd(self.raw, b.raw) }
    }
    pub fn position_before(&self, i: &InstructionValue<'ctx>) {
        unsafe { LLVMPositionBuilderBefore(self.raw, i.raw) }
    }
    pub fn position_at(&self, b: BasicBlock<'ctx>, i: &InstructionValue<'ctx>) {
        unsafe { LLVMPositionBuilder(self.raw, b.raw, i.raw) }
    }
    pub fn get_insert_block(&self) -> Option<BasicBlock<'ctx>> {
        unsafe {
            let b = LLVMGetInsertBlock(self.raw);
            if b.is_null() {
                None
            } else {
                Some(BasicBlock::new(b))
            }
        }
    }
    pub fn clear_insertion_position(&self) {
        unsafe { LLVMClearInsertionPosition(self.raw) }
    }
    bin!(
        build_int_add = LLVMBuildAdd,
        build_int_nsw_add = LLVMBuildNSWAdd,
        build_int_nuw_add = LLVMBuildNUWAdd,
        build_int_sub = LLVMBuildSub,
        build_int_nsw_sub = LLVMBuildNSWSub,
        build_int_nuw_sub = LLVMBuildNUWSub,
        build_int_mul = LLVMBuildMul,
        build_int_nsw_mul = LLVMBuildNSWMul,
        build_int_nuw_mul = LLVMBuildNUWMul,
        build_int_unsigned_div = LLVMBuildUDiv,
        build_int_exact_unsigned_div = LLVMBuildExactUDiv,
        build_int_signed_div = LLVMBuildSDiv,
        build_int_exact_signed_div = LLVMBuildExactSDiv,
        build_int_unsigned_rem = LLVMBuildURem,
        build_int_signed_rem = LLVMBuildSRem,
        build_left_shift = LLVMBuildShl,
        build_and = LLVMBuildAnd,
        build_or = LLVMBuildOr,
        build_xor = LLVMBuildXor,
    );
    cast!(
        build_int_truncate = LLVMBuildTrunc,
        build_int_z_extend = LLVMBuildZExt,
        build_int_s_extend = LLVMBuildSExt,
        build_int_z_extend_or_bit_cast = LLVMBuildZExtOrBitCast,
        build_int_s_extend_or_bit_cast = LLVMBuildSExtOrBitCast,
        build_int_truncate_or_bit_cast = LLVMBuildTruncOrBitCast,
        build_int_cast = LLVMBuildIntCast,
        build_int_cast_sign_flag_ = LLVMBuildIntCast,
    );
    pub fn build_right_shift(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, signed: bool, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe {
            Ok(IntValue::new(if signed {
                LLVMBuildAShr(self.raw, l.raw, r.raw, cs(n).as_ptr())
            } else {
                LLVMBuildLShr(self.raw, l.raw, r.raw, cs(n).as_ptr())
            }))
        }
    }
    pub fn build_not(&self, v: IntValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildNot(self.raw, v.raw, cs(n).as_ptr()))) }
    }
    pub fn build_int_neg(&self, v: IntValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildNeg(self.raw, v.raw, cs(n).as_ptr()))) }
    }
    pub fn build_int_compare(&self, p: IntPredicate, l: IntValue<'ctx>, r: IntValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildICmp(self.raw, p as i32, l.raw, r.raw, cs(n).as_ptr()))) }
    }
    pub fn build_alloca<T: BasicType<'ctx>>(&self, t: T, n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildAlloca(self.raw, t.as_basic_type_enum().as_type_ref(), cs(n).as_ptr()))) }
    }
    pub fn build_array_alloca<T: BasicType<'ctx>>(&self, t: T, s: IntValue<'ctx>, n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildArrayAlloca(self.raw, t.as_basic_type_enum().as_type_ref(), s.raw, cs(n).as_ptr()))) }
    }
    pub fn build_load<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, n: &str) -> Result<BasicValueEnum<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(BasicValueEnum::new(LLVMBuildLoad2(self.raw, t.as_basic_type_enum().as_type_ref(), p.raw, cs(n).as_ptr()))) }
    }
    pub fn build_store<V: BasicValue<'ctx>>(&self, p: PointerValue<'ctx>, v: V) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(InstructionValue::new(LLVMBuildStore(self.raw, AsValueRef::as_value_ref(&v), p.raw))) }
    }
    pub fn build_struct_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: u32, n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        let bt = t.as_basic_type_enum();
        if !bt.is_struct_type() {
            return Err(BuilderError::GEPPointee);
        }
        if i >= bt.into_struct_type().count_fields() {
            return Err(BuilderError::GEPIndex);
        }
        unsafe { Ok(PointerValue::new(LLVMBuildStructGEP2(self.raw, bt.as_type_ref(), p.raw, i, cs(n).as_ptr()))) }
    }
    pub unsafe fn build_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        let mut v: Vec<Val> = i.iter().map(|x| x.raw).collect();
        Ok(PointerValue::new(LLVMBuildGEP2(self.raw, t.as_basic_type_enum().as_type_ref(), p.raw, v.as_mut_ptr(), v.len() as u32, cs(n).as_ptr())))
    }
    pub unsafe fn build_in_bounds_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        let mut v: Vec<Val> = i.iter().map(|x| x.raw).collect();
        Ok(PointerValue::new(LLVMBuildInBoundsGEP2(self.raw, t.as_basic_type_enum().as_type_ref(), p.raw, v.as_mut_ptr(), v.len() as u32, cs(n).as_ptr())))
    }
    pub fn build_call(&self, f: FunctionValue<'ctx>, a: &[BasicMetadataValueEnum<'ctx>], n: &str) -> Result<CallSiteValue<'ctx>, BuilderError> {
        self.build_direct_call(f, a, n)
    }
    pub fn build_direct_call(&self, f: FunctionValue<'ctx>, a: &[BasicMetadataValueEnum<'ctx>], n: &str) -> Result<CallSiteValue<'ctx>, BuilderError> {
        self.pos()?;
        let mut v: Vec<Val> = a.iter().map(|x| x.as_value_ref()).collect();
        let ft = f.get_type();
        let name = if ft.get_return_type().is_none() { cs("") } else { cs(n) };
        let want = ft.count_param_types() as usize;
        if want != v.len() && !ft.is_var_arg() {
            // LLVM's C API would read past the argument array.
            panic!("call of {:?} with {} arguments instead of {}", f.get_name(), v.len(), want);
        }
        unsafe { Ok(CallSiteValue::new(LLVMBuildCall2(self.raw, ft.raw, f.raw, v.as_mut_ptr(), v.len() as u32, name.as_ptr()))) }
    }
    pub fn build_unconditional_branch(&self, b: BasicBlock<'ctx>) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(InstructionValue::new(LLVMBuildBr(self.raw, b.raw))) }
    }
    pub fn build_conditional_branch(&self, c: IntValue<'ctx>, t: BasicBlock<'ctx>, e: BasicBlock<'ctx>) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(InstructionValue::new(LLVMBuildCondBr(self.raw, c.raw, t.raw, e.raw))) }
    }
    pub fn build_switch(&self, v: IntValue<'ctx>, e: BasicBlock<'ctx>, cases: &[(IntValue<'ctx>, BasicBlock<'ctx>)]) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe {
            let s = LLVMBuildSwitch(self.raw, v.raw, e.raw, cases.len() as u32);
            for (c, b) in cases {
                LLVMAddCase(s, c.raw, b.raw);
            }
            Ok(InstructionValue::new(s))
        }
    }
    pub fn build_return(&self, v: Option<&dyn BasicValue<'ctx>>) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe {
            Ok(InstructionValue::new(match v {
                Some(v) => LLVMBuildRet(self.raw, v.as_value_ref()),
                None => LLVMBuildRetVoid(self.raw),
            }))
        }
    }
    pub fn build_unreachable(&self) -> Result<InstructionValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(InstructionValue::new(LLVMBuildUnreachable(self.raw))) }
    }
    pub fn build_select<V: BasicValue<'ctx>>(&self, c: IntValue<'ctx>, t: V, e: V, n: &str) -> Result<BasicValueEnum<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(BasicValueEnum::new(LLVMBuildSelect(self.raw, c.raw, AsValueRef::as_value_ref(&t), AsValueRef::as_value_ref(&e), cs(n).as_ptr()))) }
    }
    pub fn build_phi<T: BasicType<'ctx>>(&self, t: T, n: &str) -> Result<PhiValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PhiValue::new(LLVMBuildPhi(self.raw, t.as_basic_type_enum().as_type_ref(), cs(n).as_ptr()))) }
    }
    pub fn build_ptr_to_int(&self, p: PointerValue<'ctx>, t: IntType<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildPtrToInt(self.raw, p.raw, t.raw, cs(n).as_ptr()))) }
    }
    pub fn build_int_to_ptr(&self, v: IntValue<'ctx>, t: PointerType<'ctx>, n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildIntToPtr(self.raw, v.raw, t.raw, cs(n).as_ptr()))) }
    }
    pub fn build_pointer_cast(&self, v: PointerValue<'ctx>, t: PointerType<'ctx>, n: &str) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildPointerCast(self.raw, v.raw, t.raw, cs(n).as_ptr()))) }
    }
    pub fn build_bit_cast<V: BasicValue<'ctx>, T: BasicType<'ctx>>(&self, v: V, t: T, n: &str) -> Result<BasicValueEnum<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(BasicValueEnum::new(LLVMBuildBitCast(self.raw, AsValueRef::as_value_ref(&v), t.as_basic_type_enum().as_type_ref(), cs(n).as_ptr()))) }
    }
    pub fn build_is_null(&self, v: PointerValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildIsNull(self.raw, v.raw, cs(n).as_ptr()))) }
    }
    pub fn build_is_not_null(&self, v: PointerValue<'ctx>, n: &str) -> Result<IntValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(IntValue::new(LLVMBuildIsNotNull(self.raw, v.raw, cs(n).as_ptr()))) }
    }
    pub fn build_extract_value(&self, v: StructValue<'ctx>, i: u32, n: &str) -> Result<BasicValueEnum<'ctx>, BuilderError> {
        self.pos()?;
        if i >= v.get_type().count_fields() {
            return Err(BuilderError::ExtractOutOfRange);
        }
        unsafe { Ok(BasicValueEnum::new(LLVMBuildExtractValue(self.raw, v.raw, i, cs(n).as_ptr()))) }
    }
    pub fn build_insert_value<V: BasicValue<'ctx>>(&self, a: StructValue<'ctx>, v: V, i: u32, n: &str) -> Result<StructValue<'ctx>, BuilderError> {
        self.pos()?;
        if i >= a.get_type().count_fields() {
            return Err(BuilderError::ExtractOutOfRange);
        }
        unsafe { Ok(StructValue::new(LLVMBuildInsertValue(self.raw, a.raw, AsValueRef::as_value_ref(&v), i, cs(n).as_ptr()))) }
    }
    pub fn build_memcpy(&self, d: PointerValue<'ctx>, da: u32, s: PointerValue<'ctx>, sa: u32, n: IntValue<'ctx>) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildMemCpy(self.raw, d.raw, da, s.raw, sa, n.raw))) }
    }
    pub fn build_memmove(&self, d: PointerValue<'ctx>, da: u32, s: PointerValue<'ctx>, sa: u32, n: IntValue<'ctx>) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildMemMove(self.raw, d.raw, da, s.raw, sa, n.raw))) }
    }
    pub fn build_memset(&self, d: PointerValue<'ctx>, a: u32, v: IntValue<'ctx>, n: IntValue<'ctx>) -> Result<PointerValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(PointerValue::new(LLVMBuildMemSet(self.raw, d.raw, v.raw, n.raw, a))) }
    }
    pub fn build_global_string_ptr(&self, s: &str, n: &str) -> Result<GlobalValue<'ctx>, BuilderError> {
        self.pos()?;
        unsafe { Ok(GlobalValue::new(LLVMBuildGlobalStringPtr(self.raw, cs(s).as_ptr(), cs(n).as_ptr()))) }
    }
}
impl<'ctx> Drop for Builder<'ctx> {
    fn drop(&mut self) {
        unsafe { LLVMDisposeBuilder(self.raw) }
    }
}
