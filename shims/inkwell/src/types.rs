use super::values::*;
use super::*;
use std::fmt::Debug;

macro_rules! ty {
    ($($n:ident),*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $n<'ctx> { pub(crate) raw: Ty, _p: PhantomData<&'ctx ()> }
        impl<'ctx> $n<'ctx> {
            pub(crate) unsafe fn new(raw: Ty) -> Self { $n { raw, _p: PhantomData } }
            pub fn as_type_ref(&self) -> Ty { self.raw }
            pub fn print_to_string(self) -> LLVMString { LLVMString(msg(unsafe { LLVMPrintTypeToString(self.raw) })) }
            pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
                let mut v: Vec<Ty> = p.iter().map(|t| t.as_type_ref()).collect();
                unsafe { FunctionType::new(LLVMFunctionType(self.raw, v.as_mut_ptr(), v.len() as u32, va as i32)) }
            }
        }
        impl<'ctx> fmt::Display for $n<'ctx> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.print_to_string().0) }
        }
    )* }
}
ty!(IntType, PointerType, ArrayType, StructType, VoidType, FunctionType, FloatType, VectorType);

macro_rules! sized {
    ($($n:ident => $v:ident),*) => { $(
        impl<'ctx> $n<'ctx> {
            pub fn array_type(self, n: u32) -> ArrayType<'ctx> { unsafe { ArrayType::new(LLVMArrayType2(self.raw, n as u64)) } }
            pub fn ptr_type(self, a: AddressSpace) -> PointerType<'ctx> { unsafe { PointerType::new(LLVMPointerTypeInContext(LLVMGetTypeContext(self.raw), a.0)) } }
            pub fn size_of(self) -> Option<IntValue<'ctx>> { unsafe { if LLVMTypeIsSized(self.raw) != 0 { Some(IntValue::new(LLVMSizeOf(self.raw))) } else { None } } }
            pub fn get_alignment(self) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMAlignOf(self.raw)) } }
            pub fn is_sized(self) -> bool { unsafe { LLVMTypeIsSized(self.raw) != 0 } }
            pub fn get_undef(self) -> $v<'ctx> { unsafe { $v::new(LLVMGetUndef(self.raw)) } }
            pub fn get_poison(self) -> $v<'ctx> { unsafe { $v::new(LLVMGetPoison(self.raw)) } }
            pub fn const_zero(self) -> $v<'ctx> { unsafe { $v::new(LLVMConstNull(self.raw)) } }
            pub fn const_array(self, vs: &[$v<'ctx>]) -> ArrayValue<'ctx> {
                let mut v: Vec<Val> = vs.iter().map(|t| t.as_value_ref()).collect();
                unsafe { ArrayValue::new(LLVMConstArray2(self.raw, v.as_mut_ptr(), v.len() as u64)) }
            }
        }
        impl<'ctx> BasicType<'ctx> for $n<'ctx> {}
        impl<'ctx> AnyType<'ctx> for $n<'ctx> {}
        impl<'ctx> From<$n<'ctx>> for BasicTypeEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicTypeEnum::$n(t) } }
        impl<'ctx> From<$n<'ctx>> for BasicMetadataTypeEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicMetadataTypeEnum::$n(t) } }
        impl<'ctx> From<$n<'ctx>> for AnyTypeEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { AnyTypeEnum::$n(t) } }
        impl<'ctx> AsTypeRef for $n<'ctx> { fn as_type_ref(&self) -> Ty { self.raw } }
    )* }
}
sized!(IntType => IntValue, PointerType => PointerValue, ArrayType => ArrayValue, StructType => StructValue, FloatType => FloatValue, VectorType => VectorValue);

#[allow(private_interfaces)]
pub trait AsTypeRef {
    fn as_type_ref(&self) -> Ty;
}
#[allow(private_bounds)]
pub trait AnyType<'ctx>: AsTypeRef + Debug {
    fn as_any_type_enum(&self) -> AnyTypeEnum<'ctx> {
        unsafe { AnyTypeEnum::new(AsTypeRef::as_type_ref(self)) }
    }
}
pub trait BasicType<'ctx>: AnyType<'ctx> {
    fn as_basic_type_enum(&self) -> BasicTypeEnum<'ctx> {
        unsafe { BasicTypeEnum::new(AsTypeRef::as_type_ref(self)) }
    }
    fn fn_type(&self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
        let mut v: Vec<Ty> = p.iter().map(|t| t.as_type_ref()).collect();
        unsafe { FunctionType::new(LLVMFunctionType(AsTypeRef::as_type_ref(self), v.as_mut_ptr(), v.len() as u32, va as i32)) }
    }
    fn array_type(&self, n: u32) -> ArrayType<'ctx> {
        unsafe { ArrayType::new(LLVMArrayType2(AsTypeRef::as_type_ref(self), n as u64)) }
    }
    fn ptr_type(&self, a: AddressSpace) -> PointerType<'ctx> {
        unsafe { PointerType::new(LLVMPointerTypeInContext(LLVMGetTypeContext(AsTypeRef::as_type_ref(self)), a.0)) }
    }
    fn size_of(&self) -> Option<IntValue<'ctx>> {
        unsafe { Some(IntValue::new(LLVMSizeOf(AsTypeRef::as_type_ref(self)))) }
    }
    fn is_sized(&self) -> bool {
        unsafe { LLVMTypeIsSized(AsTypeRef::as_type_ref(self)) != 0 }
    }
}
macro_rules! enum_ty {
    ($e:ident { $($n:ident : $is:ident $into:ident),* }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $e<'ctx> { $($n($n<'ctx>)),* }
        impl<'ctx> $e<'ctx> {
            pub fn as_type_ref(&self) -> Ty { match self { $($e::$n(t) => t.raw),* } }
            $(pub fn $is(self) -> bool { matches!(self, $e::$n(_)) }
              pub fn $into(self) -> $n<'ctx> { if let $e::$n(t) = self { t } else { panic!("Found {:?} but expected the {} variant", self, stringify!($n)) } })*
            pub fn print_to_string(self) -> LLVMString { LLVMString(msg(unsafe { LLVMPrintTypeToString(self.as_type_ref()) })) }
        }
        impl<'ctx> fmt::Display for $e<'ctx> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.print_to_string().0) }
        }
        impl<'ctx> AsTypeRef for $e<'ctx> { fn as_type_ref(&self) -> Ty { $e::as_type_ref(self) } }
        $(impl<'ctx> TryFrom<$e<'ctx>> for $n<'ctx> { type Error = (); fn try_from(e: $e<'ctx>) -> Result<Self, ()> { if let $e::$n(t) = e { Ok(t) } else { Err(()) } } })*
    }
}
enum_ty!(BasicTypeEnum { ArrayType: is_array_type into_array_type, FloatType: is_float_type into_float_type, IntType: is_int_type into_int_type,
    PointerType: is_pointer_type into_pointer_type, StructType: is_struct_type into_struct_type, VectorType: is_vector_type into_vector_type });
enum_ty!(BasicMetadataTypeEnum { ArrayType: is_array_type into_array_type, FloatType: is_float_type into_float_type, IntType: is_int_type into_int_type,
    PointerType: is_pointer_type into_pointer_type, StructType: is_struct_type into_struct_type, VectorType: is_vector_type into_vector_type });
enum_ty!(AnyTypeEnum { ArrayType: is_array_type into_array_type, FloatType: is_float_type into_float_type, IntType: is_int_type into_int_type,
    PointerType: is_pointer_type into_pointer_type, StructType: is_struct_type into_struct_type, VectorType: is_vector_type into_vector_type,
    VoidType: is_void_type into_void_type, FunctionType: is_function_type into_function_type });
impl<'ctx> AnyType<'ctx> for BasicTypeEnum<'ctx> {}
impl<'ctx> BasicType<'ctx> for BasicTypeEnum<'ctx> {}
impl<'ctx> AnyType<'ctx> for AnyTypeEnum<'ctx> {}
impl<'ctx> AsTypeRef for VoidType<'ctx> {
    fn as_type_ref(&self) -> Ty {
        self.raw
    }
}
impl<'ctx> AnyType<'ctx> for VoidType<'ctx> {}
impl<'ctx> AsTypeRef for FunctionType<'ctx> {
    fn as_type_ref(&self) -> Ty {
        self.raw
    }
}
impl<'ctx> AnyType<'ctx> for FunctionType<'ctx> {}
impl<'ctx> From<BasicTypeEnum<'ctx>> for BasicMetadataTypeEnum<'ctx> {
    fn from(t: BasicTypeEnum<'ctx>) -> Self {
        match t {
            BasicTypeEnum::ArrayType(x) => x.into(),
            BasicTypeEnum::FloatType(x) => x.into(),
            BasicTypeEnum::IntType(x) => x.into(),
            BasicTypeEnum::PointerType(x) => x.into(),
            BasicTypeEnum::StructType(x) => x.into(),
            BasicTypeEnum::VectorType(x) => x.into(),
        }
    }
}
impl<'ctx> TryFrom<BasicMetadataTypeEnum<'ctx>> for BasicTypeEnum<'ctx> {
    type Error = ();
    fn try_from(t: BasicMetadataTypeEnum<'ctx>) -> Result<Self, ()> {
        Ok(unsafe { BasicTypeEnum::new(t.as_type_ref()) })
    }
}
impl<'ctx> BasicTypeEnum<'ctx> {
    pub(crate) unsafe fn new(t: Ty) -> Self {
        match LLVMGetTypeKind(t) {
            1 | 2 | 3 | 4 | 5 | 6 => BasicTypeEnum::FloatType(FloatType::new(t)),
            8 => BasicTypeEnum::IntType(IntType::new(t)),
            10 => BasicTypeEnum::StructType(StructType::new(t)),
            11 => BasicTypeEnum::ArrayType(ArrayType::new(t)),
            12 => BasicTypeEnum::PointerType(PointerType::new(t)),
            13 => BasicTypeEnum::VectorType(VectorType::new(t)),
            k => unreachable!("Unsupported type kind {k}"),
        }
    }
    pub fn size_of(self) -> Option<IntValue<'ctx>> {
        BasicType::size_of(&self)
    }
    pub fn const_zero(self) -> BasicValueEnum<'ctx> {
        unsafe { BasicValueEnum::new(LLVMConstNull(self.as_type_ref())) }
    }
}
impl<'ctx> AnyTypeEnum<'ctx> {
    pub(crate) unsafe fn new(t: Ty) -> Self {
        match LLVMGetTypeKind(t) {
            0 => AnyTypeEnum::VoidType(VoidType::new(t)),
            9 => AnyTypeEnum::FunctionType(FunctionType::new(t)),
            _ => match BasicTypeEnum::new(t) {
                BasicTypeEnum::ArrayType(x) => x.into(),
                BasicTypeEnum::FloatType(x) => x.into(),
                BasicTypeEnum::IntType(x) => x.into(),
                BasicTypeEnum::PointerType(x) => x.into(),
                BasicTypeEnum::StructType(x) => x.into(),
                BasicTypeEnum::VectorType(x) => x.into(),
            },
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum StringRadix {
    Binary = 2,
    Octal = 8,
    Decimal = 10,
    Hexadecimal = 16,
    Alphanumeric = 36,
}
impl StringRadix {
    pub fn matches_str(&self, s: &str) -> bool {
        let s = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
        !s.is_empty() && s.chars().all(|c| c.is_digit(*self as u32))
    }
}
impl<'ctx> IntType<'ctx> {
    pub fn get_bit_width(self) -> u32 {
        unsafe { LLVMGetIntTypeWidth(self.raw) }
    }
    pub fn const_int(self, v: u64, s: bool) -> IntValue<'ctx> {
        unsafe { IntValue::new(LLVMConstInt(self.raw, v, s as i32)) }
    }
    pub fn const_int_from_string(self, s: &str, r: StringRadix) -> Option<IntValue<'ctx>> {
        if !r.matches_str(s) {
            return None;
        }
        unsafe { Some(IntValue::new(LLVMConstIntOfStringAndSize(self.raw, s.as_ptr() as *const _, s.len() as u32, r as u8))) }
    }
    pub fn const_int_arbitrary_precision(self, w: &[u64]) -> IntValue<'ctx> {
        unsafe { IntValue::new(LLVMConstIntOfArbitraryPrecision(self.raw, w.len() as u32, w.as_ptr())) }
    }
    pub fn const_all_ones(self) -> IntValue<'ctx> {
        unsafe { IntValue::new(LLVMConstAllOnes(self.raw)) }
    }
}
impl<'ctx> PointerType<'ctx> {
    pub fn const_null(self) -> PointerValue<'ctx> {
        self.const_zero()
    }
}
impl<'ctx> ArrayType<'ctx> {
    pub fn len(self) -> u32 {
        unsafe { LLVMGetArrayLength2(self.raw) as u32 }
    }
    pub fn is_empty(self) -> bool {
        self.len() == 0
    }
    pub fn get_element_type(self) -> BasicTypeEnum<'ctx> {
        unsafe { BasicTypeEnum::new(LLVMGetElementType(self.raw)) }
    }
}
impl<'ctx> StructType<'ctx> {
    pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'ctx>> {
        if i >= self.count_fields() {
            return None;
        }
        unsafe { Some(BasicTypeEnum::new(LLVMStructGetTypeAtIndex(self.raw, i))) }
    }
    pub fn count_fields(self) -> u32 {
        unsafe { LLVMCountStructElementTypes(self.raw) }
    }
    pub fn get_field_types(self) -> Vec<BasicTypeEnum<'ctx>> {
        (0..self.count_fields()).filter_map(|i| self.get_field_type_at_index(i)).collect()
    }
    pub fn is_packed(self) -> bool {
        unsafe { LLVMIsPackedStruct(self.raw) != 0 }
    }
    pub fn const_named_struct(self, f: &[BasicValueEnum<'ctx>]) -> StructValue<'ctx> {
        let mut v: Vec<Val> = f.iter().map(|t| t.as_value_ref()).collect();
        unsafe { StructValue::new(LLVMConstStructInContext(LLVMGetTypeContext(self.raw), v.as_mut_ptr(), v.len() as u32, self.is_packed() as i32)) }
    }
}
impl<'ctx> FunctionType<'ctx> {
    pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
        unsafe {
            let t = LLVMGetReturnType(self.raw);
            if LLVMGetTypeKind(t) == 0 {
                None
            } else {
                Some(BasicTypeEnum::new(t))
            }
        }
    }
    pub fn count_param_types(self) -> u32 {
        unsafe { LLVMCountParamTypes(self.raw) }
    }
    pub fn get_param_types(self) -> Vec<BasicTypeEnum<'ctx>> {
        let n = self.count_param_types() as usize;
        let mut v: Vec<Ty> = vec![std::ptr::null_mut(); n];
        unsafe {
            LLVMGetParamTypes(self.raw, v.as_mut_ptr());
            v.into_iter().map(|t| BasicTypeEnum::new(t)).collect()
        }
    }
    pub fn is_var_arg(self) -> bool {
        unsafe { LLVMIsFunctionVarArg(self.raw) != 0 }
    }
}
