//! The parts of inkwell the pinned tree does not use: present so that a changed tree which does use
//! them still compiles here.
use super::*;
use basic_block::BasicBlock;
use builder::{Builder, BuilderError};
use module::{Linkage, Module};
use types::*;
use values::*;

#[rustfmt::skip]
extern "C" {
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMConstIntGetSExtValue(v: P) -> i64;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAInstruction(v: P) -> P;
    fn LLVMIsAPHINode(v: P) -> P;
    fn LLVMIsNull(v: P) -> c_int;
    fn LLVMIsUndef(v: P) -> c_int;
    fn LLVMIsPoison(v: P) -> c_int;
    fn LLVMGetUndef(t: P) -> P;
    fn LLVMGetPoison(t: P) -> P;
    fn LLVMGetValueName2(v: P, l: *mut usize) -> *const c_char;
    fn LLVMSetValueName2(v: P, n: *const c_char, l: usize);
    fn LLVMConstNeg(v: P) -> P;
    fn LLVMConstNot(v: P) -> P;
    fn LLVMConstAdd(l: P, r: P) -> P;
    fn LLVMConstSub(l: P, r: P) -> P;
    fn LLVMConstMul(l: P, r: P) -> P;
    fn LLVMConstXor(l: P, r: P) -> P;
    fn LLVMConstShl(l: P, r: P) -> P;
    fn LLVMConstLShr(l: P, r: P) -> P;
    fn LLVMConstAShr(l: P, r: P) -> P;
    fn LLVMConstTrunc(v: P, t: P) -> P;
    fn LLVMConstZExt(v: P, t: P) -> P;
    fn LLVMConstSExt(v: P, t: P) -> P;
    fn LLVMConstIntToPtr(v: P, t: P) -> P;
    fn LLVMConstPtrToInt(v: P, t: P) -> P;
    fn LLVMConstBitCast(v: P, t: P) -> P;
    fn LLVMConstICmp(p: c_int, l: P, r: P) -> P;
    fn LLVMConstIntOfArbitraryPrecision(t: P, n: c_uint, w: *const u64) -> P;
    fn LLVMConstArray(t: P, v: *const P, n: c_uint) -> P;
    fn LLVMConstStructInContext(c: P, v: *const P, n: c_uint, packed: c_int) -> P;
    fn LLVMConstNamedStruct(t: P, v: *const P, n: c_uint) -> P;
    fn LLVMStructCreateNamed(c: P, n: *const c_char) -> P;
    fn LLVMStructSetBody(t: P, v: *const P, n: c_uint, packed: c_int);
    fn LLVMSizeOf(t: P) -> P;
    fn LLVMReplaceAllUsesWith(o: P, n: P);
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMInstructionEraseFromParent(i: P);
    fn LLVMInstructionRemoveFromParent(i: P);
    fn LLVMInstructionClone(i: P) -> P;
    fn LLVMGetPreviousInstruction(i: P) -> P;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMSetOperand(v: P, i: c_uint, o: P);
    fn LLVMValueIsBasicBlock(v: P) -> c_int;
    fn LLVMValueAsBasicBlock(v: P) -> P;
    fn LLVMIsATerminatorInst(v: P) -> P;
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMSetVolatile(v: P, f: c_int);
    fn LLVMSetAlignment(v: P, n: c_uint);
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetLinkage(v: P) -> c_int;
    fn LLVMDeleteFunction(v: P);
    fn LLVMDeleteGlobal(v: P);
    fn LLVMVerifyFunction(v: P, a: c_int) -> c_int;
    fn LLVMCountBasicBlocks(v: P) -> c_uint;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetPreviousBasicBlock(b: P) -> P;
    fn LLVMGetBasicBlockName(b: P) -> *const c_char;
    fn LLVMBasicBlockAsValue(b: P) -> P;
    fn LLVMDeleteBasicBlock(b: P);
    fn LLVMRemoveBasicBlockFromParent(b: P);
    fn LLVMMoveBasicBlockBefore(b: P, o: P);
    fn LLVMMoveBasicBlockAfter(b: P, o: P);
    fn LLVMInsertBasicBlockInContext(c: P, b: P, n: *const c_char) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetPreviousFunction(f: P) -> P;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetLastFunction(m: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetLastGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetInitializer(g: P) -> P;
    fn LLVMIsGlobalConstant(g: P) -> c_int;
    fn LLVMSetUnnamedAddress(g: P, u: c_int);
    fn LLVMSetVisibility(g: P, u: c_int);
    fn LLVMSetSection(g: P, s: *const c_char);
    fn LLVMSetExternallyInitialized(g: P, f: c_int);
    fn LLVMGetModuleIdentifier(m: P, l: *mut usize) -> *const c_char;
    fn LLVMSetModuleIdentifier(m: P, s: *const c_char, l: usize);
    fn LLVMSetSourceFileName(m: P, s: *const c_char, l: usize);
    fn LLVMSetTarget(m: P, s: *const c_char);
    fn LLVMDumpModule(m: P);
    fn LLVMCloneModule(m: P) -> P;
    fn LLVMWriteBitcodeToFile(m: P, f: *const c_char) -> c_int;
    fn LLVMWriteBitcodeToMemoryBuffer(m: P) -> P;
    fn LLVMStripModuleDebugInfo(m: P) -> c_int;
    fn LLVMGetParamTypes(t: P, d: *mut P);
    fn LLVMCountParamTypes(t: P) -> c_uint;
    fn LLVMIsFunctionVarArg(t: P) -> c_int;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    fn LLVMCreateEnumAttribute(c: P, k: c_uint, v: u64) -> P;
    fn LLVMCreateStringAttribute(c: P, k: *const c_char, kl: c_uint, v: *const c_char, vl: c_uint) -> P;
    fn LLVMAddAttributeAtIndex(f: P, i: c_uint, a: P);
    fn LLVMAddCallSiteAttribute(f: P, i: c_uint, a: P);
    fn LLVMRemoveEnumAttributeAtIndex(f: P, i: c_uint, k: c_uint);
    fn LLVMGetEnumAttributeAtIndex(f: P, i: c_uint, k: c_uint) -> P;
    fn LLVMSetFunctionCallConv(f: P, c: c_uint);
    fn LLVMSetInstructionCallConv(f: P, c: c_uint);
    fn LLVMGetCalledValue(i: P) -> P;
    fn LLVMGetNumArgOperands(i: P) -> c_uint;
    fn LLVMIsTailCall(i: P) -> c_int;
    fn LLVMSetTailCall(i: P, f: c_int);
    fn LLVMCountIncoming(p: P) -> c_uint;
    fn LLVMGetIncomingValue(p: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(p: P, i: c_uint) -> P;
    fn LLVMClearInsertionPosition(b: P);
    fn LLVMInsertIntoBuilderWithName(b: P, i: P, n: *const c_char);
    fn LLVMBuildArrayAlloca(b: P, t: P, v: P, n: *const c_char) -> P;
    fn LLVMBuildMemCpy(b: P, d: P, da: c_uint, s: P, sa: c_uint, n: P) -> P;
    fn LLVMBuildMemMove(b: P, d: P, da: c_uint, s: P, sa: c_uint, n: P) -> P;
    fn LLVMBuildMemSet(b: P, d: P, v: P, n: P, a: c_uint) -> P;
    fn LLVMBuildBitCast(b: P, v: P, t: P, n: *const c_char) -> P;
    fn LLVMBuildExtractValue(b: P, v: P, i: c_uint, n: *const c_char) -> P;
    fn LLVMBuildInsertValue(b: P, v: P, e: P, i: c_uint, n: *const c_char) -> P;
    fn LLVMBuildAggregateRet(b: P, v: *const P, n: c_uint) -> P;
    fn LLVMBuildGlobalString(b: P, s: *const c_char, n: *const c_char) -> P;
    fn LLVMBuildGlobalStringPtr(b: P, s: *const c_char, n: *const c_char) -> P;
    fn LLVMBuildIsNull(b: P, v: P, n: *const c_char) -> P;
    fn LLVMBuildIsNotNull(b: P, v: P, n: *const c_char) -> P;
    fn LLVMBuildPtrDiff2(b: P, t: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNSWAdd(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNUWAdd(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNSWSub(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNUWSub(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNSWMul(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildNUWMul(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildExactSDiv(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildExactUDiv(b: P, l: P, r: P, n: *const c_char) -> P;
    fn LLVMBuildZExtOrBitCast(b: P, v: P, t: P, n: *const c_char) -> P;
    fn LLVMBuildSExtOrBitCast(b: P, v: P, t: P, n: *const c_char) -> P;
    fn LLVMBuildTruncOrBitCast(b: P, v: P, t: P, n: *const c_char) -> P;
    fn LLVMBuildIntCast2(b: P, v: P, t: P, s: c_int, n: *const c_char) -> P;
    fn LLVMBuildFreeze(b: P, v: P, n: *const c_char) -> P;
}

fn opt(p: P) -> Option<P> {
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}
fn bb<'c>(p: P) -> BasicBlock<'c> {
    BasicBlock { p, _m: PhantomData }
}
fn inst<'c>(p: P) -> InstructionValue<'c> {
    InstructionValue { p, _m: PhantomData }
}
fn func<'c>(p: P) -> FunctionValue<'c> {
    FunctionValue { p, _m: PhantomData }
}
fn int<'c>(p: P) -> IntValue<'c> {
    IntValue { p, _m: PhantomData }
}
fn ptr<'c>(p: P) -> PointerValue<'c> {
    PointerValue { p, _m: PhantomData }
}

macro_rules! named {
    ($($n:ident),*) => { $( impl<'c> $n<'c> {
        pub fn get_name(&self) -> &CStr {
            let mut l = 0;
            unsafe { CStr::from_ptr(LLVMGetValueName2(self.p, &mut l)) }
        }
        pub fn set_name(&self, n: &str) {
            unsafe { LLVMSetValueName2(self.p, n.as_ptr() as *const c_char, n.len()) }
        }
        pub fn print_to_string(self) -> LLVMString {
            LLVMString(take_msg(unsafe { LLVMPrintValueToString(self.p) }))
        }
    } )* };
}
named!(IntValue, PointerValue, ArrayValue, StructValue, InstructionValue, FunctionValue, CallSiteValue, GlobalValue);
macro_rules! valued {
    ($($n:ident),*) => { $( impl<'c> $n<'c> {
        pub fn is_null(self) -> bool {
            unsafe { LLVMIsNull(self.p) != 0 }
        }
        pub fn is_undef(self) -> bool {
            unsafe { LLVMIsUndef(self.p) != 0 }
        }
        pub fn is_poison(self) -> bool {
            unsafe { LLVMIsPoison(self.p) != 0 }
        }
        pub fn as_instruction(self) -> Option<InstructionValue<'c>> {
            opt(unsafe { LLVMIsAInstruction(self.p) }).map(inst)
        }
        pub fn replace_all_uses_with(self, o: $n<'c>) {
            unsafe { LLVMReplaceAllUsesWith(self.p, o.p) }
        }
    } )* };
}
valued!(IntValue, PointerValue, ArrayValue, StructValue);
macro_rules! typed {
    ($($n:ident $v:ident),*) => { $( impl<'c> $n<'c> {
        pub fn get_undef(self) -> $v<'c> {
            $v { p: unsafe { LLVMGetUndef(self.p) }, _m: PhantomData }
        }
        pub fn get_poison(self) -> $v<'c> {
            $v { p: unsafe { LLVMGetPoison(self.p) }, _m: PhantomData }
        }
        pub fn size_of(self) -> Option<IntValue<'c>> {
            Some(int(unsafe { LLVMSizeOf(self.p) }))
        }
        pub fn const_array(self, v: &[$v<'c>]) -> ArrayValue<'c> {
            let w: Vec<P> = v.iter().map(|v| v.p).collect();
            ArrayValue { p: unsafe { LLVMConstArray(self.p, w.as_ptr(), w.len() as c_uint) }, _m: PhantomData }
        }
        pub fn ptr_type(self, a: AddressSpace) -> PointerType<'c> {
            extern "C" { fn LLVMPointerType(t: P, a: c_uint) -> P; }
            PointerType { p: unsafe { LLVMPointerType(self.p, a.0) }, _m: PhantomData }
        }
    } )* };
}
typed!(IntType IntValue, PointerType PointerValue, ArrayType ArrayValue, StructType StructValue);

impl<'c> BasicValueEnum<'c> {
    pub fn get_name(&self) -> &CStr {
        let mut l = 0;
        unsafe { CStr::from_ptr(LLVMGetValueName2(self.ptr(), &mut l)) }
    }
    pub fn set_name(&self, n: &str) {
        unsafe { LLVMSetValueName2(self.ptr(), n.as_ptr() as *const c_char, n.len()) }
    }
    pub fn print_to_string(self) -> LLVMString {
        LLVMString(take_msg(unsafe { LLVMPrintValueToString(self.ptr()) }))
    }
    pub fn as_instruction_value(&self) -> Option<InstructionValue<'c>> {
        opt(unsafe { LLVMIsAInstruction(self.ptr()) }).map(inst)
    }
}
impl fmt::Display for BasicValueEnum<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.print_to_string().0)
    }
}
macro_rules! narrow {
    ($($n:ident $t:ident),*) => { $(
        impl<'c> TryFrom<BasicValueEnum<'c>> for $n<'c> {
            type Error = ();
            fn try_from(v: BasicValueEnum<'c>) -> Result<Self, ()> {
                match v { BasicValueEnum::$n(v) => Ok(v), _ => Err(()) }
            }
        }
        impl<'c> TryFrom<BasicTypeEnum<'c>> for $t<'c> {
            type Error = ();
            fn try_from(v: BasicTypeEnum<'c>) -> Result<Self, ()> {
                match v { BasicTypeEnum::$t(v) => Ok(v), _ => Err(()) }
            }
        }
    )* };
}
narrow!(IntValue IntType, PointerValue PointerType, ArrayValue ArrayType, StructValue StructType);
impl<'c> BasicTypeEnum<'c> {
    pub fn print_to_string(self) -> LLVMString {
        LLVMString(take_msg(unsafe { LLVMPrintTypeToString(self.ptr()) }))
    }
    pub fn size_of(&self) -> Option<IntValue<'c>> {
        Some(int(unsafe { LLVMSizeOf(self.ptr()) }))
    }
}

impl<'c> IntValue<'c> {
    pub fn is_constant_int(self) -> bool {
        unsafe { !LLVMIsAConstantInt(self.p).is_null() }
    }
    /// inkwell asks LLVM only for constants of at most 64 bits
    pub fn get_zero_extended_constant(self) -> Option<u64> {
        if !self.is_constant_int() || self.get_type().get_bit_width() > 64 {
            return None;
        }
        Some(unsafe { LLVMConstIntGetZExtValue(self.p) })
    }
    pub fn get_sign_extended_constant(self) -> Option<i64> {
        if !self.is_constant_int() || self.get_type().get_bit_width() > 64 {
            return None;
        }
        Some(unsafe { LLVMConstIntGetSExtValue(self.p) })
    }
    pub fn const_not(self) -> Self {
        int(unsafe { LLVMConstNot(self.p) })
    }
    pub fn const_neg(self) -> Self {
        int(unsafe { LLVMConstNeg(self.p) })
    }
    pub fn const_add(self, r: Self) -> Self {
        int(unsafe { LLVMConstAdd(self.p, r.p) })
    }
    pub fn const_sub(self, r: Self) -> Self {
        int(unsafe { LLVMConstSub(self.p, r.p) })
    }
    pub fn const_mul(self, r: Self) -> Self {
        int(unsafe { LLVMConstMul(self.p, r.p) })
    }
    pub fn const_xor(self, r: Self) -> Self {
        int(unsafe { LLVMConstXor(self.p, r.p) })
    }
    pub fn const_shl(self, r: Self) -> Self {
        int(unsafe { LLVMConstShl(self.p, r.p) })
    }
    pub fn const_rshr(self, r: Self) -> Self {
        int(unsafe { LLVMConstLShr(self.p, r.p) })
    }
    pub fn const_ashr(self, r: Self) -> Self {
        int(unsafe { LLVMConstAShr(self.p, r.p) })
    }
    pub fn const_truncate(self, t: IntType<'c>) -> Self {
        int(unsafe { LLVMConstTrunc(self.p, t.p) })
    }
    pub fn const_z_ext(self, t: IntType<'c>) -> Self {
        int(unsafe { LLVMConstZExt(self.p, t.p) })
    }
    pub fn const_s_extend(self, t: IntType<'c>) -> Self {
        int(unsafe { LLVMConstSExt(self.p, t.p) })
    }
    pub fn const_bit_cast(self, t: IntType<'c>) -> Self {
        int(unsafe { LLVMConstBitCast(self.p, t.p) })
    }
    pub fn const_to_pointer(self, t: PointerType<'c>) -> PointerValue<'c> {
        ptr(unsafe { LLVMConstIntToPtr(self.p, t.p) })
    }
    pub fn const_int_compare(self, o: IntPredicate, r: Self) -> Self {
        int(unsafe { LLVMConstICmp(o as c_int, self.p, r.p) })
    }
}
impl<'c> IntType<'c> {
    pub fn const_int_arbitrary_precision(self, w: &[u64]) -> IntValue<'c> {
        int(unsafe { LLVMConstIntOfArbitraryPrecision(self.p, w.len() as c_uint, w.as_ptr()) })
    }
}
impl<'c> PointerValue<'c> {
    pub fn is_const(self) -> bool {
        unsafe { LLVMIsConstant(self.p) != 0 }
    }
    pub fn const_to_int(self, t: IntType<'c>) -> IntValue<'c> {
        int(unsafe { LLVMConstPtrToInt(self.p, t.p) })
    }
}
impl<'c> ArrayValue<'c> {
    pub fn is_const(self) -> bool {
        unsafe { LLVMIsConstant(self.p) != 0 }
    }
}
impl<'c> StructType<'c> {
    pub fn get_field_types(self) -> Vec<BasicTypeEnum<'c>> {
        (0..self.count_fields()).map(|i| self.get_field_type_at_index(i).unwrap()).collect()
    }
    pub fn set_body(self, f: &[BasicTypeEnum<'c>], packed: bool) -> bool {
        let v: Vec<P> = f.iter().map(|t| t.ptr()).collect();
        unsafe { LLVMStructSetBody(self.p, v.as_ptr(), v.len() as c_uint, packed as c_int) }
        true
    }
    pub fn const_named_struct(self, f: &[BasicValueEnum<'c>]) -> StructValue<'c> {
        let v: Vec<P> = f.iter().map(|t| t.ptr()).collect();
        StructValue { p: unsafe { LLVMConstNamedStruct(self.p, v.as_ptr(), v.len() as c_uint) }, _m: PhantomData }
    }
}
impl<'c> FunctionType<'c> {
    pub fn count_param_types(self) -> u32 {
        unsafe { LLVMCountParamTypes(self.p) }
    }
    pub fn is_var_arg(self) -> bool {
        unsafe { LLVMIsFunctionVarArg(self.p) != 0 }
    }
    pub fn get_param_types(self) -> Vec<BasicTypeEnum<'c>> {
        let mut v = vec![std::ptr::null_mut(); self.count_param_types() as usize];
        unsafe { LLVMGetParamTypes(self.p, v.as_mut_ptr()) }
        v.into_iter().map(BasicTypeEnum::from_ptr).collect()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(i32)]
pub enum InstructionOpcode {
    Return = 1,
    Br = 2,
    Switch = 3,
    IndirectBr = 4,
    Invoke = 5,
    Unreachable = 7,
    Add = 8,
    FAdd = 9,
    Sub = 10,
    FSub = 11,
    Mul = 12,
    FMul = 13,
    UDiv = 14,
    SDiv = 15,
    FDiv = 16,
    URem = 17,
    SRem = 18,
    FRem = 19,
    Shl = 20,
    LShr = 21,
    AShr = 22,
    And = 23,
    Or = 24,
    Xor = 25,
    Alloca = 26,
    Load = 27,
    Store = 28,
    GetElementPtr = 29,
    Trunc = 30,
    ZExt = 31,
    SExt = 32,
    PtrToInt = 39,
    IntToPtr = 40,
    BitCast = 41,
    ICmp = 42,
    FCmp = 43,
    Phi = 44,
    Call = 45,
    Select = 46,
    ExtractValue = 53,
    InsertValue = 54,
    Freeze = 68,
    Other = 0,
}
impl InstructionOpcode {
    fn of(k: c_int) -> Self {
        use InstructionOpcode::*;
        for o in [
            Return, Br, Switch, IndirectBr, Invoke, Unreachable, Add, FAdd, Sub, FSub, Mul, FMul, UDiv, SDiv, FDiv, URem, SRem,
            FRem, Shl, LShr, AShr, And, Or, Xor, Alloca, Load, Store, GetElementPtr, Trunc, ZExt, SExt, PtrToInt, IntToPtr,
            BitCast, ICmp, FCmp, Phi, Call, Select, ExtractValue, InsertValue, Freeze,
        ] {
            if o as c_int == k {
                return o;
            }
        }
        Other
    }
}
impl<'c> InstructionValue<'c> {
    pub fn get_opcode(self) -> InstructionOpcode {
        InstructionOpcode::of(unsafe { LLVMGetInstructionOpcode(self.p) })
    }
    pub fn erase_from_basic_block(self) {
        unsafe { LLVMInstructionEraseFromParent(self.p) }
    }
    pub fn remove_from_basic_block(self) {
        unsafe { LLVMInstructionRemoveFromParent(self.p) }
    }
    pub fn explicit_clone(&self) -> Self {
        inst(unsafe { LLVMInstructionClone(self.p) })
    }
    pub fn get_previous_instruction(self) -> Option<Self> {
        opt(unsafe { LLVMGetPreviousInstruction(self.p) }).map(inst)
    }
    pub fn is_terminator(self) -> bool {
        unsafe { !LLVMIsATerminatorInst(self.p).is_null() }
    }
    pub fn get_num_operands(self) -> u32 {
        unsafe { LLVMGetNumOperands(self.p) as u32 }
    }
    pub fn get_operand(self, i: u32) -> Option<Either<BasicValueEnum<'c>, BasicBlock<'c>>> {
        if i >= self.get_num_operands() {
            return None;
        }
        unsafe {
            let p = opt(LLVMGetOperand(self.p, i))?;
            Some(if LLVMValueIsBasicBlock(p) != 0 {
                Either::Right(bb(LLVMValueAsBasicBlock(p)))
            } else {
                Either::Left(BasicValueEnum::from_ptr(p))
            })
        }
    }
    pub fn set_operand<V: BasicValue<'c>>(self, i: u32, v: V) -> bool {
        if i >= self.get_num_operands() {
            return false;
        }
        unsafe { LLVMSetOperand(self.p, i, v.vptr()) }
        true
    }
    pub fn get_icmp_predicate(self) -> Option<IntPredicate> {
        if self.get_opcode() != InstructionOpcode::ICmp {
            return None;
        }
        use IntPredicate::*;
        let k = unsafe { LLVMGetICmpPredicate(self.p) };
        [EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE].into_iter().find(|p| *p as c_int == k)
    }
    pub fn set_volatile(self, f: bool) -> Result<(), &'static str> {
        unsafe { LLVMSetVolatile(self.p, f as c_int) }
        Ok(())
    }
    pub fn set_alignment(self, n: u32) -> Result<(), &'static str> {
        unsafe { LLVMSetAlignment(self.p, n) }
        Ok(())
    }
    pub fn get_alignment(self) -> Result<u32, &'static str> {
        Ok(unsafe { LLVMGetAlignment(self.p) })
    }
    pub fn replace_all_uses_with(self, o: &InstructionValue<'c>) {
        unsafe { LLVMReplaceAllUsesWith(self.p, o.p) }
    }
}

impl<'c> BasicBlock<'c> {
    pub fn get_name(&self) -> &CStr {
        unsafe { CStr::from_ptr(LLVMGetBasicBlockName(self.p)) }
    }
    pub fn set_name(&self, n: &str) {
        unsafe { LLVMSetValueName2(LLVMBasicBlockAsValue(self.p), n.as_ptr() as *const c_char, n.len()) }
    }
    pub fn get_next_basic_block(self) -> Option<Self> {
        opt(unsafe { LLVMGetNextBasicBlock(self.p) }).map(bb)
    }
    pub fn get_previous_basic_block(self) -> Option<Self> {
        opt(unsafe { LLVMGetPreviousBasicBlock(self.p) }).map(bb)
    }
    pub fn move_before(self, o: BasicBlock<'c>) -> Result<(), ()> {
        unsafe { LLVMMoveBasicBlockBefore(self.p, o.p) }
        Ok(())
    }
    pub fn move_after(self, o: BasicBlock<'c>) -> Result<(), ()> {
        unsafe { LLVMMoveBasicBlockAfter(self.p, o.p) }
        Ok(())
    }
    /// # Safety
    /// as inkwell
    pub unsafe fn delete(self) -> Result<(), ()> {
        LLVMDeleteBasicBlock(self.p);
        Ok(())
    }
    pub fn remove_from_function(self) -> Result<(), ()> {
        unsafe { LLVMRemoveBasicBlockFromParent(self.p) }
        Ok(())
    }
    pub fn get_instructions(self) -> std::vec::IntoIter<InstructionValue<'c>> {
        let mut v = Vec::new();
        let mut i = self.get_first_instruction();
        while let Some(x) = i {
            v.push(x);
            i = x.get_next_instruction();
        }
        v.into_iter()
    }
    pub fn replace_all_uses_with(self, o: &BasicBlock<'c>) {
        unsafe { LLVMReplaceAllUsesWith(LLVMBasicBlockAsValue(self.p), LLVMBasicBlockAsValue(o.p)) }
    }
}

fn linkage(k: c_int) -> Linkage {
    use Linkage::*;
    [External, AvailableExternally, LinkOnceAny, LinkOnceODR, WeakAny, WeakODR, Appending, Internal, Private]
        .into_iter()
        .find(|l| *l as c_int == k)
        .unwrap_or(External)
}
impl<'c> FunctionValue<'c> {
    pub fn set_linkage(self, l: Linkage) {
        unsafe { LLVMSetLinkage(self.p, l as c_int) }
    }
    pub fn get_linkage(self) -> Linkage {
        linkage(unsafe { LLVMGetLinkage(self.p) })
    }
    pub fn get_params(self) -> Vec<BasicValueEnum<'c>> {
        (0..self.count_params()).map(|i| self.get_nth_param(i).unwrap()).collect()
    }
    pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'c>> {
        self.get_params().into_iter()
    }
    pub fn get_first_param(self) -> Option<BasicValueEnum<'c>> {
        self.get_nth_param(0)
    }
    pub fn get_last_param(self) -> Option<BasicValueEnum<'c>> {
        self.get_params().pop()
    }
    pub fn count_basic_blocks(self) -> u32 {
        unsafe { LLVMCountBasicBlocks(self.p) }
    }
    pub fn get_basic_blocks(self) -> Vec<BasicBlock<'c>> {
        let mut v = Vec::new();
        let mut b = self.get_first_basic_block();
        while let Some(x) = b {
            v.push(x);
            b = x.get_next_basic_block();
        }
        v
    }
    pub fn get_basic_block_iter(self) -> std::vec::IntoIter<BasicBlock<'c>> {
        self.get_basic_blocks().into_iter()
    }
    pub fn verify(self, print: bool) -> bool {
        unsafe { LLVMVerifyFunction(self.p, if print { 1 } else { 2 }) == 0 }
    }
    pub fn get_next_function(self) -> Option<Self> {
        opt(unsafe { LLVMGetNextFunction(self.p) }).map(func)
    }
    pub fn get_previous_function(self) -> Option<Self> {
        opt(unsafe { LLVMGetPreviousFunction(self.p) }).map(func)
    }
    /// # Safety
    /// as inkwell
    pub unsafe fn delete(self) {
        LLVMDeleteFunction(self.p)
    }
    pub fn is_null(self) -> bool {
        false
    }
    pub fn set_call_conventions(self, c: u32) {
        unsafe { LLVMSetFunctionCallConv(self.p, c) }
    }
    pub fn set_section(self, s: Option<&str>) {
        let s = cs(s.unwrap_or(""));
        unsafe { LLVMSetSection(self.p, s.as_ptr()) }
    }
    pub fn replace_all_uses_with(self, o: FunctionValue<'c>) {
        unsafe { LLVMReplaceAllUsesWith(self.p, o.p) }
    }
    pub fn as_global_value(self) -> GlobalValue<'c> {
        GlobalValue { p: self.p, ctx: std::ptr::null_mut(), _m: PhantomData }
    }
    pub fn add_attribute(self, l: attributes::AttributeLoc, a: attributes::Attribute) {
        unsafe { LLVMAddAttributeAtIndex(self.p, l.idx(), a.p) }
    }
    pub fn remove_enum_attribute(self, l: attributes::AttributeLoc, k: u32) {
        unsafe { LLVMRemoveEnumAttributeAtIndex(self.p, l.idx(), k) }
    }
    pub fn get_enum_attribute(self, l: attributes::AttributeLoc, k: u32) -> Option<attributes::Attribute> {
        opt(unsafe { LLVMGetEnumAttributeAtIndex(self.p, l.idx(), k) }).map(|p| attributes::Attribute { p })
    }
}
pub mod attributes {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Attribute {
        pub(crate) p: P,
    }
    impl Attribute {
        pub fn get_named_enum_kind_id(n: &str) -> u32 {
            unsafe { super::LLVMGetEnumAttributeKindForName(n.as_ptr() as *const c_char, n.len()) }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn idx(self) -> c_uint {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(i) => i + 1,
                AttributeLoc::Function => u32::MAX,
            }
        }
    }
}
impl<'c> CallSiteValue<'c> {
    pub fn set_tail_call(self, f: bool) {
        unsafe { LLVMSetTailCall(self.p, f as c_int) }
    }
    pub fn is_tail_call(self) -> bool {
        unsafe { LLVMIsTailCall(self.p) != 0 }
    }
    pub fn get_called_fn_value(self) -> FunctionValue<'c> {
        func(unsafe { LLVMGetCalledValue(self.p) })
    }
    pub fn count_arguments(self) -> u32 {
        unsafe { LLVMGetNumArgOperands(self.p) }
    }
    pub fn set_call_convention(self, c: u32) {
        unsafe { LLVMSetInstructionCallConv(self.p, c) }
    }
    pub fn add_attribute(self, l: attributes::AttributeLoc, a: attributes::Attribute) {
        unsafe { LLVMAddCallSiteAttribute(self.p, l.idx(), a.p) }
    }
}
impl<'c> GlobalValue<'c> {
    pub fn get_linkage(self) -> Linkage {
        linkage(unsafe { LLVMGetLinkage(self.p) })
    }
    pub fn is_constant(self) -> bool {
        unsafe { LLVMIsGlobalConstant(self.p) != 0 }
    }
    pub fn get_initializer(self) -> Option<BasicValueEnum<'c>> {
        opt(unsafe { LLVMGetInitializer(self.p) }).map(BasicValueEnum::from_ptr)
    }
    pub fn set_unnamed_addr(self, f: bool) {
        unsafe { LLVMSetUnnamedAddress(self.p, if f { 2 } else { 0 }) }
    }
    pub fn set_alignment(self, n: u32) {
        unsafe { LLVMSetAlignment(self.p, n) }
    }
    pub fn get_alignment(self) -> u32 {
        unsafe { LLVMGetAlignment(self.p) }
    }
    pub fn set_visibility(self, v: GlobalVisibility) {
        unsafe { LLVMSetVisibility(self.p, v as c_int) }
    }
    pub fn set_section(self, s: Option<&str>) {
        let s = cs(s.unwrap_or(""));
        unsafe { LLVMSetSection(self.p, s.as_ptr()) }
    }
    pub fn set_externally_initialized(self, f: bool) {
        unsafe { LLVMSetExternallyInitialized(self.p, f as c_int) }
    }
    pub fn get_next_global(self) -> Option<Self> {
        opt(unsafe { LLVMGetNextGlobal(self.p) }).map(|p| GlobalValue { p, ctx: self.ctx, _m: PhantomData })
    }
    pub fn get_value_type(self) -> BasicTypeEnum<'c> {
        BasicTypeEnum::from_ptr(unsafe { LLVMGlobalGetValueType(self.p) })
    }
    /// # Safety
    /// as inkwell
    pub unsafe fn delete(self) {
        LLVMDeleteGlobal(self.p)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum GlobalVisibility {
    Default = 0,
    Hidden = 1,
    Protected = 2,
}

impl<'c> Module<'c> {
    pub fn get_first_function(&self) -> Option<FunctionValue<'c>> {
        opt(unsafe { LLVMGetFirstFunction(self.p) }).map(func)
    }
    pub fn get_last_function(&self) -> Option<FunctionValue<'c>> {
        opt(unsafe { LLVMGetLastFunction(self.p) }).map(func)
    }
    pub fn get_functions(&self) -> std::vec::IntoIter<FunctionValue<'c>> {
        let mut v = Vec::new();
        let mut f = self.get_first_function();
        while let Some(x) = f {
            v.push(x);
            f = x.get_next_function();
        }
        v.into_iter()
    }
    pub fn get_first_global(&self) -> Option<GlobalValue<'c>> {
        opt(unsafe { LLVMGetFirstGlobal(self.p) }).map(|p| GlobalValue { p, ctx: self.ctx, _m: PhantomData })
    }
    pub fn get_last_global(&self) -> Option<GlobalValue<'c>> {
        opt(unsafe { LLVMGetLastGlobal(self.p) }).map(|p| GlobalValue { p, ctx: self.ctx, _m: PhantomData })
    }
    pub fn get_globals(&self) -> std::vec::IntoIter<GlobalValue<'c>> {
        let mut v = Vec::new();
        let mut g = self.get_first_global();
        while let Some(x) = g {
            v.push(x);
            g = x.get_next_global();
        }
        v.into_iter()
    }
    pub fn get_name(&self) -> &CStr {
        let mut l = 0;
        unsafe { CStr::from_ptr(LLVMGetModuleIdentifier(self.p, &mut l)) }
    }
    pub fn set_name(&self, n: &str) {
        unsafe { LLVMSetModuleIdentifier(self.p, n.as_ptr() as *const c_char, n.len()) }
    }
    pub fn set_source_file_name(&self, n: &str) {
        unsafe { LLVMSetSourceFileName(self.p, n.as_ptr() as *const c_char, n.len()) }
    }
    pub fn set_triple(&self, t: &targets::TargetTriple) {
        unsafe { LLVMSetTarget(self.p, t.0.as_ptr()) }
    }
    pub fn print_to_stderr(&self) {
        unsafe { LLVMDumpModule(self.p) }
    }
    pub fn write_bitcode_to_path(&self, p: impl AsRef<std::path::Path>) -> bool {
        let n = cs(p.as_ref().to_str().unwrap());
        unsafe { LLVMWriteBitcodeToFile(self.p, n.as_ptr()) == 0 }
    }
    pub fn write_bitcode_to_memory(&self) -> MemoryBuffer {
        MemoryBuffer { p: unsafe { LLVMWriteBitcodeToMemoryBuffer(self.p) } }
    }
    pub fn strip_debug_info(&self) -> bool {
        unsafe { LLVMStripModuleDebugInfo(self.p) != 0 }
    }
}
impl Clone for Module<'_> {
    fn clone(&self) -> Self {
        Module::wrap(unsafe { LLVMCloneModule(self.p) }, self.ctx)
    }
}
impl context::Context {
    pub fn const_struct<'c>(&'c self, f: &[BasicValueEnum<'c>], packed: bool) -> StructValue<'c> {
        let v: Vec<P> = f.iter().map(|t| t.ptr()).collect();
        let p = unsafe { LLVMConstStructInContext(self.p, v.as_ptr(), v.len() as c_uint, packed as c_int) };
        StructValue { p, _m: PhantomData }
    }
    pub fn opaque_struct_type(&self, n: &str) -> StructType<'_> {
        let n = cs(n);
        StructType { p: unsafe { LLVMStructCreateNamed(self.p, n.as_ptr()) }, _m: PhantomData }
    }
    pub fn prepend_basic_block<'c>(&'c self, b: BasicBlock<'c>, n: &str) -> BasicBlock<'c> {
        let n = cs(n);
        bb(unsafe { LLVMInsertBasicBlockInContext(self.p, b.p, n.as_ptr()) })
    }
    pub fn insert_basic_block_after<'c>(&'c self, b: BasicBlock<'c>, n: &str) -> BasicBlock<'c> {
        match b.get_next_basic_block() {
            Some(x) => self.prepend_basic_block(x, n),
            None => self.append_basic_block(b.get_parent().unwrap(), n),
        }
    }
    pub fn create_enum_attribute(&self, k: u32, v: u64) -> attributes::Attribute {
        attributes::Attribute { p: unsafe { LLVMCreateEnumAttribute(self.p, k, v) } }
    }
    pub fn create_string_attribute(&self, k: &str, v: &str) -> attributes::Attribute {
        let p = unsafe {
            LLVMCreateStringAttribute(self.p, k.as_ptr() as *const c_char, k.len() as c_uint, v.as_ptr() as *const c_char, v.len() as c_uint)
        };
        attributes::Attribute { p }
    }
}

type R<T> = Result<T, BuilderError>;
macro_rules! bin {
    ($($m:ident => $f:ident),* $(,)?) => { impl<'c> Builder<'c> { $(
        pub fn $m(&self, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(int(unsafe { $f(self.p, l.p, r.p, n.as_ptr()) }))
        } )* } };
}
bin! {
    build_int_nsw_add => LLVMBuildNSWAdd, build_int_nuw_add => LLVMBuildNUWAdd, build_int_nsw_sub => LLVMBuildNSWSub,
    build_int_nuw_sub => LLVMBuildNUWSub, build_int_nsw_mul => LLVMBuildNSWMul, build_int_nuw_mul => LLVMBuildNUWMul,
    build_int_exact_signed_div => LLVMBuildExactSDiv, build_int_exact_unsigned_div => LLVMBuildExactUDiv,
}
macro_rules! conv {
    ($($m:ident => $f:ident),* $(,)?) => { impl<'c> Builder<'c> { $(
        pub fn $m(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(int(unsafe { $f(self.p, v.p, t.p, n.as_ptr()) }))
        } )* } };
}
conv! {
    build_int_z_extend_or_bit_cast => LLVMBuildZExtOrBitCast, build_int_s_extend_or_bit_cast => LLVMBuildSExtOrBitCast,
    build_int_truncate_or_bit_cast => LLVMBuildTruncOrBitCast,
}
impl<'c> Builder<'c> {
    pub fn clear_insertion_position(&self) {
        unsafe { LLVMClearInsertionPosition(self.p) }
    }
    pub fn insert_instruction(&self, i: &InstructionValue<'c>, n: Option<&str>) {
        let n = cs(n.unwrap_or(""));
        unsafe { LLVMInsertIntoBuilderWithName(self.p, i.p, n.as_ptr()) }
    }
    pub fn build_array_alloca<T: BasicType<'c>>(&self, t: T, size: IntValue<'c>, n: &str) -> R<PointerValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(ptr(unsafe { LLVMBuildArrayAlloca(self.p, t.as_basic_type_enum().ptr(), size.p, n.as_ptr()) }))
    }
    pub fn build_memcpy(&self, d: PointerValue<'c>, da: u32, s: PointerValue<'c>, sa: u32, n: IntValue<'c>) -> R<PointerValue<'c>> {
        self.chk()?;
        Ok(ptr(unsafe { LLVMBuildMemCpy(self.p, d.p, da, s.p, sa, n.p) }))
    }
    pub fn build_memmove(&self, d: PointerValue<'c>, da: u32, s: PointerValue<'c>, sa: u32, n: IntValue<'c>) -> R<PointerValue<'c>> {
        self.chk()?;
        Ok(ptr(unsafe { LLVMBuildMemMove(self.p, d.p, da, s.p, sa, n.p) }))
    }
    pub fn build_memset(&self, d: PointerValue<'c>, a: u32, v: IntValue<'c>, n: IntValue<'c>) -> R<PointerValue<'c>> {
        self.chk()?;
        Ok(ptr(unsafe { LLVMBuildMemSet(self.p, d.p, v.p, n.p, a) }))
    }
    pub fn build_bit_cast<T: BasicType<'c>, V: BasicValue<'c>>(&self, v: V, t: T, n: &str) -> R<BasicValueEnum<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildBitCast(self.p, v.vptr(), t.as_basic_type_enum().ptr(), n.as_ptr()) }))
    }
    pub fn build_pointer_cast(&self, v: PointerValue<'c>, t: PointerType<'c>, n: &str) -> R<PointerValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(ptr(unsafe { LLVMBuildBitCast(self.p, v.p, t.p, n.as_ptr()) }))
    }
    pub fn build_int_cast_sign_flag(&self, v: IntValue<'c>, t: IntType<'c>, signed: bool, n: &str) -> R<IntValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(int(unsafe { LLVMBuildIntCast2(self.p, v.p, t.p, signed as c_int, n.as_ptr()) }))
    }
    pub fn build_extract_value<V: BasicValue<'c>>(&self, v: V, i: u32, n: &str) -> R<BasicValueEnum<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildExtractValue(self.p, v.vptr(), i, n.as_ptr()) }))
    }
    pub fn build_insert_value<V: BasicValue<'c>, E: BasicValue<'c>>(&self, v: V, e: E, i: u32, n: &str) -> R<BasicValueEnum<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildInsertValue(self.p, v.vptr(), e.vptr(), i, n.as_ptr()) }))
    }
    pub fn build_aggregate_return(&self, v: &[BasicValueEnum<'c>]) -> R<InstructionValue<'c>> {
        self.chk()?;
        let w: Vec<P> = v.iter().map(|v| v.ptr()).collect();
        Ok(inst(unsafe { LLVMBuildAggregateRet(self.p, w.as_ptr(), w.len() as c_uint) }))
    }
    /// # Safety
    /// as inkwell
    pub unsafe fn build_global_string(&self, s: &str, n: &str) -> R<GlobalValue<'c>> {
        self.chk()?;
        let (s, n) = (cs(s), cs(n));
        Ok(GlobalValue { p: LLVMBuildGlobalString(self.p, s.as_ptr(), n.as_ptr()), ctx: std::ptr::null_mut(), _m: PhantomData })
    }
    pub fn build_global_string_ptr(&self, s: &str, n: &str) -> R<GlobalValue<'c>> {
        self.chk()?;
        let (s, n) = (cs(s), cs(n));
        Ok(GlobalValue { p: unsafe { LLVMBuildGlobalStringPtr(self.p, s.as_ptr(), n.as_ptr()) }, ctx: std::ptr::null_mut(), _m: PhantomData })
    }
    pub fn build_indirect_call(&self, t: FunctionType<'c>, f: PointerValue<'c>, args: &[BasicMetadataValueEnum<'c>], n: &str) -> R<CallSiteValue<'c>> {
        self.chk()?;
        let n = cs(n);
        let v: Vec<P> = args.iter().map(|a| a.ptr()).collect();
        Ok(CallSiteValue {
            p: unsafe { LLVMBuildCall2(self.p, t.p, f.p, v.as_ptr(), v.len() as c_uint, n.as_ptr()) },
            _m: PhantomData,
        })
    }
    pub fn build_is_null(&self, v: PointerValue<'c>, n: &str) -> R<IntValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(int(unsafe { LLVMBuildIsNull(self.p, v.p, n.as_ptr()) }))
    }
    pub fn build_is_not_null(&self, v: PointerValue<'c>, n: &str) -> R<IntValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(int(unsafe { LLVMBuildIsNotNull(self.p, v.p, n.as_ptr()) }))
    }
    pub fn build_ptr_diff<T: BasicType<'c>>(&self, t: T, l: PointerValue<'c>, r: PointerValue<'c>, n: &str) -> R<IntValue<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(int(unsafe { LLVMBuildPtrDiff2(self.p, t.as_basic_type_enum().ptr(), l.p, r.p, n.as_ptr()) }))
    }
    pub fn build_freeze<V: BasicValue<'c>>(&self, v: V, n: &str) -> R<BasicValueEnum<'c>> {
        self.chk()?;
        let n = cs(n);
        Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildFreeze(self.p, v.vptr(), n.as_ptr()) }))
    }
}
impl<'c> PhiValue<'c> {
    pub fn count_incoming(self) -> u32 {
        unsafe { LLVMCountIncoming(self.p) }
    }
    pub fn get_incoming(self, i: u32) -> Option<(BasicValueEnum<'c>, BasicBlock<'c>)> {
        if i >= self.count_incoming() {
            return None;
        }
        unsafe { Some((BasicValueEnum::from_ptr(LLVMGetIncomingValue(self.p, i)), bb(LLVMGetIncomingBlock(self.p, i)))) }
    }
    pub fn as_instruction(self) -> InstructionValue<'c> {
        inst(unsafe { LLVMIsAPHINode(self.p) })
    }
}
