//! Minimal stand-in for the `inkwell` crate: the API subset DTVM_SolSDK uses, implemented
//! directly over the LLVM-C API of the system libLLVM-16 (the LLVM version the project targets).
#![allow(clippy::all)]
#![allow(non_snake_case)]

use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::fmt;
use std::marker::PhantomData;

pub type P = *mut c_void;

#[rustfmt::skip]
pub(crate) mod ffi {
    use super::*;
    extern "C" {
        pub fn LLVMContextCreate() -> P;
        pub fn LLVMContextDispose(c: P);
        pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: P) -> P;
        pub fn LLVMDisposeModule(m: P);
        pub fn LLVMCreateBuilderInContext(c: P) -> P;
        pub fn LLVMDisposeBuilder(b: P);
        pub fn LLVMIntTypeInContext(c: P, n: c_uint) -> P;
        pub fn LLVMVoidTypeInContext(c: P) -> P;
        pub fn LLVMPointerTypeInContext(c: P, a: c_uint) -> P;
        pub fn LLVMStructTypeInContext(c: P, e: *const P, n: c_uint, packed: c_int) -> P;
        pub fn LLVMConstStringInContext(c: P, s: *const c_char, l: c_uint, dontnull: c_int) -> P;
        pub fn LLVMAppendBasicBlockInContext(c: P, f: P, n: *const c_char) -> P;
        pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
        pub fn LLVMArrayType(t: P, n: c_uint) -> P;
        pub fn LLVMGetArrayLength(t: P) -> c_uint;
        pub fn LLVMGetElementType(t: P) -> P;
        pub fn LLVMFunctionType(r: P, p: *const P, n: c_uint, va: c_int) -> P;
        pub fn LLVMGetReturnType(t: P) -> P;
        pub fn LLVMGetTypeKind(t: P) -> c_int;
        pub fn LLVMTypeIsSized(t: P) -> c_int;
        pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
        pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
        pub fn LLVMConstInt(t: P, v: c_ulonglong, s: c_int) -> P;
        pub fn LLVMConstIntOfStringAndSize(t: P, s: *const c_char, l: c_uint, r: u8) -> P;
        pub fn LLVMConstNull(t: P) -> P;
        pub fn LLVMConstAllOnes(t: P) -> P;
        pub fn LLVMTypeOf(v: P) -> P;
        pub fn LLVMIsConstant(v: P) -> c_int;
        pub fn LLVMPrintTypeToString(t: P) -> *mut c_char;
        pub fn LLVMPrintValueToString(t: P) -> *mut c_char;
        pub fn LLVMDisposeMessage(m: *mut c_char);
        pub fn LLVMGlobalGetValueType(v: P) -> P;
        pub fn LLVMGetParam(f: P, i: c_uint) -> P;
        pub fn LLVMCountParams(f: P) -> c_uint;
        pub fn LLVMAddFunction(m: P, n: *const c_char, t: P) -> P;
        pub fn LLVMGetNamedFunction(m: P, n: *const c_char) -> P;
        pub fn LLVMAddGlobal(m: P, t: P, n: *const c_char) -> P;
        pub fn LLVMGetNamedGlobal(m: P, n: *const c_char) -> P;
        pub fn LLVMSetInitializer(g: P, v: P);
        pub fn LLVMSetLinkage(g: P, l: c_int);
        pub fn LLVMSetGlobalConstant(g: P, c: c_int);
        pub fn LLVMVerifyModule(m: P, a: c_int, msg: *mut *mut c_char) -> c_int;
        pub fn LLVMPrintModuleToFile(m: P, f: *const c_char, e: *mut *mut c_char) -> c_int;
        pub fn LLVMPrintModuleToString(m: P) -> *mut c_char;
        pub fn LLVMLinkModules2(d: P, s: P) -> c_int;
        pub fn LLVMParseBitcodeInContext2(c: P, b: P, m: *mut P) -> c_int;
        pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, l: usize, n: *const c_char) -> P;
        pub fn LLVMDisposeMemoryBuffer(b: P);
        pub fn LLVMGetBufferStart(b: P) -> *const c_char;
        pub fn LLVMGetBufferSize(b: P) -> usize;
        pub fn LLVMPositionBuilderAtEnd(b: P, bb: P);
        pub fn LLVMGetInsertBlock(b: P) -> P;
        pub fn LLVMGetBasicBlockTerminator(b: P) -> P;
        pub fn LLVMPositionBuilderBefore(b: P, i: P);
        pub fn LLVMGetFirstInstruction(b: P) -> P;
        pub fn LLVMGetLastInstruction(b: P) -> P;
        pub fn LLVMGetNextInstruction(i: P) -> P;
        pub fn LLVMGetFirstBasicBlock(f: P) -> P;
        pub fn LLVMGetLastBasicBlock(f: P) -> P;
        pub fn LLVMGetInstructionParent(i: P) -> P;
        pub fn LLVMGetBasicBlockParent(b: P) -> P;
        pub fn LLVMBuildAlloca(b: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildStore(b: P, v: P, p: P) -> P;
        pub fn LLVMBuildLoad2(b: P, t: P, p: P, n: *const c_char) -> P;
        pub fn LLVMBuildCall2(b: P, t: P, f: P, a: *const P, n: c_uint, nm: *const c_char) -> P;
        pub fn LLVMBuildAdd(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildSub(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildMul(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildUDiv(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildSDiv(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildURem(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildSRem(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildAnd(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildOr(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildXor(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildShl(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildLShr(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildAShr(b: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildNot(b: P, v: P, n: *const c_char) -> P;
        pub fn LLVMBuildNeg(b: P, v: P, n: *const c_char) -> P;
        pub fn LLVMBuildICmp(b: P, p: c_int, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildSelect(b: P, c: P, l: P, r: P, n: *const c_char) -> P;
        pub fn LLVMBuildZExt(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildSExt(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildTrunc(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildIntCast(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildPtrToInt(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildIntToPtr(b: P, v: P, t: P, n: *const c_char) -> P;
        pub fn LLVMBuildCondBr(b: P, c: P, t: P, e: P) -> P;
        pub fn LLVMBuildBr(b: P, d: P) -> P;
        pub fn LLVMBuildSwitch(b: P, v: P, e: P, n: c_uint) -> P;
        pub fn LLVMAddCase(s: P, v: P, b: P);
        pub fn LLVMBuildStructGEP2(b: P, t: P, p: P, i: c_uint, n: *const c_char) -> P;
        pub fn LLVMBuildInBoundsGEP2(b: P, t: P, p: P, i: *const P, k: c_uint, n: *const c_char) -> P;
        pub fn LLVMBuildGEP2(b: P, t: P, p: P, i: *const P, k: c_uint, n: *const c_char) -> P;
        pub fn LLVMBuildRetVoid(b: P) -> P;
        pub fn LLVMBuildRet(b: P, v: P) -> P;
        pub fn LLVMBuildUnreachable(b: P) -> P;
        pub fn LLVMBuildPhi(b: P, t: P, n: *const c_char) -> P;
        pub fn LLVMAddIncoming(p: P, v: *const P, b: *const P, n: c_uint);

        pub fn LLVMCreatePassManager() -> P;
        pub fn LLVMDisposePassManager(p: P);
        pub fn LLVMRunPassManager(p: P, m: P) -> c_int;
        pub fn LLVMPassManagerBuilderCreate() -> P;
        pub fn LLVMPassManagerBuilderDispose(p: P);
        pub fn LLVMPassManagerBuilderSetOptLevel(p: P, l: c_uint);
        pub fn LLVMPassManagerBuilderSetSizeLevel(p: P, l: c_uint);
        pub fn LLVMPassManagerBuilderUseInlinerWithThreshold(p: P, l: c_uint);
        pub fn LLVMPassManagerBuilderPopulateModulePassManager(p: P, m: P);

        pub fn LLVMInitializeWebAssemblyTarget();
        pub fn LLVMInitializeWebAssemblyTargetInfo();
        pub fn LLVMInitializeWebAssemblyTargetMC();
        pub fn LLVMInitializeWebAssemblyAsmPrinter();
        pub fn LLVMInitializeWebAssemblyAsmParser();
        pub fn LLVMGetTargetFromName(n: *const c_char) -> P;
        pub fn LLVMCreateTargetMachine(t: P, tr: *const c_char, cpu: *const c_char, f: *const c_char, l: c_int, r: c_int, c: c_int) -> P;
        pub fn LLVMDisposeTargetMachine(t: P);
        pub fn LLVMTargetMachineEmitToMemoryBuffer(t: P, m: P, k: c_int, e: *mut *mut c_char, out: *mut P) -> c_int;
    }
}
use ffi::*;

mod ext;
pub use ext::{attributes, GlobalVisibility};

fn cs(s: &str) -> CString {
    CString::new(s.as_bytes().iter().copied().take_while(|b| *b != 0).collect::<Vec<u8>>()).unwrap()
}
fn take_msg(p: *mut c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe {
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    #[default]
    Default = 2,
    Aggressive = 3,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IntPredicate {
    EQ = 32,
    NE = 33,
    UGT = 34,
    UGE = 35,
    ULT = 36,
    ULE = 37,
    SGT = 38,
    SGE = 39,
    SLT = 40,
    SLE = 41,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace {
    fn from(v: u16) -> Self {
        AddressSpace(v as u32)
    }
}

pub mod support {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl fmt::Display for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for LLVMString {}
}
use support::LLVMString;

pub mod memory_buffer {
    use super::*;
    #[derive(Debug)]
    pub struct MemoryBuffer {
        pub(crate) p: P,
    }
    impl MemoryBuffer {
        pub fn create_from_memory_range(input: &[u8], name: &str) -> Self {
            let n = cs(name);
            unsafe {
                MemoryBuffer {
                    p: LLVMCreateMemoryBufferWithMemoryRangeCopy(input.as_ptr() as *const c_char, input.len(), n.as_ptr()),
                }
            }
        }
        pub fn create_from_memory_range_copy(input: &[u8], name: &str) -> Self {
            Self::create_from_memory_range(input, name)
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.p) as *const u8, LLVMGetBufferSize(self.p)) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.p) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.p) }
        }
    }
}
use memory_buffer::MemoryBuffer;

pub mod context {
    use super::*;
    #[derive(Debug)]
    pub struct Context {
        pub(crate) p: P,
    }
    pub trait AsContextRef<'c> {
        fn cptr(&self) -> P;
    }
    impl<'c> AsContextRef<'c> for &'c Context {
        fn cptr(&self) -> P {
            self.p
        }
    }
    impl Context {
        pub fn create() -> Self {
            unsafe { Context { p: LLVMContextCreate() } }
        }
        pub fn create_module(&self, name: &str) -> module::Module<'_> {
            let n = cs(name);
            unsafe { module::Module::wrap(LLVMModuleCreateWithNameInContext(n.as_ptr(), self.p), self.p) }
        }
        pub fn create_builder(&self) -> builder::Builder<'_> {
            unsafe { builder::Builder { p: LLVMCreateBuilderInContext(self.p), _m: PhantomData } }
        }
        pub fn custom_width_int_type(&self, bits: u32) -> types::IntType<'_> {
            unsafe { types::IntType { p: LLVMIntTypeInContext(self.p, bits), _m: PhantomData } }
        }
        pub fn bool_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(1)
        }
        pub fn i8_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(8)
        }
        pub fn i16_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(16)
        }
        pub fn i32_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(32)
        }
        pub fn i64_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(64)
        }
        pub fn i128_type(&self) -> types::IntType<'_> {
            self.custom_width_int_type(128)
        }
        pub fn void_type(&self) -> types::VoidType<'_> {
            unsafe { types::VoidType { p: LLVMVoidTypeInContext(self.p), _m: PhantomData } }
        }
        pub fn ptr_type(&self, a: AddressSpace) -> types::PointerType<'_> {
            unsafe { types::PointerType { p: LLVMPointerTypeInContext(self.p, a.0), _m: PhantomData } }
        }
        pub fn struct_type<'c>(&'c self, f: &[types::BasicTypeEnum<'c>], packed: bool) -> types::StructType<'c> {
            let v: Vec<P> = f.iter().map(|t| t.ptr()).collect();
            unsafe {
                types::StructType {
                    p: LLVMStructTypeInContext(self.p, v.as_ptr(), v.len() as c_uint, packed as c_int),
                    _m: PhantomData,
                }
            }
        }
        pub fn const_string(&self, s: &[u8], null_terminated: bool) -> values::ArrayValue<'_> {
            unsafe {
                values::ArrayValue {
                    p: LLVMConstStringInContext(self.p, s.as_ptr() as *const c_char, s.len() as c_uint, !null_terminated as c_int),
                    _m: PhantomData,
                }
            }
        }
        pub fn append_basic_block<'c>(&'c self, f: values::FunctionValue<'c>, name: &str) -> basic_block::BasicBlock<'c> {
            let n = cs(name);
            unsafe {
                basic_block::BasicBlock { p: LLVMAppendBasicBlockInContext(self.p, f.p, n.as_ptr()), _m: PhantomData }
            }
        }
    }
    impl Drop for Context {
        fn drop(&mut self) {
            unsafe { LLVMContextDispose(self.p) }
        }
    }
}

pub mod basic_block {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'c> {
        pub(crate) p: P,
        pub(crate) _m: PhantomData<&'c ()>,
    }
    impl<'c> BasicBlock<'c> {
        pub fn get_terminator(self) -> Option<values::InstructionValue<'c>> {
            let p = unsafe { LLVMGetBasicBlockTerminator(self.p) };
            if p.is_null() {
                None
            } else {
                Some(values::InstructionValue { p, _m: PhantomData })
            }
        }
        pub fn get_first_instruction(self) -> Option<values::InstructionValue<'c>> {
            let p = unsafe { LLVMGetFirstInstruction(self.p) };
            if p.is_null() {
                None
            } else {
                Some(values::InstructionValue { p, _m: PhantomData })
            }
        }
        pub fn get_last_instruction(self) -> Option<values::InstructionValue<'c>> {
            let p = unsafe { LLVMGetLastInstruction(self.p) };
            if p.is_null() {
                None
            } else {
                Some(values::InstructionValue { p, _m: PhantomData })
            }
        }
        pub fn get_parent(self) -> Option<values::FunctionValue<'c>> {
            let p = unsafe { LLVMGetBasicBlockParent(self.p) };
            if p.is_null() {
                None
            } else {
                Some(values::FunctionValue { p, _m: PhantomData })
            }
        }
    }
}

pub mod module {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Linkage {
        External = 0,
        AvailableExternally = 1,
        LinkOnceAny = 2,
        LinkOnceODR = 3,
        WeakAny = 5,
        WeakODR = 6,
        Appending = 7,
        Internal = 8,
        Private = 9,
    }
    #[derive(Debug)]
    pub struct Module<'c> {
        pub(crate) p: P,
        pub(crate) ctx: P,
        _m: PhantomData<&'c ()>,
    }
    impl<'c> Module<'c> {
        pub(crate) fn wrap(p: P, ctx: P) -> Self {
            Module { p, ctx, _m: PhantomData }
        }
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, ctx: impl context::AsContextRef<'c>) -> Result<Self, LLVMString> {
            let mut out: P = std::ptr::null_mut();
            let r = unsafe { LLVMParseBitcodeInContext2(ctx.cptr(), b.p, &mut out) };
            if r != 0 {
                return Err(LLVMString("cannot parse bitcode".into()));
            }
            Ok(Module::wrap(out, ctx.cptr()))
        }
        pub fn link_in_module(&self, other: Module<'c>) -> Result<(), LLVMString> {
            let o = other.p;
            std::mem::forget(other);
            if unsafe { LLVMLinkModules2(self.p, o) } != 0 {
                return Err(LLVMString("link error".into()));
            }
            Ok(())
        }
        pub fn add_function(&self, name: &str, ty: types::FunctionType<'c>, linkage: Option<Linkage>) -> values::FunctionValue<'c> {
            let n = cs(name);
            unsafe {
                let p = LLVMAddFunction(self.p, n.as_ptr(), ty.p);
                if let Some(l) = linkage {
                    LLVMSetLinkage(p, l as c_int);
                }
                values::FunctionValue { p, _m: PhantomData }
            }
        }
        pub fn get_function(&self, name: &str) -> Option<values::FunctionValue<'c>> {
            let n = cs(name);
            let p = unsafe { LLVMGetNamedFunction(self.p, n.as_ptr()) };
            if p.is_null() {
                None
            } else {
                Some(values::FunctionValue { p, _m: PhantomData })
            }
        }
        pub fn add_global<T: types::BasicType<'c>>(&self, ty: T, _a: Option<AddressSpace>, name: &str) -> values::GlobalValue<'c> {
            let n = cs(name);
            unsafe { values::GlobalValue { p: LLVMAddGlobal(self.p, ty.as_basic_type_enum().ptr(), n.as_ptr()), ctx: self.ctx, _m: PhantomData } }
        }
        pub fn get_global(&self, name: &str) -> Option<values::GlobalValue<'c>> {
            let n = cs(name);
            let p = unsafe { LLVMGetNamedGlobal(self.p, n.as_ptr()) };
            if p.is_null() {
                None
            } else {
                Some(values::GlobalValue { p, ctx: self.ctx, _m: PhantomData })
            }
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut m: *mut c_char = std::ptr::null_mut();
            let r = unsafe { LLVMVerifyModule(self.p, 2, &mut m) };
            let s = take_msg(m);
            if r != 0 {
                Err(LLVMString(s))
            } else {
                Ok(())
            }
        }
        pub fn print_to_file(&self, path: impl AsRef<std::path::Path>) -> Result<(), LLVMString> {
            let n = cs(path.as_ref().to_str().unwrap());
            let mut m: *mut c_char = std::ptr::null_mut();
            let r = unsafe { LLVMPrintModuleToFile(self.p, n.as_ptr(), &mut m) };
            if r != 0 {
                Err(LLVMString(take_msg(m)))
            } else {
                Ok(())
            }
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString(take_msg(unsafe { LLVMPrintModuleToString(self.p) }))
        }
    }
    impl Drop for Module<'_> {
        fn drop(&mut self) {
            unsafe { LLVMDisposeModule(self.p) }
        }
    }
}

pub mod types {
    use super::*;
    use values::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum StringRadix {
        Binary = 2,
        Octal = 8,
        Decimal = 10,
        Hexadecimal = 16,
        Alphanumeric = 36,
    }
    impl StringRadix {
        fn matches(&self, s: &str) -> bool {
            let t = s.strip_prefix(['-', '+']).unwrap_or(s);
            !t.is_empty()
                && t.chars().all(|c| match self {
                    StringRadix::Binary => c == '0' || c == '1',
                    StringRadix::Octal => ('0'..='7').contains(&c),
                    StringRadix::Decimal => c.is_ascii_digit(),
                    StringRadix::Hexadecimal => c.is_ascii_hexdigit(),
                    StringRadix::Alphanumeric => c.is_ascii_alphanumeric(),
                })
        }
    }

    macro_rules! ty {
        ($n:ident) => {
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n<'c> {
                pub(crate) p: P,
                pub(crate) _m: PhantomData<&'c ()>,
            }
            impl fmt::Display for $n<'_> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(&take_msg(unsafe { LLVMPrintTypeToString(self.p) }))
                }
            }
            impl<'c> $n<'c> {
                pub fn print_to_string(self) -> LLVMString {
                    LLVMString(take_msg(unsafe { LLVMPrintTypeToString(self.p) }))
                }
                pub fn fn_type(self, params: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> {
                    let v: Vec<P> = params.iter().map(|t| t.ptr()).collect();
                    unsafe { FunctionType { p: LLVMFunctionType(self.p, v.as_ptr(), v.len() as c_uint, va as c_int), _m: PhantomData } }
                }
            }
        };
    }
    ty!(IntType);
    ty!(PointerType);
    ty!(ArrayType);
    ty!(StructType);
    ty!(VoidType);

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct FunctionType<'c> {
        pub(crate) p: P,
        pub(crate) _m: PhantomData<&'c ()>,
    }
    impl<'c> FunctionType<'c> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'c>> {
            let r = unsafe { LLVMGetReturnType(self.p) };
            if unsafe { LLVMGetTypeKind(r) } == 0 {
                None
            } else {
                Some(BasicTypeEnum::from_ptr(r))
            }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum BasicTypeEnum<'c> {
        ArrayType(ArrayType<'c>),
        IntType(IntType<'c>),
        PointerType(PointerType<'c>),
        StructType(StructType<'c>),
    }
    impl<'c> BasicTypeEnum<'c> {
        pub(crate) fn ptr(&self) -> P {
            match self {
                BasicTypeEnum::ArrayType(t) => t.p,
                BasicTypeEnum::IntType(t) => t.p,
                BasicTypeEnum::PointerType(t) => t.p,
                BasicTypeEnum::StructType(t) => t.p,
            }
        }
        pub(crate) fn from_ptr(p: P) -> Self {
            // LLVMTypeKind in LLVM 16: Void 0, Half 1, Float 2, Double 3, X86FP80 4, FP128 5, PPC 6,
            // Label 7, Integer 8, Function 9, Struct 10, Array 11, Pointer 12
            match unsafe { LLVMGetTypeKind(p) } {
                8 => BasicTypeEnum::IntType(IntType { p, _m: PhantomData }),
                10 => BasicTypeEnum::StructType(StructType { p, _m: PhantomData }),
                11 => BasicTypeEnum::ArrayType(ArrayType { p, _m: PhantomData }),
                12 => BasicTypeEnum::PointerType(PointerType { p, _m: PhantomData }),
                k => panic!("type kind {k} is not a supported basic type"),
            }
        }
        pub fn is_int_type(self) -> bool {
            matches!(self, BasicTypeEnum::IntType(_))
        }
        pub fn is_array_type(self) -> bool {
            matches!(self, BasicTypeEnum::ArrayType(_))
        }
        pub fn is_pointer_type(self) -> bool {
            matches!(self, BasicTypeEnum::PointerType(_))
        }
        pub fn is_struct_type(self) -> bool {
            matches!(self, BasicTypeEnum::StructType(_))
        }
        pub fn into_int_type(self) -> IntType<'c> {
            match self {
                BasicTypeEnum::IntType(t) => t,
                o => panic!("Found {o:?} but expected the IntType variant"),
            }
        }
        pub fn into_array_type(self) -> ArrayType<'c> {
            match self {
                BasicTypeEnum::ArrayType(t) => t,
                o => panic!("Found {o:?} but expected the ArrayType variant"),
            }
        }
        pub fn into_pointer_type(self) -> PointerType<'c> {
            match self {
                BasicTypeEnum::PointerType(t) => t,
                o => panic!("Found {o:?} but expected the PointerType variant"),
            }
        }
        pub fn into_struct_type(self) -> StructType<'c> {
            match self {
                BasicTypeEnum::StructType(t) => t,
                o => panic!("Found {o:?} but expected the StructType variant"),
            }
        }
        pub fn const_zero(self) -> BasicValueEnum<'c> {
            BasicValueEnum::from_ptr(unsafe { LLVMConstNull(self.ptr()) })
        }
    }
    impl fmt::Display for BasicTypeEnum<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&take_msg(unsafe { LLVMPrintTypeToString(self.ptr()) }))
        }
    }

    pub trait BasicType<'c> {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'c>;
        fn fn_type(&self, params: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> {
            let v: Vec<P> = params.iter().map(|t| t.ptr()).collect();
            unsafe {
                FunctionType {
                    p: LLVMFunctionType(self.as_basic_type_enum().ptr(), v.as_ptr(), v.len() as c_uint, va as c_int),
                    _m: PhantomData,
                }
            }
        }
        fn array_type(&self, n: u32) -> ArrayType<'c> {
            unsafe { ArrayType { p: LLVMArrayType(self.as_basic_type_enum().ptr(), n), _m: PhantomData } }
        }
    }
    impl<'c> BasicType<'c> for BasicTypeEnum<'c> {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> {
            *self
        }
    }
    macro_rules! bt {
        ($n:ident) => {
            impl<'c> BasicType<'c> for $n<'c> {
                fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> {
                    BasicTypeEnum::$n(*self)
                }
            }
            impl<'c> From<$n<'c>> for BasicTypeEnum<'c> {
                fn from(t: $n<'c>) -> Self {
                    BasicTypeEnum::$n(t)
                }
            }
            impl<'c> From<$n<'c>> for BasicMetadataTypeEnum<'c> {
                fn from(t: $n<'c>) -> Self {
                    BasicMetadataTypeEnum::$n(t)
                }
            }
        };
    }
    bt!(IntType);
    bt!(PointerType);
    bt!(ArrayType);
    bt!(StructType);

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum BasicMetadataTypeEnum<'c> {
        ArrayType(ArrayType<'c>),
        IntType(IntType<'c>),
        PointerType(PointerType<'c>),
        StructType(StructType<'c>),
    }
    impl<'c> BasicMetadataTypeEnum<'c> {
        pub(crate) fn ptr(&self) -> P {
            match self {
                BasicMetadataTypeEnum::ArrayType(v) => v.p,
                BasicMetadataTypeEnum::IntType(v) => v.p,
                BasicMetadataTypeEnum::PointerType(v) => v.p,
                BasicMetadataTypeEnum::StructType(v) => v.p,
            }
        }
        pub fn is_array_type(self) -> bool {
            matches!(self, BasicMetadataTypeEnum::ArrayType(_))
        }
        pub fn into_array_type(self) -> ArrayType<'c> {
            match self {
                BasicMetadataTypeEnum::ArrayType(v) => v,
                o => panic!("Found {o:?} but expected the ArrayType variant"),
            }
        }
        pub fn is_int_type(self) -> bool {
            matches!(self, BasicMetadataTypeEnum::IntType(_))
        }
        pub fn into_int_type(self) -> IntType<'c> {
            match self {
                BasicMetadataTypeEnum::IntType(v) => v,
                o => panic!("Found {o:?} but expected the IntType variant"),
            }
        }
        pub fn is_pointer_type(self) -> bool {
            matches!(self, BasicMetadataTypeEnum::PointerType(_))
        }
        pub fn into_pointer_type(self) -> PointerType<'c> {
            match self {
                BasicMetadataTypeEnum::PointerType(v) => v,
                o => panic!("Found {o:?} but expected the PointerType variant"),
            }
        }
        pub fn is_struct_type(self) -> bool {
            matches!(self, BasicMetadataTypeEnum::StructType(_))
        }
        pub fn into_struct_type(self) -> StructType<'c> {
            match self {
                BasicMetadataTypeEnum::StructType(v) => v,
                o => panic!("Found {o:?} but expected the StructType variant"),
            }
        }
    }
    impl<'c> From<BasicTypeEnum<'c>> for BasicMetadataTypeEnum<'c> {
        fn from(v: BasicTypeEnum<'c>) -> Self {
            match v {
                BasicTypeEnum::ArrayType(v) => BasicMetadataTypeEnum::ArrayType(v),
                BasicTypeEnum::IntType(v) => BasicMetadataTypeEnum::IntType(v),
                BasicTypeEnum::PointerType(v) => BasicMetadataTypeEnum::PointerType(v),
                BasicTypeEnum::StructType(v) => BasicMetadataTypeEnum::StructType(v),
            }
        }
    }

    impl<'c> IntType<'c> {
        pub fn get_bit_width(self) -> u32 {
            unsafe { LLVMGetIntTypeWidth(self.p) }
        }
        pub fn const_int(self, v: u64, sign: bool) -> IntValue<'c> {
            IntValue { p: unsafe { LLVMConstInt(self.p, v, sign as c_int) }, _m: PhantomData }
        }
        pub fn const_int_from_string(self, s: &str, r: StringRadix) -> Option<IntValue<'c>> {
            if !r.matches(s) {
                return None;
            }
            Some(IntValue {
                p: unsafe { LLVMConstIntOfStringAndSize(self.p, s.as_ptr() as *const c_char, s.len() as c_uint, r as u8) },
                _m: PhantomData,
            })
        }
        pub fn const_all_ones(self) -> IntValue<'c> {
            IntValue { p: unsafe { LLVMConstAllOnes(self.p) }, _m: PhantomData }
        }
        pub fn const_zero(self) -> IntValue<'c> {
            IntValue { p: unsafe { LLVMConstNull(self.p) }, _m: PhantomData }
        }
        pub fn array_type(self, n: u32) -> ArrayType<'c> {
            ArrayType { p: unsafe { LLVMArrayType(self.p, n) }, _m: PhantomData }
        }
    }
    impl<'c> ArrayType<'c> {
        pub fn get_element_type(self) -> BasicTypeEnum<'c> {
            BasicTypeEnum::from_ptr(unsafe { LLVMGetElementType(self.p) })
        }
        pub fn is_sized(self) -> bool {
            unsafe { LLVMTypeIsSized(self.p) != 0 }
        }
        pub fn len(self) -> u32 {
            unsafe { LLVMGetArrayLength(self.p) }
        }
        pub fn const_zero(self) -> ArrayValue<'c> {
            ArrayValue { p: unsafe { LLVMConstNull(self.p) }, _m: PhantomData }
        }
    }
    impl<'c> PointerType<'c> {
        pub fn const_null(self) -> PointerValue<'c> {
            PointerValue { p: unsafe { LLVMConstNull(self.p) }, _m: PhantomData }
        }
        pub fn const_zero(self) -> PointerValue<'c> {
            self.const_null()
        }
    }
    impl<'c> StructType<'c> {
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'c>> {
            if i >= self.count_fields() {
                return None;
            }
            Some(BasicTypeEnum::from_ptr(unsafe { LLVMStructGetTypeAtIndex(self.p, i) }))
        }
        pub fn count_fields(self) -> u32 {
            unsafe { LLVMCountStructElementTypes(self.p) }
        }
        pub fn const_zero(self) -> StructValue<'c> {
            StructValue { p: unsafe { LLVMConstNull(self.p) }, _m: PhantomData }
        }
    }
}

pub mod values {
    use super::*;
    use types::*;

    macro_rules! val {
        ($n:ident) => {
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n<'c> {
                pub(crate) p: P,
                pub(crate) _m: PhantomData<&'c ()>,
            }
            impl fmt::Display for $n<'_> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(&take_msg(unsafe { LLVMPrintValueToString(self.p) }))
                }
            }
        };
    }
    val!(IntValue);
    val!(PointerValue);
    val!(ArrayValue);
    val!(StructValue);
    val!(InstructionValue);
    val!(FunctionValue);
    val!(CallSiteValue);

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct GlobalValue<'c> {
        pub(crate) p: P,
        #[allow(dead_code)]
        pub(crate) ctx: P,
        pub(crate) _m: PhantomData<&'c ()>,
    }

    pub trait AsValueRef {
        fn vptr(&self) -> P;
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum BasicValueEnum<'c> {
        ArrayValue(ArrayValue<'c>),
        IntValue(IntValue<'c>),
        PointerValue(PointerValue<'c>),
        StructValue(StructValue<'c>),
    }
    impl<'c> BasicValueEnum<'c> {
        pub(crate) fn ptr(&self) -> P {
            match self {
                BasicValueEnum::ArrayValue(v) => v.p,
                BasicValueEnum::IntValue(v) => v.p,
                BasicValueEnum::PointerValue(v) => v.p,
                BasicValueEnum::StructValue(v) => v.p,
            }
        }
        pub(crate) fn from_ptr(p: P) -> Self {
            match BasicTypeEnum::from_ptr(unsafe { LLVMTypeOf(p) }) {
                BasicTypeEnum::ArrayType(_) => BasicValueEnum::ArrayValue(ArrayValue { p, _m: PhantomData }),
                BasicTypeEnum::IntType(_) => BasicValueEnum::IntValue(IntValue { p, _m: PhantomData }),
                BasicTypeEnum::PointerType(_) => BasicValueEnum::PointerValue(PointerValue { p, _m: PhantomData }),
                BasicTypeEnum::StructType(_) => BasicValueEnum::StructValue(StructValue { p, _m: PhantomData }),
            }
        }
        pub fn get_type(&self) -> BasicTypeEnum<'c> {
            BasicTypeEnum::from_ptr(unsafe { LLVMTypeOf(self.ptr()) })
        }
        pub fn is_int_value(self) -> bool {
            matches!(self, BasicValueEnum::IntValue(_))
        }
        pub fn is_pointer_value(self) -> bool {
            matches!(self, BasicValueEnum::PointerValue(_))
        }
        pub fn is_array_value(self) -> bool {
            matches!(self, BasicValueEnum::ArrayValue(_))
        }
        pub fn is_struct_value(self) -> bool {
            matches!(self, BasicValueEnum::StructValue(_))
        }
        pub fn into_int_value(self) -> IntValue<'c> {
            match self {
                BasicValueEnum::IntValue(v) => v,
                o => panic!("Found {o:?} but expected the IntValue variant"),
            }
        }
        pub fn into_pointer_value(self) -> PointerValue<'c> {
            match self {
                BasicValueEnum::PointerValue(v) => v,
                o => panic!("Found {o:?} but expected the PointerValue variant"),
            }
        }
        pub fn into_array_value(self) -> ArrayValue<'c> {
            match self {
                BasicValueEnum::ArrayValue(v) => v,
                o => panic!("Found {o:?} but expected the ArrayValue variant"),
            }
        }
        pub fn into_struct_value(self) -> StructValue<'c> {
            match self {
                BasicValueEnum::StructValue(v) => v,
                o => panic!("Found {o:?} but expected the StructValue variant"),
            }
        }
    }
    impl AsValueRef for BasicValueEnum<'_> {
        fn vptr(&self) -> P {
            self.ptr()
        }
    }

    pub trait BasicValue<'c>: AsValueRef {
        fn as_basic_value_enum(&self) -> BasicValueEnum<'c> {
            BasicValueEnum::from_ptr(self.vptr())
        }
    }
    impl<'c> BasicValue<'c> for BasicValueEnum<'c> {}

    macro_rules! bv {
        ($n:ident) => {
            impl AsValueRef for $n<'_> {
                fn vptr(&self) -> P {
                    self.p
                }
            }
            impl<'c> BasicValue<'c> for $n<'c> {}
            impl<'c> From<$n<'c>> for BasicValueEnum<'c> {
                fn from(v: $n<'c>) -> Self {
                    BasicValueEnum::$n(v)
                }
            }
            impl<'c> From<$n<'c>> for BasicMetadataValueEnum<'c> {
                fn from(v: $n<'c>) -> Self {
                    BasicMetadataValueEnum::$n(v)
                }
            }
        };
    }
    bv!(IntValue);
    bv!(PointerValue);
    bv!(ArrayValue);
    bv!(StructValue);

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum BasicMetadataValueEnum<'c> {
        ArrayValue(ArrayValue<'c>),
        IntValue(IntValue<'c>),
        PointerValue(PointerValue<'c>),
        StructValue(StructValue<'c>),
    }
    impl<'c> BasicMetadataValueEnum<'c> {
        pub(crate) fn ptr(&self) -> P {
            match self {
                BasicMetadataValueEnum::ArrayValue(v) => v.p,
                BasicMetadataValueEnum::IntValue(v) => v.p,
                BasicMetadataValueEnum::PointerValue(v) => v.p,
                BasicMetadataValueEnum::StructValue(v) => v.p,
            }
        }
        pub fn is_array_value(self) -> bool {
            matches!(self, BasicMetadataValueEnum::ArrayValue(_))
        }
        pub fn into_array_value(self) -> ArrayValue<'c> {
            match self {
                BasicMetadataValueEnum::ArrayValue(v) => v,
                o => panic!("Found {o:?} but expected the ArrayValue variant"),
            }
        }
        pub fn is_int_value(self) -> bool {
            matches!(self, BasicMetadataValueEnum::IntValue(_))
        }
        pub fn into_int_value(self) -> IntValue<'c> {
            match self {
                BasicMetadataValueEnum::IntValue(v) => v,
                o => panic!("Found {o:?} but expected the IntValue variant"),
            }
        }
        pub fn is_pointer_value(self) -> bool {
            matches!(self, BasicMetadataValueEnum::PointerValue(_))
        }
        pub fn into_pointer_value(self) -> PointerValue<'c> {
            match self {
                BasicMetadataValueEnum::PointerValue(v) => v,
                o => panic!("Found {o:?} but expected the PointerValue variant"),
            }
        }
        pub fn is_struct_value(self) -> bool {
            matches!(self, BasicMetadataValueEnum::StructValue(_))
        }
        pub fn into_struct_value(self) -> StructValue<'c> {
            match self {
                BasicMetadataValueEnum::StructValue(v) => v,
                o => panic!("Found {o:?} but expected the StructValue variant"),
            }
        }
    }
    impl<'c> From<BasicValueEnum<'c>> for BasicMetadataValueEnum<'c> {
        fn from(v: BasicValueEnum<'c>) -> Self {
            match v {
                BasicValueEnum::ArrayValue(v) => BasicMetadataValueEnum::ArrayValue(v),
                BasicValueEnum::IntValue(v) => BasicMetadataValueEnum::IntValue(v),
                BasicValueEnum::PointerValue(v) => BasicMetadataValueEnum::PointerValue(v),
                BasicValueEnum::StructValue(v) => BasicMetadataValueEnum::StructValue(v),
            }
        }
    }

    impl<'c> IntValue<'c> {
        pub fn get_type(self) -> IntType<'c> {
            IntType { p: unsafe { LLVMTypeOf(self.p) }, _m: PhantomData }
        }
        pub fn is_const(self) -> bool {
            unsafe { LLVMIsConstant(self.p) != 0 }
        }
    }
    impl<'c> PointerValue<'c> {
        pub fn get_type(self) -> PointerType<'c> {
            PointerType { p: unsafe { LLVMTypeOf(self.p) }, _m: PhantomData }
        }
    }
    impl<'c> ArrayValue<'c> {
        pub fn get_type(self) -> ArrayType<'c> {
            ArrayType { p: unsafe { LLVMTypeOf(self.p) }, _m: PhantomData }
        }
    }
    impl<'c> StructValue<'c> {
        pub fn get_type(self) -> StructType<'c> {
            StructType { p: unsafe { LLVMTypeOf(self.p) }, _m: PhantomData }
        }
    }
    impl<'c> InstructionValue<'c> {
        pub fn get_next_instruction(self) -> Option<InstructionValue<'c>> {
            let p = unsafe { LLVMGetNextInstruction(self.p) };
            if p.is_null() {
                None
            } else {
                Some(InstructionValue { p, _m: PhantomData })
            }
        }
        pub fn get_parent(self) -> Option<super::basic_block::BasicBlock<'c>> {
            let p = unsafe { LLVMGetInstructionParent(self.p) };
            if p.is_null() {
                None
            } else {
                Some(super::basic_block::BasicBlock { p, _m: PhantomData })
            }
        }
    }
    impl<'c> FunctionValue<'c> {
        pub fn get_first_basic_block(self) -> Option<super::basic_block::BasicBlock<'c>> {
            let p = unsafe { LLVMGetFirstBasicBlock(self.p) };
            if p.is_null() {
                None
            } else {
                Some(super::basic_block::BasicBlock { p, _m: PhantomData })
            }
        }
        pub fn get_last_basic_block(self) -> Option<super::basic_block::BasicBlock<'c>> {
            let p = unsafe { LLVMGetLastBasicBlock(self.p) };
            if p.is_null() {
                None
            } else {
                Some(super::basic_block::BasicBlock { p, _m: PhantomData })
            }
        }
        pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'c>> {
            if i >= self.count_params() {
                return None;
            }
            Some(BasicValueEnum::from_ptr(unsafe { LLVMGetParam(self.p, i) }))
        }
        pub fn count_params(self) -> u32 {
            unsafe { LLVMCountParams(self.p) }
        }
        pub fn get_type(self) -> FunctionType<'c> {
            FunctionType { p: unsafe { LLVMGlobalGetValueType(self.p) }, _m: PhantomData }
        }
    }
    impl<'c> GlobalValue<'c> {
        pub fn set_initializer(self, v: &dyn BasicValue<'c>) {
            unsafe { LLVMSetInitializer(self.p, v.vptr()) }
        }
        pub fn as_pointer_value(self) -> PointerValue<'c> {
            PointerValue { p: self.p, _m: PhantomData }
        }
        pub fn set_constant(self, c: bool) {
            unsafe { LLVMSetGlobalConstant(self.p, c as c_int) }
        }
        pub fn set_linkage(self, l: module::Linkage) {
            unsafe { LLVMSetLinkage(self.p, l as c_int) }
        }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct PhiValue<'c> {
        pub(crate) p: P,
        pub(crate) _m: PhantomData<&'c ()>,
    }
    impl<'c> PhiValue<'c> {
        pub fn add_incoming(&self, inc: &[(&dyn BasicValue<'c>, super::basic_block::BasicBlock<'c>)]) {
            let v: Vec<P> = inc.iter().map(|i| i.0.vptr()).collect();
            let b: Vec<P> = inc.iter().map(|i| i.1.p).collect();
            unsafe { LLVMAddIncoming(self.p, v.as_ptr(), b.as_ptr(), v.len() as c_uint) }
        }
        pub fn as_basic_value(&self) -> BasicValueEnum<'c> {
            BasicValueEnum::from_ptr(self.p)
        }
    }    pub use super::ext::InstructionOpcode;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Either<L, R> {
        Left(L),
        Right(R),
    }
    impl<L, R> Either<L, R> {
        pub fn left(self) -> Option<L> {
            match self {
                Either::Left(l) => Some(l),
                _ => None,
            }
        }
        pub fn right(self) -> Option<R> {
            match self {
                Either::Right(r) => Some(r),
                _ => None,
            }
        }
        pub fn is_left(&self) -> bool {
            matches!(self, Either::Left(_))
        }
        pub fn unwrap_left(self) -> L {
            self.left().unwrap()
        }
    }
    impl<'c> CallSiteValue<'c> {
        pub fn try_as_basic_value(self) -> Either<BasicValueEnum<'c>, InstructionValue<'c>> {
            let t = unsafe { LLVMTypeOf(self.p) };
            if unsafe { LLVMGetTypeKind(t) } == 0 {
                Either::Right(InstructionValue { p: self.p, _m: PhantomData })
            } else {
                Either::Left(BasicValueEnum::from_ptr(self.p))
            }
        }
    }
}

pub mod builder {
    use super::*;
    use basic_block::BasicBlock;
    use types::*;
    use values::*;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct BuilderError(pub String);
    impl fmt::Display for BuilderError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for BuilderError {}
    type R<T> = Result<T, BuilderError>;

    #[derive(Debug)]
    pub struct Builder<'c> {
        pub(crate) p: P,
        pub(crate) _m: PhantomData<&'c ()>,
    }
    impl Drop for Builder<'_> {
        fn drop(&mut self) {
            unsafe { LLVMDisposeBuilder(self.p) }
        }
    }
    macro_rules! bin {
        ($($m:ident => $f:ident),* $(,)?) => { $(
            pub fn $m(&self, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
                self.chk()?;
                let n = cs(n);
                Ok(IntValue { p: unsafe { $f(self.p, l.p, r.p, n.as_ptr()) }, _m: PhantomData })
            }
        )* };
    }
    macro_rules! conv {
        ($($m:ident => $f:ident),* $(,)?) => { $(
            pub fn $m(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
                self.chk()?;
                let n = cs(n);
                Ok(IntValue { p: unsafe { $f(self.p, v.p, t.p, n.as_ptr()) }, _m: PhantomData })
            }
        )* };
    }
    impl<'c> Builder<'c> {
        pub(crate) fn chk(&self) -> R<()> {
            if unsafe { LLVMGetInsertBlock(self.p) }.is_null() {
                return Err(BuilderError("Builder position is not set".into()));
            }
            Ok(())
        }
        pub fn position_at_end(&self, b: BasicBlock<'c>) {
            unsafe { LLVMPositionBuilderAtEnd(self.p, b.p) }
        }
        pub fn position_before(&self, i: &InstructionValue<'c>) {
            unsafe { LLVMPositionBuilderBefore(self.p, i.p) }
        }
        pub fn position_at(&self, b: BasicBlock<'c>, i: &InstructionValue<'c>) {
            let _ = b;
            unsafe { LLVMPositionBuilderBefore(self.p, i.p) }
        }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'c>> {
            let p = unsafe { LLVMGetInsertBlock(self.p) };
            if p.is_null() {
                None
            } else {
                Some(BasicBlock { p, _m: PhantomData })
            }
        }
        pub fn build_alloca<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PointerValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(PointerValue { p: unsafe { LLVMBuildAlloca(self.p, t.as_basic_type_enum().ptr(), n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_store<V: BasicValue<'c>>(&self, ptr: PointerValue<'c>, v: V) -> R<InstructionValue<'c>> {
            self.chk()?;
            Ok(InstructionValue { p: unsafe { LLVMBuildStore(self.p, v.vptr(), ptr.p) }, _m: PhantomData })
        }
        pub fn build_load<T: BasicType<'c>>(&self, t: T, ptr: PointerValue<'c>, n: &str) -> R<BasicValueEnum<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildLoad2(self.p, t.as_basic_type_enum().ptr(), ptr.p, n.as_ptr()) }))
        }
        pub fn build_call(&self, f: FunctionValue<'c>, args: &[BasicMetadataValueEnum<'c>], n: &str) -> R<CallSiteValue<'c>> {
            self.chk()?;
            let n = cs(n);
            let v: Vec<P> = args.iter().map(|a| a.ptr()).collect();
            let t = f.get_type();
            Ok(CallSiteValue {
                p: unsafe { LLVMBuildCall2(self.p, t.p, f.p, v.as_ptr(), v.len() as c_uint, n.as_ptr()) },
                _m: PhantomData,
            })
        }
        bin! {
            build_int_add => LLVMBuildAdd, build_int_sub => LLVMBuildSub, build_int_mul => LLVMBuildMul,
            build_int_unsigned_div => LLVMBuildUDiv, build_int_signed_div => LLVMBuildSDiv,
            build_int_unsigned_rem => LLVMBuildURem, build_int_signed_rem => LLVMBuildSRem,
            build_and => LLVMBuildAnd, build_or => LLVMBuildOr, build_xor => LLVMBuildXor,
            build_left_shift => LLVMBuildShl,
        }
        conv! {
            build_int_z_extend => LLVMBuildZExt, build_int_s_extend => LLVMBuildSExt,
            build_int_truncate => LLVMBuildTrunc, build_int_cast => LLVMBuildIntCast,
        }
        pub fn build_right_shift(&self, l: IntValue<'c>, r: IntValue<'c>, sign: bool, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            let p = unsafe {
                if sign {
                    LLVMBuildAShr(self.p, l.p, r.p, n.as_ptr())
                } else {
                    LLVMBuildLShr(self.p, l.p, r.p, n.as_ptr())
                }
            };
            Ok(IntValue { p, _m: PhantomData })
        }
        pub fn build_not(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(IntValue { p: unsafe { LLVMBuildNot(self.p, v.p, n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_int_neg(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(IntValue { p: unsafe { LLVMBuildNeg(self.p, v.p, n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_int_compare(&self, pr: IntPredicate, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(IntValue { p: unsafe { LLVMBuildICmp(self.p, pr as c_int, l.p, r.p, n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_select<V: BasicValue<'c>>(&self, c: IntValue<'c>, l: V, r: V, n: &str) -> R<BasicValueEnum<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(BasicValueEnum::from_ptr(unsafe { LLVMBuildSelect(self.p, c.p, l.vptr(), r.vptr(), n.as_ptr()) }))
        }
        pub fn build_ptr_to_int(&self, v: PointerValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(IntValue { p: unsafe { LLVMBuildPtrToInt(self.p, v.p, t.p, n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_int_to_ptr(&self, v: IntValue<'c>, t: PointerType<'c>, n: &str) -> R<PointerValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(PointerValue { p: unsafe { LLVMBuildIntToPtr(self.p, v.p, t.p, n.as_ptr()) }, _m: PhantomData })
        }
        pub fn build_conditional_branch(&self, c: IntValue<'c>, t: BasicBlock<'c>, e: BasicBlock<'c>) -> R<InstructionValue<'c>> {
            self.chk()?;
            Ok(InstructionValue { p: unsafe { LLVMBuildCondBr(self.p, c.p, t.p, e.p) }, _m: PhantomData })
        }
        pub fn build_unconditional_branch(&self, d: BasicBlock<'c>) -> R<InstructionValue<'c>> {
            self.chk()?;
            Ok(InstructionValue { p: unsafe { LLVMBuildBr(self.p, d.p) }, _m: PhantomData })
        }
        pub fn build_switch(&self, v: IntValue<'c>, e: BasicBlock<'c>, cases: &[(IntValue<'c>, BasicBlock<'c>)]) -> R<InstructionValue<'c>> {
            self.chk()?;
            unsafe {
                let s = LLVMBuildSwitch(self.p, v.p, e.p, cases.len() as c_uint);
                for (c, b) in cases {
                    LLVMAddCase(s, c.p, b.p);
                }
                Ok(InstructionValue { p: s, _m: PhantomData })
            }
        }
        pub fn build_struct_gep<T: BasicType<'c>>(&self, t: T, ptr: PointerValue<'c>, i: u32, n: &str) -> R<PointerValue<'c>> {
            self.chk()?;
            let t = t.as_basic_type_enum();
            match t {
                BasicTypeEnum::StructType(s) if i < s.count_fields() => {}
                BasicTypeEnum::StructType(_) => return Err(BuilderError("GEP index out of range".into())),
                _ => return Err(BuilderError("GEP pointee is not a struct".into())),
            }
            let n = cs(n);
            Ok(PointerValue { p: unsafe { LLVMBuildStructGEP2(self.p, t.ptr(), ptr.p, i, n.as_ptr()) }, _m: PhantomData })
        }
        /// # Safety
        /// as inkwell
        pub unsafe fn build_gep<T: BasicType<'c>>(&self, t: T, ptr: PointerValue<'c>, idx: &[IntValue<'c>], n: &str) -> R<PointerValue<'c>> {
            self.chk()?;
            let n = cs(n);
            let v: Vec<P> = idx.iter().map(|i| i.p).collect();
            Ok(PointerValue { p: LLVMBuildGEP2(self.p, t.as_basic_type_enum().ptr(), ptr.p, v.as_ptr(), v.len() as c_uint, n.as_ptr()), _m: PhantomData })
        }
        /// # Safety
        /// as inkwell
        pub unsafe fn build_in_bounds_gep<T: BasicType<'c>>(&self, t: T, ptr: PointerValue<'c>, idx: &[IntValue<'c>], n: &str) -> R<PointerValue<'c>> {
            self.chk()?;
            let n = cs(n);
            let v: Vec<P> = idx.iter().map(|i| i.p).collect();
            Ok(PointerValue { p: LLVMBuildInBoundsGEP2(self.p, t.as_basic_type_enum().ptr(), ptr.p, v.as_ptr(), v.len() as c_uint, n.as_ptr()), _m: PhantomData })
        }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'c>>) -> R<InstructionValue<'c>> {
            self.chk()?;
            let p = unsafe {
                match v {
                    None => LLVMBuildRetVoid(self.p),
                    Some(v) => LLVMBuildRet(self.p, v.vptr()),
                }
            };
            Ok(InstructionValue { p, _m: PhantomData })
        }
        pub fn build_unreachable(&self) -> R<InstructionValue<'c>> {
            self.chk()?;
            Ok(InstructionValue { p: unsafe { LLVMBuildUnreachable(self.p) }, _m: PhantomData })
        }
        pub fn build_phi<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PhiValue<'c>> {
            self.chk()?;
            let n = cs(n);
            Ok(PhiValue { p: unsafe { LLVMBuildPhi(self.p, t.as_basic_type_enum().ptr(), n.as_ptr()) }, _m: PhantomData })
        }
    }
}

pub mod passes {
    use super::*;
    extern "C" {
        fn LLVMAddAlwaysInlinerPass(p: P);
        fn LLVMAddLoopUnrollAndJamPass(p: P);
        fn LLVMAddLoopUnrollPass(p: P);
        fn LLVMAddLoopRotatePass(p: P);
        fn LLVMAddLoopVectorizePass(p: P);
        fn LLVMAddLoopIdiomPass(p: P);
        fn LLVMAddLoopDeletionPass(p: P);
        fn LLVMAddLoopRerollPass(p: P);
        fn LLVMAddAggressiveDCEPass(p: P);
        fn LLVMAddPromoteMemoryToRegisterPass(p: P);
        fn LLVMAddMergedLoadStoreMotionPass(p: P);
        fn LLVMAddDemoteMemoryToRegisterPass(p: P);
        fn LLVMAddMemCpyOptPass(p: P);
        fn LLVMAddLICMPass(p: P);
        fn LLVMAddGVNPass(p: P);
        fn LLVMAddNewGVNPass(p: P);
        fn LLVMAddSCCPPass(p: P);
        fn LLVMAddInstructionCombiningPass(p: P);
        fn LLVMAddInstructionSimplifyPass(p: P);
        fn LLVMAddJumpThreadingPass(p: P);
        fn LLVMAddCFGSimplificationPass(p: P);
        fn LLVMAddTailCallEliminationPass(p: P);
        fn LLVMAddReassociatePass(p: P);
        fn LLVMAddEarlyCSEPass(p: P);
        fn LLVMAddEarlyCSEMemSSAPass(p: P);
        fn LLVMAddCorrelatedValuePropagationPass(p: P);
        fn LLVMAddDeadStoreEliminationPass(p: P);
        fn LLVMAddIndVarSimplifyPass(p: P);
        fn LLVMAddLowerExpectIntrinsicPass(p: P);
        fn LLVMAddMergeFunctionsPass(p: P);
        fn LLVMAddStripDeadPrototypesPass(p: P);
        fn LLVMAddScalarizerPass(p: P);
        fn LLVMAddFunctionInliningPass(p: P);
        fn LLVMAddGlobalDCEPass(p: P);
        fn LLVMAddGlobalOptimizerPass(p: P);
        fn LLVMAddConstantMergePass(p: P);
        fn LLVMAddDeadArgEliminationPass(p: P);
        fn LLVMAddVerifierPass(p: P);
        fn LLVMAddScalarReplAggregatesPass(p: P);
        fn LLVMAddSLPVectorizePass(p: P);
        fn LLVMAddFunctionAttrsPass(p: P);
    }
    #[derive(Debug)]
    pub struct PassManagerBuilder {
        p: P,
    }
    impl PassManagerBuilder {
        pub fn create() -> Self {
            PassManagerBuilder { p: unsafe { LLVMPassManagerBuilderCreate() } }
        }
        pub fn set_optimization_level(&self, l: OptimizationLevel) {
            unsafe { LLVMPassManagerBuilderSetOptLevel(self.p, l as c_uint) }
        }
        pub fn set_size_level(&self, l: u32) {
            unsafe { LLVMPassManagerBuilderSetSizeLevel(self.p, l) }
        }
        pub fn set_inliner_with_threshold(&self, t: u32) {
            unsafe { LLVMPassManagerBuilderUseInlinerWithThreshold(self.p, t) }
        }
        pub fn populate_module_pass_manager<T>(&self, m: &PassManager<T>) {
            unsafe { LLVMPassManagerBuilderPopulateModulePassManager(self.p, m.p) }
        }
    }
    impl Drop for PassManagerBuilder {
        fn drop(&mut self) {
            unsafe { LLVMPassManagerBuilderDispose(self.p) }
        }
    }
    #[derive(Debug)]
    pub struct PassManager<T> {
        p: P,
        _m: PhantomData<T>,
    }
    impl<T> Drop for PassManager<T> {
        fn drop(&mut self) {
            unsafe { LLVMDisposePassManager(self.p) }
        }
    }
    macro_rules! pass {
        ($($m:ident => $f:ident),* $(,)?) => { $( pub fn $m(&self) { unsafe { $f(self.p) } } )* };
    }
    impl<'c> PassManager<module::Module<'c>> {
        pub fn create(_: ()) -> Self {
            PassManager { p: unsafe { LLVMCreatePassManager() }, _m: PhantomData }
        }
        pub fn run_on(&self, m: &module::Module<'c>) -> bool {
            unsafe { LLVMRunPassManager(self.p, m.p) != 0 }
        }
    }
    impl<T> PassManager<T> {
        pass! {
            add_always_inliner_pass => LLVMAddAlwaysInlinerPass,
            add_loop_unroll_and_jam_pass => LLVMAddLoopUnrollAndJamPass,
            add_loop_unroll_pass => LLVMAddLoopUnrollPass,
            add_loop_rotate_pass => LLVMAddLoopRotatePass,
            add_loop_vectorize_pass => LLVMAddLoopVectorizePass,
            add_loop_idiom_pass => LLVMAddLoopIdiomPass,
            add_loop_deletion_pass => LLVMAddLoopDeletionPass,
            add_loop_reroll_pass => LLVMAddLoopRerollPass,
            add_aggressive_dce_pass => LLVMAddAggressiveDCEPass,
            add_promote_memory_to_register_pass => LLVMAddPromoteMemoryToRegisterPass,
            add_merged_load_store_motion_pass => LLVMAddMergedLoadStoreMotionPass,
            add_demote_memory_to_register_pass => LLVMAddDemoteMemoryToRegisterPass,
            add_memcpy_optimize_pass => LLVMAddMemCpyOptPass,
            add_licm_pass => LLVMAddLICMPass,
            add_gvn_pass => LLVMAddGVNPass,
            add_new_gvn_pass => LLVMAddNewGVNPass,
            add_sccp_pass => LLVMAddSCCPPass,
            add_instruction_combining_pass => LLVMAddInstructionCombiningPass,
            add_instruction_simplify_pass => LLVMAddInstructionSimplifyPass,
            add_jump_threading_pass => LLVMAddJumpThreadingPass,
            add_cfg_simplification_pass => LLVMAddCFGSimplificationPass,
            add_tail_call_elimination_pass => LLVMAddTailCallEliminationPass,
            add_reassociate_pass => LLVMAddReassociatePass,
            add_early_cse_pass => LLVMAddEarlyCSEPass,
            add_early_cse_mem_ssa_pass => LLVMAddEarlyCSEMemSSAPass,
            add_correlated_value_propagation_pass => LLVMAddCorrelatedValuePropagationPass,
            add_dead_store_elimination_pass => LLVMAddDeadStoreEliminationPass,
            add_ind_var_simplify_pass => LLVMAddIndVarSimplifyPass,
            add_lower_expect_intrinsic_pass => LLVMAddLowerExpectIntrinsicPass,
            add_merge_functions_pass => LLVMAddMergeFunctionsPass,
            add_strip_dead_prototypes_pass => LLVMAddStripDeadPrototypesPass,
            add_scalarizer_pass => LLVMAddScalarizerPass,
            add_function_inlining_pass => LLVMAddFunctionInliningPass,
            add_global_dce_pass => LLVMAddGlobalDCEPass,
            add_global_optimizer_pass => LLVMAddGlobalOptimizerPass,
            add_constant_merge_pass => LLVMAddConstantMergePass,
            add_dead_arg_elimination_pass => LLVMAddDeadArgEliminationPass,
            add_verifier_pass => LLVMAddVerifierPass,
            add_scalar_repl_aggregates_pass => LLVMAddScalarReplAggregatesPass,
            add_slp_vectorize_pass => LLVMAddSLPVectorizePass,
            add_function_attrs_pass => LLVMAddFunctionAttrsPass,
        }
    }
}

pub mod targets {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct InitializationConfig {
        _p: (),
    }
    #[derive(Debug, Clone, Copy)]
    pub enum CodeModel {
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }
    #[derive(Debug, Clone, Copy)]
    pub enum RelocMode {
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Debug, Clone, Copy)]
    pub enum FileType {
        Assembly = 0,
        Object = 1,
    }
    #[derive(Debug, Clone)]
    pub struct TargetTriple(pub(crate) CString);
    impl TargetTriple {
        pub fn create(s: &str) -> Self {
            TargetTriple(cs(s))
        }
    }
    #[derive(Debug)]
    pub struct Target {
        p: P,
    }
    impl Target {
        pub fn initialize_webassembly(_: &InitializationConfig) {
            unsafe {
                LLVMInitializeWebAssemblyTarget();
                LLVMInitializeWebAssemblyTargetInfo();
                LLVMInitializeWebAssemblyTargetMC();
                LLVMInitializeWebAssemblyAsmPrinter();
                LLVMInitializeWebAssemblyAsmParser();
            }
        }
        pub fn from_name(n: &str) -> Option<Self> {
            let n = cs(n);
            let p = unsafe { LLVMGetTargetFromName(n.as_ptr()) };
            if p.is_null() {
                None
            } else {
                Some(Target { p })
            }
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, feat: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            let cpu = cs(cpu);
            let feat = cs(feat);
            let p = unsafe { LLVMCreateTargetMachine(self.p, t.0.as_ptr(), cpu.as_ptr(), feat.as_ptr(), l as c_int, r as c_int, c as c_int) };
            if p.is_null() {
                None
            } else {
                Some(TargetMachine { p })
            }
        }
    }
    #[derive(Debug)]
    pub struct TargetMachine {
        p: P,
    }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &module::Module<'_>, f: FileType) -> Result<MemoryBuffer, LLVMString> {
            let mut e: *mut c_char = std::ptr::null_mut();
            let mut out: P = std::ptr::null_mut();
            let r = unsafe { LLVMTargetMachineEmitToMemoryBuffer(self.p, m.p, f as c_int, &mut e, &mut out) };
            if r != 0 {
                return Err(LLVMString(take_msg(e)));
            }
            Ok(MemoryBuffer { p: out })
        }
    }
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.p) }
        }
    }
}
