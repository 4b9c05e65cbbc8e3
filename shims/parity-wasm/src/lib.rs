//! Offline stand-in for the part of parity-wasm 0.45 the project uses: parse a module into raw
//! sections, decode the global section, edit an init expression, serialise again.
pub mod elements {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Instruction {
        I32Const(i32),
        I64Const(i64),
        GetGlobal(u32),
        End,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InitExpr(Vec<Instruction>);
    impl InitExpr {
        pub fn new(code: Vec<Instruction>) -> Self {
            InitExpr(code)
        }
        pub fn code(&self) -> &[Instruction] {
            &self.0
        }
        pub fn code_mut(&mut self) -> &mut Vec<Instruction> {
            &mut self.0
        }
    }
    #[derive(Debug, Clone)]
    pub struct GlobalEntry {
        pub(crate) ty: u8,
        pub(crate) mutable: u8,
        pub(crate) init: InitExpr,
    }
    impl GlobalEntry {
        pub fn init_expr(&self) -> &InitExpr {
            &self.init
        }
        pub fn init_expr_mut(&mut self) -> &mut InitExpr {
            &mut self.init
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct GlobalSection(pub(crate) Vec<GlobalEntry>);
    impl GlobalSection {
        pub fn entries(&self) -> &[GlobalEntry] {
            &self.0
        }
        pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> {
            &mut self.0
        }
    }
    #[derive(Debug, Clone)]
    pub(crate) enum Sec {
        Raw(u8, Vec<u8>),
        Global(GlobalSection),
    }
    #[derive(Debug, Clone, Default)]
    pub struct Module {
        pub(crate) secs: Vec<Sec>,
    }
    impl Module {
        pub fn global_section(&self) -> Option<&GlobalSection> {
            self.secs.iter().find_map(|s| if let Sec::Global(g) = s { Some(g) } else { None })
        }
        pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> {
            self.secs.iter_mut().find_map(|s| if let Sec::Global(g) = s { Some(g) } else { None })
        }
    }
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
}
use elements::*;

fn e(s: &str) -> Error {
    Error(s.to_string())
}
fn uleb(b: &[u8], p: &mut usize) -> Result<u32, Error> {
    let (mut r, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*p).ok_or_else(|| e("eof"))?;
        *p += 1;
        r |= ((x & 0x7f) as u64) << s;
        s += 7;
        if x & 0x80 == 0 {
            return Ok(r as u32);
        }
        if s > 35 {
            return Err(e("leb"));
        }
    }
}
fn sleb(b: &[u8], p: &mut usize) -> Result<i64, Error> {
    let (mut r, mut s) = (0i64, 0u32);
    loop {
        let x = *b.get(*p).ok_or_else(|| e("eof"))?;
        *p += 1;
        if s < 64 {
            r |= ((x & 0x7f) as i64) << s;
        }
        s += 7;
        if x & 0x80 == 0 {
            if s < 64 && x & 0x40 != 0 {
                r |= -1i64 << s;
            }
            return Ok(r);
        }
    }
}
fn wu(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn ws(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

pub fn deserialize_buffer(b: &[u8]) -> Result<Module, Error> {
    if b.len() < 8 || &b[..8] != b"\0asm\x01\0\0\0" {
        return Err(e("bad magic"));
    }
    let mut p = 8;
    let mut m = Module::default();
    while p < b.len() {
        let id = b[p];
        p += 1;
        let n = uleb(b, &mut p)? as usize;
        let d = b.get(p..p + n).ok_or_else(|| e("section"))?;
        p += n;
        if id == 6 {
            let mut q = 0;
            let cnt = uleb(d, &mut q)?;
            let mut g = GlobalSection::default();
            for _ in 0..cnt {
                let ty = d[q];
                let mutable = d[q + 1];
                q += 2;
                let mut code = vec![];
                loop {
                    let op = d[q];
                    q += 1;
                    match op {
                        0x41 => code.push(Instruction::I32Const(sleb(d, &mut q)? as i32)),
                        0x42 => code.push(Instruction::I64Const(sleb(d, &mut q)?)),
                        0x23 => code.push(Instruction::GetGlobal(uleb(d, &mut q)?)),
                        0x0b => {
                            code.push(Instruction::End);
                            break;
                        }
                        _ => return Err(e("init expr")),
                    }
                }
                g.0.push(GlobalEntry { ty, mutable, init: InitExpr::new(code) });
            }
            m.secs.push(Sec::Global(g));
        } else {
            m.secs.push(Sec::Raw(id, d.to_vec()));
        }
    }
    Ok(m)
}
pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for s in &m.secs {
        let (id, body) = match s {
            Sec::Raw(i, d) => (*i, d.clone()),
            Sec::Global(g) => {
                let mut d = vec![];
                wu(&mut d, g.0.len() as u64);
                for x in &g.0 {
                    d.push(x.ty);
                    d.push(x.mutable);
                    for i in x.init.code() {
                        match i {
                            Instruction::I32Const(v) => {
                                d.push(0x41);
                                ws(&mut d, *v as i64);
                            }
                            Instruction::I64Const(v) => {
                                d.push(0x42);
                                ws(&mut d, *v);
                            }
                            Instruction::GetGlobal(v) => {
                                d.push(0x23);
                                wu(&mut d, *v as u64);
                            }
                            Instruction::End => d.push(0x0b),
                        }
                    }
                }
                (6u8, d)
            }
        };
        o.push(id);
        wu(&mut o, body.len() as u64);
        o.extend(body);
    }
    Ok(o)
}
pub mod builder {
    use super::elements::Module;
    pub struct ModuleBuilder(Module);
    pub fn module() -> ModuleBuilder {
        ModuleBuilder(Module::default())
    }
    impl ModuleBuilder {
        pub fn with_module(self, m: Module) -> Self {
            ModuleBuilder(m)
        }
        pub fn build(self) -> Module {
            self.0
        }
    }
}
