//! Stand-in for `parity-wasm` (not available offline): reads a module, gives access to the global
//! section, and writes it back with every other section byte for byte as it was.
pub mod elements {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Error {
        Other(&'static str),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Debug, Clone, PartialEq)]
    pub enum Instruction {
        I32Const(i32),
        I64Const(i64),
        GetGlobal(u32),
        End,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InitExpr(pub(crate) Vec<Instruction>);
    impl InitExpr {
        pub fn new(c: Vec<Instruction>) -> Self {
            InitExpr(c)
        }
        pub fn code(&self) -> &[Instruction] {
            &self.0
        }
        pub fn code_mut(&mut self) -> &mut Vec<Instruction> {
            &mut self.0
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct GlobalEntry {
        pub(crate) ty: u8,
        pub(crate) mutable: u8,
        pub(crate) init: InitExpr,
    }
    impl GlobalEntry {
        pub fn init_expr(&self) -> &InitExpr {
            &self.init
        }
        pub fn init_expr_mut(&mut self) -> &mut InitExpr {
            &mut self.init
        }
    }
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct GlobalSection(pub(crate) Vec<GlobalEntry>);
    impl GlobalSection {
        pub fn entries(&self) -> &[GlobalEntry] {
            &self.0
        }
        pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> {
            &mut self.0
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub(crate) enum Section {
        Raw(u8, Vec<u8>),
        Global(GlobalSection),
    }
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct Module {
        pub(crate) sections: Vec<Section>,
    }
    impl Module {
        pub fn global_section(&self) -> Option<&GlobalSection> {
            self.sections.iter().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None })
        }
        pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> {
            self.sections.iter_mut().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None })
        }
    }
    pub(crate) fn uleb(b: &[u8], p: &mut usize) -> Result<u64, Error> {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let x = *b.get(*p).ok_or(Error::Other("eof"))?;
            *p += 1;
            r |= ((x & 0x7f) as u64) << s;
            s += 7;
            if x & 0x80 == 0 {
                return Ok(r);
            }
        }
    }
    pub(crate) fn sleb(b: &[u8], p: &mut usize) -> Result<i64, Error> {
        let (mut r, mut s) = (0i64, 0);
        loop {
            let x = *b.get(*p).ok_or(Error::Other("eof"))?;
            *p += 1;
            r |= ((x & 0x7f) as i64) << s;
            s += 7;
            if x & 0x80 == 0 {
                if s < 64 && x & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return Ok(r);
            }
        }
    }
    pub(crate) fn wu(o: &mut Vec<u8>, mut v: u64) {
        loop {
            let x = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                return o.push(x);
            }
            o.push(x | 0x80);
        }
    }
    pub(crate) fn ws(o: &mut Vec<u8>, mut v: i64) {
        loop {
            let x = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && x & 0x40 == 0) || (v == -1 && x & 0x40 != 0) {
                return o.push(x);
            }
            o.push(x | 0x80);
        }
    }
    pub fn deserialize_buffer(b: &[u8]) -> Result<Module, Error> {
        if b.len() < 8 || &b[..8] != b"\0asm\x01\0\0\0" {
            return Err(Error::Other("bad magic"));
        }
        let mut p = 8;
        let mut m = Module::default();
        while p < b.len() {
            let id = b[p];
            p += 1;
            let n = uleb(b, &mut p)? as usize;
            let body = b.get(p..p + n).ok_or(Error::Other("eof"))?;
            p += n;
            if id != 6 {
                m.sections.push(Section::Raw(id, body.to_vec()));
                continue;
            }
            let mut q = 0;
            let mut g = GlobalSection::default();
            for _ in 0..uleb(body, &mut q)? {
                let (ty, mutable) = (body[q], body[q + 1]);
                q += 2;
                let mut code = vec![];
                loop {
                    let op = body[q];
                    q += 1;
                    match op {
                        0x41 => code.push(Instruction::I32Const(sleb(body, &mut q)? as i32)),
                        0x42 => code.push(Instruction::I64Const(sleb(body, &mut q)?)),
                        0x23 => code.push(Instruction::GetGlobal(uleb(body, &mut q)? as u32)),
                        0x0b => {
                            code.push(Instruction::End);
                            break;
                        }
                        _ => return Err(Error::Other("init expression")),
                    }
                }
                g.0.push(GlobalEntry { ty, mutable, init: InitExpr(code) });
            }
            m.sections.push(Section::Global(g));
        }
        Ok(m)
    }
    pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
        let mut o = b"\0asm\x01\0\0\0".to_vec();
        for s in m.sections {
            let (id, body) = match s {
                Section::Raw(i, b) => (i, b),
                Section::Global(g) => {
                    let mut b = vec![];
                    wu(&mut b, g.0.len() as u64);
                    for e in g.0 {
                        b.push(e.ty);
                        b.push(e.mutable);
                        for i in e.init.0 {
                            match i {
                                Instruction::I32Const(v) => {
                                    b.push(0x41);
                                    ws(&mut b, v as i64)
                                }
                                Instruction::I64Const(v) => {
                                    b.push(0x42);
                                    ws(&mut b, v)
                                }
                                Instruction::GetGlobal(v) => {
                                    b.push(0x23);
                                    wu(&mut b, v as u64)
                                }
                                Instruction::End => b.push(0x0b),
                            }
                        }
                    }
                    (6, b)
                }
            };
            o.push(id);
            wu(&mut o, body.len() as u64);
            o.extend(body);
        }
        Ok(o)
    }
}
pub use elements::{deserialize_buffer, serialize};
pub mod builder {
    use super::elements::Module;
    pub struct ModuleBuilder {
        m: Module,
    }
    pub fn module() -> ModuleBuilder {
        ModuleBuilder { m: Module::default() }
    }
    pub fn from_module(m: Module) -> ModuleBuilder {
        ModuleBuilder { m }
    }
    impl ModuleBuilder {
        pub fn with_module(mut self, m: Module) -> Self {
            self.m = m;
            self
        }
        pub fn build(self) -> Module {
            self.m
        }
    }
}
