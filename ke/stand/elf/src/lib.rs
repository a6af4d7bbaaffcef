//! Stand-in for the ELF parsing library: ELF32 little endian, the part of its interface the loader uses.
pub mod abi {
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_NOTE: u32 = 4;
    pub const PT_GNU_STACK: u32 = 0x6474e551;
    pub const SHT_NOBITS: u32 = 8;
    pub const SHT_PROGBITS: u32 = 1;
}
pub mod endian {
    pub struct LittleEndian;
    pub struct AnyEndian;
}
pub mod segment {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32,
        pub p_offset: u64,
        pub p_vaddr: u64,
        pub p_paddr: u64,
        pub p_filesz: u64,
        pub p_memsz: u64,
        pub p_flags: u32,
        pub p_align: u64,
    }
}
pub mod section {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct SectionHeader {
        pub sh_name: u32,
        pub sh_type: u32,
        pub sh_flags: u64,
        pub sh_addr: u64,
        pub sh_offset: u64,
        pub sh_size: u64,
        pub sh_link: u32,
        pub sh_info: u32,
        pub sh_addralign: u64,
        pub sh_entsize: u64,
    }
}
use section::SectionHeader;
use segment::ProgramHeader;

#[derive(Debug)]
pub struct ParseError;
pub struct Table<T>(Vec<T>);
impl<T: Copy> Table<T> {
    pub fn iter(&self) -> Iter<T> { Iter(self.0.clone(), 0) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn get(&self, i: usize) -> Result<T, ParseError> { if i < self.0.len() { Ok(self.0[i]) } else { Err(ParseError) } }
}
pub struct Iter<T>(Vec<T>, usize);
impl<T: Copy> Iterator for Iter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.1 < self.0.len() { self.1 += 1; Some(self.0[self.1 - 1]) } else { None }
    }
}
impl<T: Copy> IntoIterator for Table<T> {
    type Item = T;
    type IntoIter = Iter<T>;
    fn into_iter(self) -> Iter<T> { Iter(self.0, 0) }
}
pub struct ElfBytes<'a, E>(&'a [u8], std::marker::PhantomData<E>);
fn h(b: &[u8], at: usize) -> usize { b[at] as usize | (b[at + 1] as usize) << 8 }
fn w(b: &[u8], at: usize) -> u32 { (b[at] as u32) | (b[at + 1] as u32) << 8 | (b[at + 2] as u32) << 16 | (b[at + 3] as u32) << 24 }
impl<'a, E> ElfBytes<'a, E> {
    pub fn minimal_parse(b: &'a [u8]) -> Result<Self, ParseError> { Ok(Self(b, std::marker::PhantomData)) }
    pub fn segments(&self) -> Option<Table<ProgramHeader>> {
        let b = self.0;
        let mut v = Vec::with_capacity(h(b, 44));
        for i in 0..h(b, 44) {
            let at = w(b, 28) as usize + 32 * i;
            v.push(ProgramHeader {
                p_type: w(b, at), p_offset: w(b, at + 4) as u64, p_vaddr: w(b, at + 8) as u64, p_paddr: w(b, at + 12) as u64,
                p_filesz: w(b, at + 16) as u64, p_memsz: w(b, at + 20) as u64, p_flags: w(b, at + 24), p_align: w(b, at + 28) as u64,
            });
        }
        Some(Table(v))
    }
    fn section(&self, i: usize) -> SectionHeader {
        let b = self.0;
        let at = w(b, 32) as usize + 40 * i;
        SectionHeader {
            sh_name: w(b, at), sh_type: w(b, at + 4), sh_flags: w(b, at + 8) as u64, sh_addr: w(b, at + 12) as u64, sh_offset: w(b, at + 16) as u64,
            sh_size: w(b, at + 20) as u64, sh_link: w(b, at + 24), sh_info: w(b, at + 28), sh_addralign: w(b, at + 32) as u64, sh_entsize: w(b, at + 36) as u64,
        }
    }
    pub fn section_headers(&self) -> Option<Table<SectionHeader>> {
        let n = h(self.0, 48);
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(self.section(i));
        }
        Some(Table(v))
    }
    pub fn section_header_by_name(&self, name: &str) -> Result<Option<SectionHeader>, ParseError> {
        let names = self.section(h(self.0, 50)).sh_offset as usize;
        let name = name.as_bytes();
        for i in 1..h(self.0, 48) {
            let s = self.section(i);
            let at = names + s.sh_name as usize;
            let mut same = self.0[at + name.len()] == 0;
            for k in 0..name.len() {
                same = same && self.0[at + k] == name[k];
            }
            if same {
                return Ok(Some(s));
            }
        }
        Ok(None)
    }
}
