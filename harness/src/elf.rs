//! Independent ELF encoder and parser used as the oracle. Numbers are from the
//! ELF specification, not from the crate under test.
use crate::b::*;
use crate::engine::*;
use crate::{ensure, must_some};

pub mod k {
    pub const SHT_NULL: u32 = 0;
    pub const SHT_PROGBITS: u32 = 1;
    pub const SHT_SYMTAB: u32 = 2;
    pub const SHT_STRTAB: u32 = 3;
    pub const SHT_RELA: u32 = 4;
    pub const SHT_HASH: u32 = 5;
    pub const SHT_DYNAMIC: u32 = 6;
    pub const SHT_NOTE: u32 = 7;
    pub const SHT_NOBITS: u32 = 8;
    pub const SHT_REL: u32 = 9;
    pub const SHT_DYNSYM: u32 = 11;
    pub const SHT_INIT_ARRAY: u32 = 14;
    pub const SHT_FINI_ARRAY: u32 = 15;
    pub const SHT_PREINIT_ARRAY: u32 = 16;
    pub const SHT_GROUP: u32 = 17;
    pub const SHT_SYMTAB_SHNDX: u32 = 18;
    pub const SHT_RELR: u32 = 19;
    pub const SHT_CREL: u32 = 0x40000014;
    pub const SHT_GNU_ATTRIBUTES: u32 = 0x6ffffff5;
    pub const SHT_GNU_HASH: u32 = 0x6ffffff6;
    pub const SHT_GNU_VERDEF: u32 = 0x6ffffffd;
    pub const SHT_GNU_VERNEED: u32 = 0x6ffffffe;
    pub const SHT_GNU_VERSYM: u32 = 0x6fffffff;
    pub const SHF_WRITE: u64 = 1;
    pub const SHF_ALLOC: u64 = 2;
    pub const SHF_EXECINSTR: u64 = 4;
    pub const SHF_MERGE: u64 = 0x10;
    pub const SHF_STRINGS: u64 = 0x20;
    pub const SHF_INFO_LINK: u64 = 0x40;
    pub const SHF_LINK_ORDER: u64 = 0x80;
    pub const SHF_GROUP: u64 = 0x200;
    pub const SHF_TLS: u64 = 0x400;
    pub const SHF_COMPRESSED: u64 = 0x800;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const SHN_LORESERVE: u16 = 0xff00;
    pub const SHN_ABS: u16 = 0xfff1;
    pub const SHN_COMMON: u16 = 0xfff2;
    pub const SHN_XINDEX: u16 = 0xffff;
}
use k::*;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
    pub data: Vec<u8>,
    /// Header fields filled by `layout` (or by hand).
    pub name_off: u32,
    pub off: u64,
    pub size: u64,
}
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Seg {
    pub ty: u32,
    pub flags: u32,
    pub off: u64,
    pub vaddr: u64,
    pub paddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}
#[derive(Clone, Default, Debug)]
pub struct Img {
    pub is64: bool,
    pub be: bool,
    pub osabi: u8,
    pub abiver: u8,
    pub ety: u16,
    pub machine: u16,
    pub version: u32,
    pub entry: u64,
    pub flags: u32,
    pub secs: Vec<Sec>,
    pub segs: Vec<Seg>,
    pub shstrndx: usize,
    pub phoff: u64,
    pub shoff: u64,
    /// Raw header fields as encoded.
    pub e_phnum: u16,
    pub e_shnum: u16,
    pub e_shstrndx: u16,
    /// Force extended numbering even when not needed.
    pub force_ext: bool,
    pub min_len: usize,
}
impl Img {
    pub fn word(&self) -> usize {
        if self.is64 { 8 } else { 4 }
    }
    pub fn wbits(&self) -> u32 {
        if self.is64 { 64 } else { 32 }
    }
    pub fn ehsize(&self) -> usize {
        if self.is64 { 64 } else { 52 }
    }
    pub fn phentsize(&self) -> usize {
        if self.is64 { 56 } else { 32 }
    }
    pub fn shentsize(&self) -> usize {
        if self.is64 { 64 } else { 40 }
    }
    pub fn symsize(&self) -> usize {
        if self.is64 { 24 } else { 16 }
    }
    pub fn b(&self) -> B {
        B::new(self.be, self.is64)
    }
    pub fn d<'a>(&self, v: &'a [u8]) -> D<'a> {
        D::new(self.be, self.is64, v)
    }
    /// Random class and byte order with otherwise plain header.
    pub fn random(g: &mut Gen) -> Img {
        Img { is64: g.bool(), be: g.bool(), version: 1, ..Img::default() }
    }
    pub fn add(&mut self, name: &[u8], ty: u32, data: Vec<u8>) -> usize {
        if self.secs.is_empty() {
            self.secs.push(Sec::default());
        }
        self.secs.push(Sec { name: name.to_vec(), ty, size: data.len() as u64, data, align: 1, ..Sec::default() });
        self.secs.len() - 1
    }
    /// Ensure there is a section name table and fill in the name offsets.
    pub fn names(&mut self, g: &mut Gen) {
        if self.secs.is_empty() {
            return;
        }
        if self.shstrndx == 0 {
            let i = self.add(b".shstrtab", SHT_STRTAB, vec![]);
            self.shstrndx = i;
        }
        let prefix: &[u8] = if g.chance(1, 10) { b"junk\0" } else { b"\0" };
        let mut t = StrTab::new(prefix, g.bool());
        let n = self.secs.len();
        // Random insertion order (rotation) so suffix sharing varies.
        let r = g.below(n);
        for j in 0..n {
            let i = (j + r) % n;
            if i == 0 && prefix == b"\0" {
                continue;
            }
            self.secs[i].name_off = t.add(&self.secs[i].name.clone());
        }
        let s = &mut self.secs[self.shstrndx];
        s.size = t.v.len() as u64;
        s.data = t.v;
    }
    /// Assign file offsets in random order with random gaps.
    pub fn layout(&mut self, g: &mut Gen) {
        let mut chunks: Vec<usize> = (0..self.secs.len()).collect(); // 0 stands for the section header table
        if self.secs.is_empty() {
            chunks.clear();
        }
        if !self.segs.is_empty() {
            chunks.push(usize::MAX);
        }
        let n = chunks.len();
        if g.bool() {
            for i in (1..n).rev() {
                let j = g.below(i + 1);
                chunks.swap(i, j);
            }
        } else if n > 0 {
            chunks.rotate_left(1)
        }
        let mut p = self.ehsize() as u64;
        let shsize = (self.secs.len() * self.shentsize()) as u64;
        let phsize = (self.segs.len() * self.phentsize()) as u64;
        for c in chunks {
            if g.chance(1, 3) {
                p += g.upto(17);
            } else {
                p = p.div_ceil(8) * 8;
            }
            let len = match c {
                0 => {
                    self.shoff = p;
                    shsize
                }
                usize::MAX => {
                    self.phoff = p;
                    phsize
                }
                i => {
                    self.secs[i].off = p;
                    if self.secs[i].ty == SHT_NOBITS { 0 } else { self.secs[i].data.len() as u64 }
                }
            };
            p += len;
        }
    }
    pub fn numbering(&mut self) {
        let (shnum, phnum) = (self.secs.len(), self.segs.len());
        let ext = self.force_ext && shnum > 0;
        self.e_shnum = shnum as u16;
        if shnum >= 0xff00 || ext {
            self.e_shnum = 0;
            self.secs[0].size = shnum as u64;
        }
        self.e_shstrndx = self.shstrndx as u16;
        if self.shstrndx >= 0xff00 || ext {
            self.e_shstrndx = 0xffff;
            self.secs[0].link = self.shstrndx as u32;
        }
        self.e_phnum = phnum as u16;
        if phnum >= 0xffff || (ext && phnum > 0) {
            self.e_phnum = 0xffff;
            self.secs[0].info = phnum as u32;
        }
    }
    pub fn put_sym(&self, b: &mut B, s: &Sym) {
        if self.is64 {
            b.u32(s.name_off).u8(s.info).u8(s.other).u16(s.shndx).u64(s.value).u64(s.size);
        } else {
            b.u32(s.name_off).u32(s.value as u32).u32(s.size as u32).u8(s.info).u8(s.other).u16(s.shndx);
        }
    }
    /// Serialise. Gaps are filled with a non-zero pattern.
    pub fn emit(&mut self) -> Vec<u8> {
        self.numbering();
        let mut end = self.ehsize().max(self.min_len);
        if !self.segs.is_empty() {
            end = end.max(self.phoff as usize + self.segs.len() * self.phentsize());
        }
        if !self.secs.is_empty() {
            end = end.max(self.shoff as usize + self.secs.len() * self.shentsize());
        }
        for s in &self.secs {
            if s.ty != SHT_NOBITS {
                end = end.max(s.off as usize + s.data.len());
            }
        }
        let mut out: Vec<u8> = (0..end).map(|i| 0xa0 | (i as u8 & 0xf)).collect();
        let mut h = self.b();
        h.bytes(b"\x7fELF").u8(if self.is64 { 2 } else { 1 }).u8(if self.be { 2 } else { 1 }).u8(1);
        h.u8(self.osabi).u8(self.abiver).zeros(7);
        h.u16(self.ety).u16(self.machine).u32(self.version).w(self.entry).w(self.phoff).w(self.shoff);
        h.u32(self.flags).u16(self.ehsize() as u16).u16(self.phentsize() as u16).u16(self.e_phnum);
        h.u16(self.shentsize() as u16).u16(self.e_shnum).u16(self.e_shstrndx);
        out[..h.len()].copy_from_slice(&h.v);
        let mut h = self.b();
        for p in &self.segs {
            if self.is64 {
                h.u32(p.ty).u32(p.flags).u64(p.off).u64(p.vaddr).u64(p.paddr).u64(p.filesz).u64(p.memsz).u64(p.align);
            } else {
                h.u32(p.ty).w(p.off).w(p.vaddr).w(p.paddr).w(p.filesz).w(p.memsz).u32(p.flags).w(p.align);
            }
        }
        if !self.segs.is_empty() {
            out[self.phoff as usize..][..h.len()].copy_from_slice(&h.v);
        }
        let mut h = self.b();
        for s in &self.secs {
            h.u32(s.name_off).u32(s.ty).w(s.flags).w(s.addr).w(s.off).w(s.size).u32(s.link).u32(s.info).w(s.align).w(s.entsize);
        }
        if !self.secs.is_empty() {
            out[self.shoff as usize..][..h.len()].copy_from_slice(&h.v);
        }
        for s in &self.secs {
            if s.ty != SHT_NOBITS && !s.data.is_empty() {
                out[s.off as usize..][..s.data.len()].copy_from_slice(&s.data);
            }
        }
        out
    }
    /// Names, layout and serialisation in one go.
    pub fn build(&mut self, g: &mut Gen) -> Vec<u8> {
        self.names(g);
        self.layout(g);
        self.emit()
    }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub name_off: u32,
    pub info: u8,
    pub other: u8,
    /// Raw 16 bit field.
    pub shndx: u16,
    /// Extended index (only in the extended index table).
    pub xshndx: u32,
    pub value: u64,
    pub size: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rel {
    pub off: u64,
    pub sym: u32,
    pub ty: u32,
    pub addend: i64,
}

impl Img {
    pub fn is_mips64el(&self) -> bool {
        self.is64 && !self.be && self.machine == 8
    }
    pub fn put_rel(&self, b: &mut B, r: &Rel, rela: bool) {
        b.w(r.off);
        if !self.is64 {
            b.u32(r.sym << 8 | (r.ty & 0xff));
        } else if self.is_mips64el() {
            // struct { Elf64_Word r_sym; u8 r_ssym, r_type3, r_type2, r_type; }
            b.u32(r.sym).u8((r.ty >> 24) as u8).u8((r.ty >> 16) as u8).u8((r.ty >> 8) as u8).u8(r.ty as u8);
        } else {
            b.u64((r.sym as u64) << 32 | r.ty as u64);
        }
        if rela {
            b.w(r.addend as u64);
        }
    }
}

// ---------------------------------------------------------------- parser

/// Parse an ELF file strictly: every table must be inside the file.
pub fn parse(v: &[u8]) -> R<Img> {
    let bad = |m: &str| Failure::from(format!("invalid ELF output: {m}"));
    if v.len() < 52 || &v[..4] != b"\x7fELF" || !(1..=2).contains(&v[4]) || !(1..=2).contains(&v[5]) || v[6] != 1 {
        return Err(bad("ident"));
    }
    if v[9..16] != [0; 7] {
        return Err(bad("ident padding"));
    }
    let mut m = Img { is64: v[4] == 2, be: v[5] == 2, osabi: v[7], abiver: v[8], ..Img::default() };
    let mut d = D { be: m.be, is64: m.is64, v, p: 16 };
    let mut go = || -> Option<Result<(u64, u64, u16, u16, u16, u16, u16, u16), ()>> {
        m.ety = d.u16()?;
        m.machine = d.u16()?;
        m.version = d.u32()?;
        m.entry = d.w()?;
        let phoff = d.w()?;
        let shoff = d.w()?;
        m.flags = d.u32()?;
        Some(Ok((phoff, shoff, d.u16()?, d.u16()?, d.u16()?, d.u16()?, d.u16()?, d.u16()?)))
    };
    let (phoff, shoff, ehsize, phentsize, phnum, shentsize, shnum, shstrndx) = go().ok_or(bad("header"))?.unwrap();
    m.phoff = phoff;
    m.shoff = shoff;
    m.e_phnum = phnum;
    m.e_shnum = shnum;
    m.e_shstrndx = shstrndx;
    if ehsize as usize != m.ehsize() {
        return Err(bad(&format!("e_ehsize {ehsize}")));
    }
    if m.version != 1 {
        return Err(bad("e_version"));
    }
    let rd_sh = |m: &Img, i: usize| -> Option<Sec> {
        let mut d = D { be: m.be, is64: m.is64, v, p: (shoff as usize).checked_add(i * m.shentsize())? };
        let (name_off, ty) = (d.u32()?, d.u32()?);
        let (flags, addr, off, size) = (d.w()?, d.w()?, d.w()?, d.w()?);
        let (link, info) = (d.u32()?, d.u32()?);
        Some(Sec { name_off, ty, flags, addr, off, size, link, info, align: d.w()?, entsize: d.w()?, ..Sec::default() })
    };
    let mut n = shnum as usize;
    let mut np = phnum as usize;
    let mut strndx = shstrndx as usize;
    if shoff != 0 {
        if shentsize as usize != m.shentsize() {
            return Err(bad(&format!("e_shentsize {shentsize}")));
        }
        let s0 = rd_sh(&m, 0).ok_or(bad("section header 0"))?;
        if s0.ty != 0 {
            return Err(bad("section 0 type"));
        }
        if shnum == 0 {
            n = s0.size as usize;
            if n < 0xff00 {
                return Err(bad(&format!("extended e_shnum for {n} sections")));
            }
        } else if shnum >= 0xff00 {
            return Err(bad("reserved e_shnum"));
        } else if s0.size != 0 {
            return Err(bad("section 0 size"));
        }
        if shstrndx == 0xffff {
            strndx = s0.link as usize;
        } else if shstrndx >= 0xff00 {
            return Err(bad("reserved e_shstrndx"));
        } else if s0.link != 0 {
            return Err(bad("section 0 link"));
        }
        if phnum == 0xffff {
            np = s0.info as usize;
        } else if s0.info != 0 {
            return Err(bad("section 0 info"));
        }
    } else if n != 0 || strndx != 0 {
        return Err(bad("e_shnum without table"));
    }
    if np != 0 {
        if phentsize as usize != m.phentsize() {
            return Err(bad(&format!("e_phentsize {phentsize}")));
        }
        for i in 0..np {
            let mut d = D { be: m.be, is64: m.is64, v, p: phoff as usize + i * m.phentsize() };
            let is64 = m.is64;
            let mut rd = || -> Option<Seg> {
                let ty = d.u32()?;
                let mut flags = if is64 { d.u32()? } else { 0 };
                let (off, vaddr, paddr, filesz, memsz) = (d.w()?, d.w()?, d.w()?, d.w()?, d.w()?);
                if !is64 {
                    flags = d.u32()?;
                }
                Some(Seg { ty, flags, off, vaddr, paddr, filesz, memsz, align: d.w()? })
            };
            m.segs.push(rd().ok_or(bad("program header table out of file"))?);
        }
    }
    if shoff != 0 {
        for i in 0..n {
            let mut s = rd_sh(&m, i).ok_or(bad("section header table out of file"))?;
            if s.ty != SHT_NOBITS && s.ty != SHT_NULL {
                let end = s.off.checked_add(s.size).filter(|&e| e <= v.len() as u64);
                if end.is_none() {
                    return Err(bad(&format!("section {i} data {:#x}+{:#x} outside file of {:#x}", s.off, s.size, v.len())));
                }
                s.data = v[s.off as usize..(s.off + s.size) as usize].to_vec();
            }
            m.secs.push(s);
        }
        if n > 0 {
            m.shstrndx = strndx;
            let st = m.secs.get(strndx).ok_or(bad("e_shstrndx"))?.clone();
            if strndx != 0 && st.ty != SHT_STRTAB {
                return Err(bad("shstrtab type"));
            }
            for i in 1..n {
                m.secs[i].name = cstr_at(&st.data, m.secs[i].name_off as usize).ok_or(bad(&format!("section {i} name offset")))?.to_vec();
            }
        }
    }
    Ok(m)
}

impl Img {
    pub fn get_sym(&self, d: &mut D) -> Option<Sym> {
        let name_off = d.u32()?;
        let mut s = Sym { name_off, ..Sym::default() };
        if self.is64 {
            s.info = d.u8()?;
            s.other = d.u8()?;
            s.shndx = d.u16()?;
            s.value = d.u64()?;
            s.size = d.u64()?;
        } else {
            s.value = d.u32()? as u64;
            s.size = d.u32()? as u64;
            s.info = d.u8()?;
            s.other = d.u8()?;
            s.shndx = d.u16()?;
        }
        Some(s)
    }
    /// Decode a symbol table section, with names and extended indices.
    pub fn symbols(&self, i: usize) -> R<Vec<Sym>> {
        let s = &self.secs[i];
        ensure!(s.data.len() % self.symsize() == 0, "symbol table {i} size {} not a multiple", s.data.len());
        ensure!(s.entsize == self.symsize() as u64, "symbol table {i} sh_entsize {}", s.entsize);
        let strs = must_some!(self.secs.get(s.link as usize), "symtab sh_link {}", s.link);
        ensure!(strs.ty == SHT_STRTAB, "symtab sh_link {} is not a string table", s.link);
        let x = self.secs.iter().find(|x| x.ty == SHT_SYMTAB_SHNDX && x.link as usize == i);
        let mut d = self.d(&s.data);
        let mut out = vec![];
        for j in 0..s.data.len() / self.symsize() {
            let mut y = must_some!(self.get_sym(&mut d), "symbol {j}");
            y.name = must_some!(cstr_at(&strs.data, y.name_off as usize), "symbol {j} name offset {}", y.name_off).to_vec();
            if let Some(x) = x {
                y.xshndx = must_some!(self.d(&x.data).at(4 * j).u32(), "symtab_shndx entry {j}");
                ensure!(y.shndx == SHN_XINDEX || y.xshndx == 0, "symtab_shndx entry {j} is {} but st_shndx is {:#x}", y.xshndx, y.shndx);
            } else {
                ensure!(y.shndx != SHN_XINDEX, "symbol {j} has SHN_XINDEX but there is no SHT_SYMTAB_SHNDX");
            }
            out.push(y);
        }
        if let Some(x) = x {
            ensure!(x.data.len() == 4 * out.len(), "symtab_shndx size {} for {} symbols", x.data.len(), out.len());
        }
        Ok(out)
    }
    pub fn rels(&self, s: &Sec) -> R<Vec<Rel>> {
        let rela = s.ty == SHT_RELA;
        let ent = self.word() * if rela { 3 } else { 2 };
        ensure!(s.entsize == ent as u64, "relocation sh_entsize {}", s.entsize);
        ensure!(s.data.len() % ent == 0, "relocation section size {}", s.data.len());
        let mut d = self.d(&s.data);
        let mut out = vec![];
        for _ in 0..s.data.len() / ent {
            let off = d.w().unwrap();
            let (sym, ty);
            if !self.is64 {
                let i = d.u32().unwrap();
                sym = i >> 8;
                ty = i & 0xff;
            } else if self.is_mips64el() {
                sym = d.u32().unwrap();
                ty = (d.u8().unwrap() as u32) << 24 | (d.u8().unwrap() as u32) << 16 | (d.u8().unwrap() as u32) << 8 | d.u8().unwrap() as u32;
            } else {
                let i = d.u64().unwrap();
                sym = (i >> 32) as u32;
                ty = i as u32;
            }
            let addend = if rela {
                let a = d.w().unwrap();
                if self.is64 { a as i64 } else { a as u32 as i32 as i64 }
            } else {
                0
            };
            out.push(Rel { off, sym, ty, addend });
        }
        Ok(out)
    }
}

pub fn sysv_hash(name: &[u8]) -> u32 {
    let mut h: u32 = 0;
    for &c in name {
        h = (h << 4).wrapping_add(c as u32);
        let x = h & 0xf000_0000;
        if x != 0 {
            h ^= x >> 24;
        }
        h &= !x;
    }
    h
}
pub fn gnu_hash(name: &[u8]) -> u32 {
    name.iter().fold(5381u32, |h, &c| h.wrapping_mul(33).wrapping_add(c as u32))
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug)]
pub struct SymTab {
    pub sec: usize,
    pub strs: usize,
    pub syms: Vec<Sym>,
    pub shndx: Option<usize>,
}
/// A generic image with arbitrary (not necessarily meaningful) sections, segments and symbol tables.
#[derive(Clone, Debug)]
pub struct General {
    pub img: Img,
    pub symtab: Option<SymTab>,
    pub dynsym: Option<SymTab>,
}

pub const MACHINES: &[u16] = &[
    62, 3, 183, 40, 8, 243, 21, 20, 22, 2, 18, 43, 258, 247, 4, 15, 50, 42, 94, 83, 105, 133, 164, 175, 252, 263, 0x9026, 0, 1, 7, 65, 1000, 0xffff,
];

/// Section names that collide, share suffixes or matter to the readers.
pub fn sec_name(g: &mut Gen) -> Vec<u8> {
    match g.upto(5) {
        0 => g.name(12),
        1 => g.pickc(&[".debug_info", ".zdebug_info", ".debug_line", ".zdebug_line", ".debug_", ".zdebug_", ".zdebug_abbrev", ".debug_abbrev"]).as_bytes().to_vec(),
        2 => vec![],
        _ => g.pickc(&[".text", ".data", ".bss", ".rodata", ".tdata", ".comment", ".rel.text", "text", ".note.x", ".init_array"]).as_bytes().to_vec(),
    }
}

pub fn gen_syms(g: &mut Gen, img: &mut Img, ty: u32, nsecs: usize, max: usize) -> SymTab {
    let n = g.len(max);
    let use_x = g.chance(1, 3);
    let mut t = StrTab::new(if g.chance(1, 6) { b"" } else { b"\0" }, g.bool());
    let mut syms = vec![];
    if n > 0 {
        syms.push(Sym::default());
    }
    for _ in 1..n {
        let name = match g.upto(5) {
            0 => vec![],
            1 => {
                let mut v = b"$".to_vec();
                v.extend(g.name(3));
                v
            }
            2 => g.pickc(&["main", "foo", "$a", "$d.1", "printf", "_x"]).as_bytes().to_vec(),
            _ => g.name(10),
        };
        let bind = g.pickc(&[0u8, 1, 2, 10, 13, 15]);
        let st = g.pickc(&[0u8, 1, 2, 3, 4, 5, 6, 10, 7, 13, 15]);
        let mut s = Sym {
            info: bind << 4 | st,
            other: if g.bool() { g.upto(3) as u8 } else { g.u8() },
            value: g.uint(img.wbits()),
            size: g.uint(img.wbits()),
            ..Sym::default()
        };
        s.shndx = match g.upto(6) {
            0 => 0,
            1 => SHN_ABS,
            2 => SHN_COMMON,
            3 if use_x => SHN_XINDEX,
            4 => g.pickc(&[0xff00u16, 0xff01, 0xfeff, 0xff20, 0xfff0, 0xfffe, 0xff3f]),
            _ => g.upto(nsecs as u64 + 2) as u16,
        };
        if s.shndx == SHN_XINDEX {
            s.xshndx = if g.bool() { g.upto(nsecs as u64) as u32 } else { g.u32() };
        }
        s.name = name;
        syms.push(s);
    }
    let r = if n > 0 { g.below(n) } else { 0 };
    for j in 0..syms.len() {
        let i = (j + r) % n;
        syms[i].name_off = if syms[i].name.is_empty() && t.v.first() == Some(&0) && g.bool() { 0 } else { t.add(&syms[i].name.clone()) };
    }
    let strs = img.add(if ty == SHT_SYMTAB { b".strtab" } else { b".dynstr" }, SHT_STRTAB, t.v);
    let mut b = img.b();
    for s in &syms {
        img.put_sym(&mut b, s);
    }
    let sec = img.add(if ty == SHT_SYMTAB { b".symtab" } else { b".dynsym" }, ty, b.v);
    img.secs[sec].link = strs as u32;
    img.secs[sec].info = 1;
    img.secs[sec].entsize = img.symsize() as u64;
    img.secs[sec].align = img.word() as u64;
    let mut shndx = None;
    if use_x {
        let mut b = img.b();
        for s in &syms {
            b.u32(s.xshndx);
        }
        let x = img.add(b".symtab_shndx", SHT_SYMTAB_SHNDX, b.v);
        img.secs[x].link = sec as u32;
        shndx = Some(x);
    }
    SymTab { sec, strs, syms, shndx }
}

pub fn gen_header(g: &mut Gen) -> Img {
    let mut m = Img::random(g);
    m.osabi = g.u8();
    m.abiver = g.u8();
    m.ety = g.pickc(&[1, 2, 3, 4, 0, 0xfe00, 0xffff]);
    m.machine = if g.chance(1, 12) { g.u16() } else { g.pickc(MACHINES) };
    m.version = if g.chance(1, 8) { g.u32() } else { 1 };
    m.entry = g.uint(m.wbits());
    m.flags = if g.chance(1, 4) { 0x20 | g.u32() } else { g.u32() };
    m
}

pub fn gen_general(g: &mut Gen) -> General {
    let mut m = gen_header(g);
    let mut symtab = None;
    let mut dynsym = None;
    if !g.chance(1, 15) {
        m.secs.push(Sec::default());
        let n = g.len(10);
        let order = g.upto(2);
        for _ in 0..n {
            let name = sec_name(g);
            let ty = match g.upto(7) {
                0..=2 => 1,
                3 => 8,
                // Types the reader interprets eagerly are placed by dedicated code only.
                4 => g.pickc(&[0u32, 5, 10, 12, 13, 14, 15, 16, 0x6ffffff5, 0x70000001, 0x6fff4700, 0x80000000, 19]),
                5 => 7,
                6 => 17,
                _ => 3,
            };
            let data = g.blob(40);
            let i = m.add(&name, ty, data);
            let wb = m.wbits();
            let s = &mut m.secs[i];
            s.flags = match g.upto(3) {
                0 => 0,
                1 => g.bits(wb),
                _ => g.bits(11) & 0x437,
            } & !SHF_COMPRESSED;
            s.addr = g.uint(wb);
            s.link = g.upto(12) as u32;
            s.info = g.upto(12) as u32;
            s.align = g.uint(wb);
            s.entsize = g.uint(wb);
            if ty == SHT_NOBITS {
                s.size = g.uint(wb);
                s.data.clear();
            }
        }
        let nsecs = m.secs.len() + 4;
        if order == 0 && g.chance(1, 2) {
            dynsym = Some(gen_syms(g, &mut m, SHT_DYNSYM, nsecs, 8));
        }
        if g.chance(4, 5) {
            symtab = Some(gen_syms(g, &mut m, SHT_SYMTAB, nsecs, 24));
        }
        if order > 0 && g.chance(1, 2) {
            dynsym = Some(gen_syms(g, &mut m, SHT_DYNSYM, nsecs, 8));
        }
        if g.chance(1, 8) {
            // Section names shared with the symbol string table style index anywhere.
            let i = m.add(b".shstr", SHT_STRTAB, vec![]);
            m.shstrndx = i;
            let k = m.add(b".last", 1, vec![1, 2, 3]);
            m.secs[k].align = 4;
        }
        m.names(g);
    }
    let np = g.len(6);
    for _ in 0..np {
        let ty = g.pickc(&[1u32, 1, 1, 2, 3, 4, 5, 6, 7, 0x6474e550, 0x6474e551, 0x70000000, 0]);
        let wb = m.wbits();
        m.segs.push(Seg {
            ty,
            flags: if g.bool() { g.upto(7) as u32 } else { g.u32() },
            off: 0,
            vaddr: g.uint(wb),
            paddr: g.uint(wb),
            filesz: 0,
            memsz: g.uint(wb),
            align: g.uint(wb),
        });
    }
    m.force_ext = g.chance(1, 6);
    m.layout(g);
    let mut end = m.ehsize() as u64;
    for s in &m.secs {
        if s.ty != SHT_NOBITS {
            end = end.max(s.off + s.data.len() as u64)
        }
    }
    for i in 0..m.segs.len() {
        let off = g.upto(end);
        m.segs[i].off = off;
        m.segs[i].filesz = g.upto(end - off);
    }
    General { img: m, symtab, dynsym }
}
