//! Independent COFF object encoder, generator and strict parser.
use crate::b::*;
use crate::engine::*;
use crate::{ensure, must_some};

pub const CLASS_ID: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
pub const MACHINES: &[u16] = &[0x8664, 0x14c, 0x1c4, 0xaa64, 0xa641, 0x1f0, 0x1f1, 0x1f2];
pub const SCN_CODE: u32 = 0x20;
pub const SCN_INIT: u32 = 0x40;
pub const SCN_UNINIT: u32 = 0x80;
pub const SCN_INFO: u32 = 0x200;
pub const SCN_REMOVE: u32 = 0x800;
pub const SCN_COMDAT: u32 = 0x1000;
pub const SCN_NRELOC_OVFL: u32 = 0x0100_0000;
pub const SCN_DISCARDABLE: u32 = 0x0200_0000;
pub const SCN_EXECUTE: u32 = 0x2000_0000;
pub const SCN_READ: u32 = 0x4000_0000;
pub const SCN_WRITE: u32 = 0x8000_0000;
pub const C_EXTERNAL: u8 = 2;
pub const C_STATIC: u8 = 3;
pub const C_LABEL: u8 = 6;
pub const C_FUNCTION: u8 = 101;
pub const C_FILE: u8 = 103;
pub const C_SECTION: u8 = 104;
pub const C_WEAK: u8 = 105;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CRel {
    pub off: u32,
    pub sym: u32,
    pub ty: u16,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CSec {
    pub name: Vec<u8>,
    pub raw_name: [u8; 8],
    pub vsize: u32,
    pub vaddr: u32,
    pub raw_size: u32,
    pub raw_off: u32,
    pub rel_off: u32,
    pub line_off: u32,
    pub nrel: u16,
    pub nline: u16,
    pub chars: u32,
    pub data: Vec<u8>,
    pub rels: Vec<CRel>,
    /// Names of up to eight bytes are put in the string table too.
    pub long: bool,
    /// Use the base-64 form for the string table offset.
    pub b64: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CSym {
    pub name: Vec<u8>,
    pub raw_name: [u8; 8],
    pub value: u32,
    pub sec: i32,
    pub ty: u16,
    pub class: u8,
    pub aux: Vec<Vec<u8>>,
    pub long: bool,
    /// Index in the symbol table, counting auxiliary records.
    pub index: usize,
}
impl CSym {
    pub fn has_aux_section(&self) -> bool {
        !self.aux.is_empty() && self.class == C_STATIC && self.ty == 0
    }
    pub fn has_aux_function(&self) -> bool {
        !self.aux.is_empty() && self.ty >> 4 & 3 == 2 && (self.class == C_EXTERNAL || self.class == C_STATIC)
    }
    pub fn d(&self) -> D<'_> {
        D::new(false, false, &self.aux[0])
    }
}
#[derive(Clone, Debug, Default)]
pub struct Coff {
    pub big: bool,
    pub version: u16,
    pub machine: u16,
    pub time: u32,
    pub chars: u16,
    pub opt: Vec<u8>,
    pub secs: Vec<CSec>,
    pub syms: Vec<CSym>,
    pub sym_off: u32,
    pub nsyms: u32,
    pub no_symtab: bool,
    pub strtab: Vec<u8>,
}

/// Auxiliary section definition record.
pub fn aux_section(len: u32, nrel: u16, nline: u16, sum: u32, number: u32, sel: u8, size: usize, big: bool) -> Vec<u8> {
    let mut b = B::new(false, false);
    b.u32(len).u16(nrel).u16(nline).u32(sum).u16(number as u16).u8(sel).u8(0).u16(if big { (number >> 16) as u16 } else { 0 });
    b.v.resize(size, 0);
    b.v
}

impl Coff {
    pub fn symsize(&self) -> usize {
        if self.big { 20 } else { 18 }
    }
    pub fn index(&mut self) {
        let mut n = 0;
        for s in &mut self.syms {
            s.index = n;
            n += 1 + s.aux.len();
        }
        self.nsyms = n as u32;
    }
    pub fn vaddrs(&self) -> Vec<u32> {
        self.secs.iter().map(|s| s.vaddr).collect()
    }
    pub fn strings(&mut self, g: &mut Gen) -> StrTab {
        let mut t = StrTab::with_length(g.bool());
        for s in &mut self.secs {
            s.raw_name = [0; 8];
            if s.name.len() > 8 || s.long || s.name.first() == Some(&b'/') {
                let o = t.add(&s.name);
                let txt = if s.b64 || o > 9_999_999 {
                    let c = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                    let mut v = b"//".to_vec();
                    for i in (0..6).rev() {
                        v.push(c[(o as u64 >> (6 * i)) as usize & 63]);
                    }
                    v
                } else {
                    format!("/{o}").into_bytes()
                };
                s.raw_name[..txt.len()].copy_from_slice(&txt);
            } else {
                s.raw_name[..s.name.len()].copy_from_slice(&s.name);
            }
        }
        for s in &mut self.syms {
            s.raw_name = [0; 8];
            if s.name.len() > 8 || s.long || s.name.is_empty() {
                let o = t.add(&s.name);
                s.raw_name[4..].copy_from_slice(&o.to_le_bytes());
            } else {
                s.raw_name[..s.name.len()].copy_from_slice(&s.name);
            }
        }
        let n = t.v.len() as u32;
        t.v[..4].copy_from_slice(&n.to_le_bytes());
        t
    }
    pub fn emit(&mut self, g: &mut Gen) -> Vec<u8> {
        self.index();
        let t = self.strings(g);
        self.strtab = t.v;
        let hdr = if self.big { 56 } else { 20 + self.opt.len() };
        let mut p = hdr + 40 * self.secs.len();
        // Chunks: (section, is relocations) or the symbol table.
        let mut chunks: Vec<(usize, bool)> = vec![];
        for i in 0..self.secs.len() {
            if self.secs[i].chars & SCN_UNINIT == 0 {
                chunks.push((i, false));
                let n = self.secs[i].data.len() as u32;
                self.secs[i].raw_size = n;
            }
            if !self.secs[i].rels.is_empty() {
                chunks.push((i, true));
            }
        }
        if !self.no_symtab {
            chunks.push((usize::MAX, false));
        }
        if g.bool() {
            for i in (1..chunks.len()).rev() {
                let j = g.below(i + 1);
                chunks.swap(i, j);
            }
        }
        let mut body: Vec<(usize, Vec<u8>)> = vec![];
        for (i, rel) in chunks {
            p += if g.bool() { 0 } else { g.upto(7) as usize };
            let mut b = B::new(false, false);
            if i == usize::MAX {
                self.sym_off = p as u32;
                for s in &self.syms {
                    b.bytes(&s.raw_name).u32(s.value);
                    if self.big {
                        b.u32(s.sec as u32);
                    } else {
                        b.u16(s.sec as u16);
                    }
                    b.u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
                    for a in &s.aux {
                        b.fixed(a, self.symsize());
                    }
                }
                b.bytes(&self.strtab);
            } else if rel {
                let s = &mut self.secs[i];
                s.rel_off = p as u32;
                let n = s.rels.len();
                if n > 0xffff || n == 0xffff && g.bool() {
                    s.chars |= SCN_NRELOC_OVFL;
                    s.nrel = 0xffff;
                    b.u32(n as u32 + 1).u32(g.u32()).u16(g.u16());
                } else {
                    s.nrel = n as u16;
                }
                for r in &s.rels {
                    b.u32(r.off).u32(r.sym).u16(r.ty);
                }
            } else {
                self.secs[i].raw_off = p as u32;
                b.bytes(&self.secs[i].data);
            }
            let n = b.v.len();
            body.push((p, b.v));
            p += n;
        }
        let mut h = B::new(false, false);
        if self.big {
            h.u16(0).u16(0xffff).u16(self.version).u16(self.machine).u32(self.time).bytes(&CLASS_ID).u32(g.u32()).u32(g.u32()).u32(0).u32(0);
            h.u32(self.secs.len() as u32).u32(self.sym_off).u32(self.nsyms);
        } else {
            h.u16(self.machine).u16(self.secs.len() as u16).u32(self.time).u32(self.sym_off).u32(self.nsyms).u16(self.opt.len() as u16).u16(self.chars);
            h.bytes(&self.opt);
        }
        for s in &self.secs {
            h.bytes(&s.raw_name).u32(s.vsize).u32(s.vaddr).u32(s.raw_size).u32(s.raw_off).u32(s.rel_off).u32(s.line_off).u16(s.nrel).u16(s.nline).u32(s.chars);
        }
        h.v.resize(p, 0xa7);
        for (o, v) in body {
            h.v[o..o + v.len()].copy_from_slice(&v);
        }
        h.v
    }
}

/// Strict parser: everything must lie in the file.
pub fn parse(v: &[u8]) -> R<Coff> {
    let bad = |m: String| Failure::from(format!("invalid COFF output: {m}"));
    let d = D::new(false, false, v);
    let mut c = Coff::default();
    let mut h = d;
    let mut rd = || -> Option<usize> {
        let m = h.u16()?;
        let n = h.u16()?;
        if m == 0 && n == 0xffff {
            c.big = true;
            c.version = h.u16()?;
            c.machine = h.u16()?;
            c.time = h.u32()?;
            if h.bytes(16)? != CLASS_ID {
                return None;
            }
            h.bytes(16)?;
            let n = h.u32()?;
            c.sym_off = h.u32()?;
            c.nsyms = h.u32()?;
            return Some(n as usize);
        }
        c.machine = m;
        c.time = h.u32()?;
        c.sym_off = h.u32()?;
        c.nsyms = h.u32()?;
        let o = h.u16()?;
        c.chars = h.u16()?;
        c.opt = h.bytes(o as usize)?.to_vec();
        Some(n as usize)
    };
    let nsec = rd().ok_or(bad("header".into()))?;
    let symsize = if c.big { 20 } else { 18 };
    let strs: &[u8] = if c.sym_off != 0 {
        let o = c.sym_off as usize + c.nsyms as usize * symsize;
        let n = d.at(o).u32().ok_or(bad("string table".into()))? as usize;
        ensure!(n >= 4, "string table length {n}");
        v.get(o..o + n).ok_or(bad("string table length".into()))?
    } else {
        &[]
    };
    c.strtab = strs.to_vec();
    for i in 0..nsec {
        let mut s = CSec::default();
        let mut rd = || -> Option<()> {
            s.raw_name.copy_from_slice(h.bytes(8)?);
            s.vsize = h.u32()?;
            s.vaddr = h.u32()?;
            s.raw_size = h.u32()?;
            s.raw_off = h.u32()?;
            s.rel_off = h.u32()?;
            s.line_off = h.u32()?;
            s.nrel = h.u16()?;
            s.nline = h.u16()?;
            s.chars = h.u32()?;
            Some(())
        };
        rd().ok_or(bad(format!("section header {i}")))?;
        let end = s.raw_name.iter().position(|&b| b == 0).unwrap_or(8);
        let n = &s.raw_name[..end];
        s.name = n.to_vec();
        if n.first() == Some(&b'/') {
            let o = if n.get(1) == Some(&b'/') {
                ensure!(n.len() == 8, "base-64 section name {n:?}");
                let mut o = 0u64;
                for &b in &n[2..] {
                    let x = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|&x| x == b);
                    o = o * 64 + must_some!(x, "base-64 section name {n:?}") as u64;
                }
                o
            } else {
                let t = std::str::from_utf8(&n[1..]).ok().and_then(|x| x.parse().ok());
                must_some!(t, "section name {n:?}")
            };
            ensure!(o >= 4, "section name offset {o}");
            s.name = must_some!(cstr_at(strs, o as usize), "section name offset {o}").to_vec();
        }
        if s.chars & SCN_UNINIT == 0 && s.raw_size != 0 {
            s.data = must_some!(d.at(s.raw_off as usize).bytes(s.raw_size as usize), "section {i} data").to_vec();
        }
        let mut p = s.rel_off as usize;
        let mut n = s.nrel as usize;
        if s.chars & SCN_NRELOC_OVFL != 0 {
            ensure!(s.nrel == 0xffff, "overflow flag with {} relocations", s.nrel);
            n = must_some!(d.at(p).u32(), "section {i} relocation count") as usize;
            ensure!(n > 0xffff, "overflow flag with {n} relocations");
            n -= 1;
            p += 10;
        }
        let mut r = d.at(p);
        for j in 0..n {
            let mut rd = || Some(CRel { off: r.u32()?, sym: r.u32()?, ty: r.u16()? });
            s.rels.push(must_some!(rd(), "section {i} relocation {j}"));
        }
        c.secs.push(s);
    }
    let mut i = 0;
    let mut r = d.at(c.sym_off as usize);
    while i < c.nsyms as usize {
        let mut s = CSym { index: i, ..CSym::default() };
        let big = c.big;
        let mut rd = || -> Option<()> {
            s.raw_name.copy_from_slice(r.bytes(8)?);
            s.value = r.u32()?;
            s.sec = if big { r.u32()? as i32 } else { let x = r.u16()?; if x >= 0xff00 { x as i16 as i32 } else { x as i32 } };
            s.ty = r.u16()?;
            s.class = r.u8()?;
            for _ in 0..r.u8()? {
                s.aux.push(r.bytes(symsize)?.to_vec());
            }
            Some(())
        };
        rd().ok_or(bad(format!("symbol {i}")))?;
        i += 1 + s.aux.len();
        if s.raw_name[..4] == [0; 4] {
            let o = u32::from_le_bytes(s.raw_name[4..].try_into().unwrap());
            ensure!(o >= 4, "symbol name offset {o}");
            s.name = must_some!(cstr_at(strs, o as usize), "symbol name offset {o}").to_vec();
        } else {
            let end = s.raw_name.iter().position(|&b| b == 0).unwrap_or(8);
            s.name = s.raw_name[..end].to_vec();
        }
        c.syms.push(s);
    }
    ensure!(i == c.nsyms as usize, "auxiliary records beyond the symbol table");
    Ok(c)
}

/// kind, encoding, size, addend: K/E names as strings to stay independent of the crate's types.
pub type Meaning = (&'static str, &'static str, u8, i64);
pub const UNKNOWN: Meaning = ("Unknown", "Unknown", 0, 0);
pub const RELOCS: &[(&[u16], u16, Meaning)] = &[
    (&[0x1c4], 1, ("Absolute", "Generic", 32, 0)),
    (&[0x1c4], 2, ("ImageOffset", "Generic", 32, 0)),
    (&[0x1c4], 0xa, ("Relative", "Generic", 32, -4)),
    (&[0x1c4], 0xe, ("SectionIndex", "Generic", 16, 0)),
    (&[0x1c4], 0xf, ("SectionOffset", "Generic", 32, 0)),
    (&[0xaa64, 0xa641], 1, ("Absolute", "Generic", 32, 0)),
    (&[0xaa64, 0xa641], 2, ("ImageOffset", "Generic", 32, 0)),
    (&[0xaa64, 0xa641], 3, ("Relative", "AArch64Call", 26, 0)),
    (&[0xaa64, 0xa641], 8, ("SectionOffset", "Generic", 32, 0)),
    (&[0xaa64, 0xa641], 0xd, ("SectionIndex", "Generic", 16, 0)),
    (&[0xaa64, 0xa641], 0xe, ("Absolute", "Generic", 64, 0)),
    (&[0xaa64, 0xa641], 0x11, ("Relative", "Generic", 32, -4)),
    (&[0x14c], 1, ("Absolute", "Generic", 16, 0)),
    (&[0x14c], 2, ("Relative", "Generic", 16, 0)),
    (&[0x14c], 6, ("Absolute", "Generic", 32, 0)),
    (&[0x14c], 7, ("ImageOffset", "Generic", 32, 0)),
    (&[0x14c], 0xa, ("SectionIndex", "Generic", 16, 0)),
    (&[0x14c], 0xb, ("SectionOffset", "Generic", 32, 0)),
    (&[0x14c], 0xd, ("SectionOffset", "Generic", 7, 0)),
    (&[0x14c], 0x14, ("Relative", "Generic", 32, -4)),
    (&[0x8664], 1, ("Absolute", "Generic", 64, 0)),
    (&[0x8664], 2, ("Absolute", "Generic", 32, 0)),
    (&[0x8664], 3, ("ImageOffset", "Generic", 32, 0)),
    (&[0x8664], 4, ("Relative", "Generic", 32, -4)),
    (&[0x8664], 5, ("Relative", "Generic", 32, -5)),
    (&[0x8664], 6, ("Relative", "Generic", 32, -6)),
    (&[0x8664], 7, ("Relative", "Generic", 32, -7)),
    (&[0x8664], 8, ("Relative", "Generic", 32, -8)),
    (&[0x8664], 9, ("Relative", "Generic", 32, -9)),
    (&[0x8664], 0xa, ("SectionIndex", "Generic", 16, 0)),
    (&[0x8664], 0xb, ("SectionOffset", "Generic", 32, 0)),
    (&[0x8664], 0xc, ("SectionOffset", "Generic", 7, 0)),
];
pub fn meaning(machine: u16, ty: u16) -> Meaning {
    RELOCS.iter().find(|r| r.0.contains(&machine) && r.1 == ty).map_or(UNKNOWN, |r| r.2)
}

pub fn gen_name(g: &mut Gen) -> Vec<u8> {
    match g.upto(6) {
        0 => g.pickc(&[".text", ".data", ".debug_info", ".rdata$zz", ".xdata", ".text$mn", "/4", "//AAAAAA", ".bss"]).as_bytes().to_vec(),
        1 => {
            let mut v = g.name(8);
            v.resize(8, b'z');
            v
        }
        2 => {
            let mut v = g.name(9);
            v.resize(9, b'z');
            v
        }
        3 => g.name(30),
        _ => g.name(8),
    }
}

pub fn gen_coff(g: &mut Gen) -> Coff {
    let mut c = Coff { big: g.chance(1, 3), time: g.u32(), ..Coff::default() };
    c.version = if g.chance(1, 4) { 2 + g.upto(0xfffd) as u16 } else { 2 };
    c.machine = if g.chance(1, 10) { g.u16() } else { g.pickc(MACHINES) };
    if !c.big && c.machine == 0 {
        c.machine = 0x8664;
    }
    c.chars = g.u16();
    if !c.big && g.chance(1, 4) {
        c.opt = g.blob(64);
    }
    c.no_symtab = g.chance(1, 12);
    let ns = g.len(8);
    for _ in 0..ns {
        let mut s = CSec { name: gen_name(g), long: g.chance(1, 6), b64: g.chance(1, 4), ..CSec::default() };
        if s.name.is_empty() || c.no_symtab {
            s.long = false;
        }
        if c.no_symtab {
            s.name.truncate(8);
            if s.name[0] == b'/' {
                s.name[0] = b'.';
            }
        }
        s.chars = if g.bool() {
            g.u32()
        } else {
            g.pickc(&[0x60000020u32, 0xc0000040, 0x40000040, 0xc0000080, 0x42000040, 0xa00, 0x60001020, 0]) | g.upto(15) as u32 * 0x100000
        };
        s.chars &= !SCN_NRELOC_OVFL;
        s.vsize = g.u32();
        s.vaddr = g.u32();
        s.line_off = g.u32();
        s.nline = g.u16();
        if s.chars & SCN_UNINIT == 0 {
            s.data = g.blob(50);
        } else {
            s.raw_size = g.u32();
            s.raw_off = g.u32();
        }
        let nr = if g.chance(1, 2) { 0 } else { g.len(6) };
        for _ in 0..nr {
            let ty = if g.chance(1, 4) { g.u16() } else { g.upto(0x18) as u16 };
            s.rels.push(CRel { off: g.u32(), sym: if g.chance(1, 5) { g.u32() } else { g.upto(20) as u32 }, ty });
        }
        if s.rels.is_empty() {
            s.rel_off = g.u32();
        }
        c.secs.push(s);
    }
    if !c.no_symtab {
        c.syms = gen_syms(g, ns, c.big);
    }
    c
}

/// Symbols for an object with `ns` sections.
pub fn gen_syms(g: &mut Gen, ns: usize, big: bool) -> Vec<CSym> {
    let mut syms = vec![];
    let n = g.len(16);
    let sz = if big { 20 } else { 18 };
    for _ in 0..n {
        let mut y = CSym { name: gen_name(g), long: g.chance(1, 6), value: g.u32(), ..CSym::default() };
        if g.chance(1, 20) {
            y.name.clear();
        }
        y.ty = g.pickc(&[0u16, 0, 0x20, 0x20, 0x30, 0x10, 4, 0x24, 0x1234]);
        y.class = g.pickc(&[C_EXTERNAL, C_STATIC, C_STATIC, C_LABEL, C_FILE, C_SECTION, C_WEAK, C_FUNCTION, 0, 255, 100, 104]);
        y.sec = match g.upto(7) {
            0 => 0,
            1 => -1,
            2 => -2,
            3 => g.pickc(&[-3i32, -0x100, 0xfeff, 0x7fff]),
            4 if big => g.u32() as i32,
            _ => g.upto(ns as u64 + 1) as i32,
        };
        if !big && y.sec > 0xfeff {
            y.sec = 1;
        }
        if g.bool() && y.class == C_EXTERNAL {
            y.value = 0;
        }
        let na = match g.upto(3) {
            0 => 0,
            1 | 2 => 1,
            _ => g.len(4),
        };
        if y.class == C_FILE && na > 0 {
            let nm = g.name(na * sz);
            let mut v = nm;
            v.resize(na * sz, 0);
            y.aux = v.chunks(sz).map(|c| c.to_vec()).collect();
        } else if y.class == C_STATIC && y.ty == 0 && na > 0 {
            let number = if big && g.chance(1, 4) { g.u32() } else { g.upto(ns as u64 + 1) as u32 };
            let sel = g.pickc(&[0u8, 1, 2, 3, 4, 5, 5, 6, 7, 255]);
            y.aux.push(aux_section(g.u32(), g.u16(), g.u16(), g.u32(), number, sel, sz, big));
            for _ in 1..na {
                y.aux.push(g.bytes(sz));
            }
        } else {
            for _ in 0..na {
                y.aux.push(g.bytes(sz));
            }
        }
        syms.push(y);
    }
    syms
}
