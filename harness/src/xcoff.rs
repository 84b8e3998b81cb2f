//! Independent XCOFF encoder, generator and strict parser.
use crate::b::*;
use crate::engine::*;
use crate::{ensure, must_some};

pub const STYP_TEXT: u32 = 0x20;
pub const STYP_DATA: u32 = 0x40;
pub const STYP_BSS: u32 = 0x80;
pub const STYP_TBSS: u32 = 0x800;
pub const STYP_DEBUG: u32 = 0x2000;
pub const STYP_OVRFLO: u32 = 0x8000;
pub const F_EXEC: u16 = 2;
pub const C_NULL: u8 = 0;
pub const C_EXT: u8 = 2;
pub const C_STAT: u8 = 3;
pub const C_FILE: u8 = 103;
pub const C_HIDEXT: u8 = 107;
pub const C_WEAKEXT: u8 = 111;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct XRel {
    pub addr: u64,
    pub sym: u32,
    pub size: u8,
    pub ty: u8,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XSec {
    pub raw_name: [u8; 8],
    pub paddr: u64,
    pub vaddr: u64,
    pub size: u64,
    pub ptr: u64,
    pub relptr: u64,
    pub lnnoptr: u64,
    pub nreloc: u32,
    pub nlnno: u32,
    pub flags: u32,
    pub data: Vec<u8>,
    pub rels: Vec<XRel>,
}
impl XSec {
    pub fn name(&self) -> &[u8] {
        let n = self.raw_name.iter().position(|&b| b == 0).unwrap_or(8);
        &self.raw_name[..n]
    }
    pub fn is_bss(&self) -> bool {
        self.flags & (STYP_BSS | STYP_TBSS) != 0
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Store {
    /// In the symbol if it fits, else in the string table.
    #[default]
    Auto,
    Table,
    /// In the .debug section.
    Debug,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XSym {
    pub name: Vec<u8>,
    pub store: Store,
    pub raw_name: [u8; 8],
    pub value: u64,
    pub sec: i16,
    pub ty: u16,
    pub class: u8,
    pub aux: Vec<[u8; 18]>,
    /// The file name in the first auxiliary entry.
    pub file: Option<Vec<u8>>,
    pub index: usize,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Csect {
    pub len: u64,
    pub parmhash: u32,
    pub snhash: u16,
    pub smtyp: u8,
    pub smclas: u8,
    pub stab: u32,
    pub snstab: u16,
}
impl Csect {
    pub fn encode(&self, is64: bool) -> [u8; 18] {
        let mut b = B::new(true, is64);
        b.u32(self.len as u32).u32(self.parmhash).u16(self.snhash).u8(self.smtyp).u8(self.smclas);
        if is64 {
            b.u32((self.len >> 32) as u32).u8(0).u8(251);
        } else {
            b.u32(self.stab).u16(self.snstab);
        }
        b.v.try_into().unwrap()
    }
}
impl XSym {
    pub fn linkage(&self) -> bool {
        matches!(self.class, C_EXT | C_WEAKEXT | C_HIDEXT)
    }
    /// The csect entry: the last auxiliary entry.
    pub fn csect(&self, is64: bool) -> Option<Csect> {
        if !self.linkage() {
            return None;
        }
        let a = self.aux.last()?;
        if is64 && a[17] != 251 {
            return None;
        }
        let mut d = D::new(true, is64, a);
        let mut c = Csect { len: d.u32()? as u64, parmhash: d.u32()?, snhash: d.u16()?, smtyp: d.u8()?, smclas: d.u8()?, ..Csect::default() };
        if is64 {
            c.len |= (d.u32()? as u64) << 32;
        } else {
            c.stab = d.u32()?;
            c.snstab = d.u16()?;
        }
        Some(c)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Xcoff {
    pub is64: bool,
    pub time: u32,
    pub flags: u16,
    /// Auxiliary header.
    pub opt: Vec<u8>,
    pub secs: Vec<XSec>,
    pub syms: Vec<XSym>,
    pub nsyms: u32,
    pub symptr: u64,
    /// No symbol table at all.
    pub stripped: bool,
    /// The string table is omitted if it is not needed.
    pub no_strtab: bool,
    pub strtab: Vec<u8>,
}

/// Sizes of the auxiliary headers.
pub fn opt_size(is64: bool) -> usize {
    if is64 { 120 } else { 72 }
}

impl Xcoff {
    pub fn index(&mut self) {
        let mut n = 0;
        for s in &mut self.syms {
            s.index = n;
            n += 1 + s.aux.len();
        }
        self.nsyms = n as u32;
    }
    /// Place names in the symbols, the string table and the debug section.
    fn strings(&mut self, g: &mut Gen) {
        let mut t = B::new(true, self.is64);
        t.u32(0);
        let mut dbg = B::new(true, self.is64);
        let is64 = self.is64;
        let share = g.bool();
        let mut seen: Vec<(Vec<u8>, u32)> = vec![];
        let mut add = |t: &mut B, n: &[u8], g: &mut Gen| -> u32 {
            if share {
                if let Some(e) = seen.iter().find(|e| e.0.ends_with(n)) {
                    return e.1 + (e.0.len() - n.len()) as u32;
                }
            }
            if g.chance(1, 8) {
                t.cstr(b"unused");
            }
            let o = t.len() as u32;
            t.cstr(n);
            seen.push((n.to_vec(), o));
            o
        };
        for s in &mut self.syms {
            let mut off = None;
            if let (Some(f), Some(a)) = (&s.file, s.aux.first_mut()) {
                let mut b = B::new(true, is64);
                if f.len() > 8 || f.is_empty() && g.bool() || s.store == Store::Table {
                    b.u32(0).u32(add(&mut t, f, g));
                } else {
                    b.fixed(f, 8);
                }
                a[..8].copy_from_slice(&b.v);
            }
            match s.store {
                Store::Auto if !is64 && s.name.len() <= 8 && !s.name.is_empty() => {
                    let mut b = B::new(true, false);
                    b.fixed(&s.name, 8);
                    s.raw_name.copy_from_slice(&b.v);
                }
                Store::Debug => {
                    // Null-terminated strings preceded by their length.
                    dbg.int(if is64 { 4 } else { 2 }, s.name.len() as u64 + 1);
                    off = Some(dbg.len() as u32);
                    dbg.cstr(&s.name);
                }
                _ => off = Some(add(&mut t, &s.name, g)),
            }
            if let Some(o) = off {
                s.raw_name = [0; 8];
                s.raw_name[4..].copy_from_slice(&o.to_be_bytes());
            }
        }
        let n = t.len();
        let n = if n == 4 && g.bool() { 0 } else { n };
        t.put(0, 4, n as u64);
        if self.no_strtab && n <= 4 {
            t.v.clear();
        }
        self.strtab = t.v;
        if let Some(s) = self.secs.iter_mut().find(|s| s.flags & STYP_DEBUG != 0) {
            s.data = dbg.v;
        }
    }
    pub fn emit(&mut self, g: &mut Gen) -> Vec<u8> {
        let is64 = self.is64;
        self.index();
        self.strings(g);
        let hdr = if is64 { 24 } else { 20 } + self.opt.len();
        let mut p = hdr + if is64 { 72 } else { 40 } * self.secs.len();
        let mut chunks: Vec<(usize, bool)> = vec![];
        for (i, s) in self.secs.iter_mut().enumerate() {
            if s.flags & STYP_OVRFLO != 0 {
                continue;
            }
            if !s.is_bss() {
                s.size = s.data.len() as u64;
                chunks.push((i, false));
            }
            if !s.rels.is_empty() {
                chunks.push((i, true));
            }
        }
        if g.bool() {
            for i in (1..chunks.len()).rev() {
                let j = g.below(i + 1);
                chunks.swap(i, j);
            }
        }
        if !self.stripped {
            let j = if self.strtab.is_empty() { chunks.len() } else { g.below(chunks.len() + 1) };
            chunks.insert(j, (usize::MAX, false));
        }
        let mut body: Vec<(usize, Vec<u8>)> = vec![];
        for (i, rel) in chunks {
            p += if g.bool() { 0 } else { g.upto(7) as usize };
            let mut b = B::new(true, is64);
            if i == usize::MAX {
                self.symptr = p as u64;
                for s in &self.syms {
                    if is64 {
                        b.u64(s.value).bytes(&s.raw_name[4..]);
                    } else {
                        b.bytes(&s.raw_name).u32(s.value as u32);
                    }
                    b.u16(s.sec as u16).u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
                    for a in &s.aux {
                        b.bytes(a);
                    }
                }
                b.bytes(&self.strtab);
            } else if rel {
                self.secs[i].relptr = p as u64;
                let n = self.secs[i].rels.len();
                self.secs[i].nreloc = n as u32;
                for r in &self.secs[i].rels {
                    b.w(r.addr).u32(r.sym).u8(r.size).u8(r.ty);
                }
                let o = self.secs.iter().position(|o| o.flags & STYP_OVRFLO != 0 && o.nreloc as usize == i + 1);
                if let (Some(o), false) = (o, is64) {
                    // The counts are in the overflow section.
                    let o = &mut self.secs[o];
                    o.paddr = n as u64;
                    o.relptr = p as u64;
                    self.secs[i].nreloc = 0xffff;
                    self.secs[i].nlnno = 0xffff;
                }
            } else {
                self.secs[i].ptr = p as u64;
                b.bytes(&self.secs[i].data);
            }
            let n = b.v.len();
            body.push((p, b.v));
            p += n;
        }
        let mut h = B::new(true, is64);
        h.u16(if is64 { 0x1f7 } else { 0x1df }).u16(self.secs.len() as u16).u32(self.time).w(self.symptr);
        if !is64 {
            h.u32(self.nsyms);
        }
        h.u16(self.opt.len() as u16).u16(self.flags);
        if is64 {
            h.u32(self.nsyms);
        }
        h.bytes(&self.opt);
        for s in &self.secs {
            let n = if is64 { 4 } else { 2 };
            h.bytes(&s.raw_name).w(s.paddr).w(s.vaddr).w(s.size).w(s.ptr).w(s.relptr).w(s.lnnoptr).int(n, s.nreloc as u64).int(n, s.nlnno as u64).u32(s.flags);
            if is64 {
                h.u32(0);
            }
        }
        h.v.resize(p, 0xa7);
        for (o, v) in body {
            h.v[o..o + v.len()].copy_from_slice(&v);
        }
        h.v
    }
}

pub fn gen_name(g: &mut Gen) -> Vec<u8> {
    match g.upto(4) {
        0 => g.pickc(&[".text", "main", ".main", "TOC", "_$STATIC", "printf", ".file"]).as_bytes().to_vec(),
        1 => {
            let n = g.range(7, 9);
            let mut v = g.name(n);
            v.resize(n, b'q');
            v
        }
        _ => g.name(20),
    }
}
pub const CLASSES: &[u8] = &[2, 111, 107, 3, 103, 100, 101, 110, 112, 128, 133, 129, 130, 140, 142, 143, 144, 0, 1, 6, 105, 108, 109, 145];

fn gen_sym(g: &mut Gen, is64: bool, nsecs: usize, has_debug: bool) -> XSym {
    let mut s = XSym { name: gen_name(g), class: if g.bool() { g.pickc(&[2, 111, 107]) } else { g.pickc(CLASSES) }, value: g.uint(if is64 { 64 } else { 32 }), ..XSym::default() };
    s.sec = match g.upto(4) {
        0 => g.pickc(&[-2i16, -1, 0, -3, i16::MIN]),
        _ => g.range(0, nsecs) as i16,
    };
    s.ty = g.pickc(&[0u16, 0x1000, 0x2000, 0x3000, 0x4000, 0x20, 0xffff]);
    if g.bool() {
        s.ty = g.u16();
    }
    if g.chance(1, 6) {
        s.store = Store::Table;
    }
    if s.class & 0x80 != 0 && has_debug && g.bool() {
        s.store = Store::Debug;
    } else if s.class & 0x80 != 0 {
        // Only inline names are not in the debug section.
        s.store = Store::Auto;
        s.name.truncate(8);
        if (is64 || s.name.is_empty()) && has_debug {
            s.store = Store::Debug;
        } else if s.name.is_empty() || is64 {
            s.class = 112;
        }
    }
    if s.linkage() {
        let n = g.pickc(&[1usize, 1, 1, 0, 2, 3]);
        for i in 0..n {
            if i + 1 == n {
                let c = Csect {
                    len: g.uint(if is64 { 64 } else { 32 }),
                    parmhash: g.u32(),
                    snhash: g.u16(),
                    smtyp: (g.pickc(&[0u8, 1, 2, 3, 1, 2, 4, 7])) | (g.u8() & 0xf8),
                    smclas: if g.chance(1, 8) { g.u8() } else { g.upto(23) as u8 },
                    stab: g.u32(),
                    snstab: g.u16(),
                };
                s.aux.push(c.encode(is64));
            } else {
                // A function or exception entry.
                let mut a: [u8; 18] = g.bytes(18).try_into().unwrap();
                a[17] = g.pickc(&[254, 255]);
                s.aux.push(a);
            }
        }
    } else if s.class == C_FILE {
        let n = g.pickc(&[1usize, 1, 0, 2, 3]);
        for i in 0..n {
            let mut a = [0u8; 18];
            a[14] = g.pickc(&[0u8, 1, 2, 128]);
            a[17] = if is64 { 252 } else { 0 };
            if i > 0 {
                a[..8].copy_from_slice(b"compiler");
            } else {
                s.file = Some(gen_name(g));
            }
            s.aux.push(a);
        }
    } else {
        for _ in 0..g.pickc(&[0usize, 0, 0, 1, 2]) {
            let mut a: [u8; 18] = g.bytes(18).try_into().unwrap();
            if is64 {
                a[17] = g.pickc(&[250, 253]);
            }
            s.aux.push(a);
        }
    }
    s
}

/// A well-formed file.
pub fn generate(g: &mut Gen) -> (Xcoff, Vec<u8>) {
    let is64 = g.bool();
    let mut x = Xcoff { is64, time: g.u32(), flags: g.pickc(&[0u16, 2, 0x2002, 0x2000, 1, 0x1003]), ..Xcoff::default() };
    if g.bool() {
        x.flags = x.flags & 0x2003 | g.u16() & !0x2003;
    }
    let n = match g.upto(3) {
        0 => 0,
        1 if !is64 => g.pickc(&[28usize, 8, 71]),
        1 => g.pickc(&[110usize, 8, 119, 121]),
        _ => opt_size(is64),
    };
    x.opt = g.bytes(n);
    if n == opt_size(is64) && g.bool() {
        // Plausible alignments.
        let p = if is64 { 44 } else { 44 };
        x.opt[p..p + 4].copy_from_slice(&[0, g.upto(12) as u8, 0, g.upto(12) as u8]);
    }
    let nsecs = g.len(6);
    let mut debug = None;
    for i in 0..nsecs {
        let mut s = XSec::default();
        let name = match g.upto(2) {
            0 => g.pickc(&[".text", ".data", ".bss", ".tdata", ".tbss", ".debug", ".dwinfo", ".loader", ".except"]).as_bytes().to_vec(),
            _ => g.name(8),
        };
        s.raw_name[..name.len()].copy_from_slice(&name);
        s.flags = g.pickc(&[0x20u32, 0x40, 0x80, 0x20, 0x40, 0x400, 0x800, 8, 0x10, 0x100, 0x200, 0x1000, 0x2000, 0x4000, 0]);
        if s.flags == STYP_DEBUG {
            if debug.is_some() {
                s.flags = STYP_DATA;
            } else {
                debug = Some(i);
            }
        }
        if g.chance(1, 4) {
            s.flags |= g.u32() << 16;
        }
        s.paddr = g.uint(if is64 { 63 } else { 31 });
        s.vaddr = if g.chance(1, 8) { g.uint(31) } else { s.paddr };
        s.nlnno = g.upto(3) as u32;
        s.lnnoptr = g.uint(20);
        if s.is_bss() {
            s.size = g.uint(if is64 { 64 } else { 32 });
        } else if s.flags & STYP_DEBUG == 0 {
            s.data = g.blob(40);
        }
        let many = !is64 && g.chance(1, 400);
        let n = if many { g.range(65533, 65540) } else { g.len(4) };
        for _ in 0..n {
            let sz = g.pickc(&[31u8, 63, 15, 25, 0x9f, 0x59]);
            s.rels.push(XRel {
                addr: s.paddr + g.uint(16),
                sym: g.uint(32) as u32,
                size: if g.chance(1, 5) { g.u8() } else { sz },
                ty: if g.chance(1, 5) { g.u8() } else { g.pickc(&[0u8, 1, 2, 3, 5, 6, 8, 0xa, 0xc, 0xd, 0xf, 0x12, 0x13, 0x18, 0x1a, 0x20, 0x21, 0x30, 0x31]) },
            });
        }
        x.secs.push(s);
    }
    if !is64 {
        for i in 0..nsecs {
            let n = x.secs[i].rels.len();
            // 65535 is the mark for an overflow section.
            if n >= 65535 {
                let mut s = XSec { flags: STYP_OVRFLO, nreloc: i as u32 + 1, nlnno: i as u32 + 1, ..XSec::default() };
                s.raw_name[..7].copy_from_slice(b".ovrflo");
                s.vaddr = x.secs[i].nlnno as u64;
                x.secs.push(s);
            }
        }
    }
    let n = x.secs.len();
    for _ in 0..g.len(8) {
        let s = gen_sym(g, is64, n, debug.is_some());
        x.syms.push(s);
    }
    if g.chance(1, 8) {
        x.stripped = true;
        x.syms.clear();
        if let Some(d) = debug {
            x.secs[d].data.clear();
        }
    }
    x.no_strtab = g.chance(1, 3);
    let v = x.emit(g);
    (x, v)
}

/// Strict parser: everything must lie in the file.
pub fn parse(v: &[u8]) -> R<Xcoff> {
    let bad = |m: String| Failure::from(format!("invalid XCOFF output: {m}"));
    let mut x = Xcoff::default();
    let m = D::new(true, false, v).u16();
    x.is64 = match m {
        Some(0x1df) => false,
        Some(0x1f7) => true,
        _ => return Err(bad(format!("magic {m:x?}"))),
    };
    let is64 = x.is64;
    let d = D::new(true, is64, v);
    let mut h = d.at(2);
    let mut rd = || -> Option<u16> {
        let n = h.u16()?;
        x.time = h.u32()?;
        x.symptr = h.w()?;
        if !is64 {
            x.nsyms = h.u32()?;
        }
        let o = h.u16()?;
        x.flags = h.u16()?;
        if is64 {
            x.nsyms = h.u32()?;
        }
        x.opt = h.bytes(o as usize)?.to_vec();
        Some(n)
    };
    let n = rd().ok_or(bad("header".into()))?;
    for i in 0..n {
        let mut s = XSec::default();
        let mut rd = || -> Option<()> {
            s.raw_name.copy_from_slice(h.bytes(8)?);
            s.paddr = h.w()?;
            s.vaddr = h.w()?;
            s.size = h.w()?;
            s.ptr = h.w()?;
            s.relptr = h.w()?;
            s.lnnoptr = h.w()?;
            let k = if is64 { 4 } else { 2 };
            s.nreloc = h.int(k)? as u32;
            s.nlnno = h.int(k)? as u32;
            s.flags = h.u32()?;
            if is64 {
                h.u32()?;
            }
            Some(())
        };
        rd().ok_or(bad(format!("section header {i}")))?;
        if !s.is_bss() && s.size != 0 {
            s.data = must_some!(d.at(s.ptr as usize).bytes(s.size as usize), "section {i} data").to_vec();
        } else {
            ensure!(s.ptr == 0, "section {i} has no data but an offset");
        }
        ensure!(is64 || s.nreloc != 0xffff, "section {i} overflows the relocation count");
        let mut r = d.at(s.relptr as usize);
        for j in 0..s.nreloc {
            let mut rd = || Some(XRel { addr: r.w()?, sym: r.u32()?, size: r.u8()?, ty: r.u8()? });
            s.rels.push(must_some!(rd(), "section {i} relocation {j}"));
        }
        x.secs.push(s);
    }
    let end = x.symptr as usize + x.nsyms as usize * 18;
    let len = must_some!(d.at(end).u32(), "string table") as usize;
    ensure!(len >= 4, "string table length {len}");
    x.strtab = must_some!(d.at(end).bytes(len), "string table of length {len}").to_vec();
    let str_at = |r: &[u8]| -> R<Vec<u8>> {
        if r.len() == 8 && r[..4] != [0; 4] || r == [0; 8] {
            let n = r.iter().position(|&b| b == 0).unwrap_or(8);
            ensure!(r[n..].iter().all(|&b| b == 0), "name {r:?} is not padded with nulls");
            return Ok(r[..n].to_vec());
        }
        let o = u32::from_be_bytes(r[r.len() - 4..].try_into().unwrap());
        if o == 0 {
            return Ok(vec![]);
        }
        ensure!(o >= 4, "name offset {o}");
        Ok(must_some!(cstr_at(&x.strtab, o as usize), "name offset {o}").to_vec())
    };
    let mut r = d.at(x.symptr as usize);
    let mut i = 0;
    let mut syms = vec![];
    while i < x.nsyms as usize {
        let mut s = XSym { index: i, ..XSym::default() };
        let mut rd = || -> Option<()> {
            if is64 {
                s.value = r.u64()?;
                s.raw_name[4..].copy_from_slice(r.bytes(4)?);
            } else {
                s.raw_name.copy_from_slice(r.bytes(8)?);
                s.value = r.u32()? as u64;
            }
            s.sec = r.u16()? as i16;
            s.ty = r.u16()?;
            s.class = r.u8()?;
            for _ in 0..r.u8()? {
                s.aux.push(r.bytes(18)?.try_into().unwrap());
            }
            Some(())
        };
        rd().ok_or(bad(format!("symbol {i}")))?;
        i += 1 + s.aux.len();
        s.name = str_at(if is64 { &s.raw_name[4..] } else { &s.raw_name })?;
        if s.class == C_FILE && !s.aux.is_empty() {
            s.file = Some(str_at(&s.aux[0][..8])?);
        }
        syms.push(s);
    }
    x.syms = syms;
    ensure!(i == x.nsyms as usize, "auxiliary records beyond the symbol table");
    Ok(x)
}
