//! Independent Mach-O encoder.
use crate::b::*;
use crate::engine::Gen;

pub const LC_SEGMENT: u32 = 1;
pub const LC_SEGMENT_64: u32 = 0x19;
pub const LC_SYMTAB: u32 = 2;
pub const LC_DYSYMTAB: u32 = 0xb;
pub const LC_UNIXTHREAD: u32 = 5;
pub const LC_UUID: u32 = 0x1b;
pub const LC_BUILD_VERSION: u32 = 0x32;
pub const LC_MAIN: u32 = 0x8000_0028;
pub const REQ: u32 = 0x8000_0000;
pub const DYLIBS: [u32; 5] = [0xc, 0x18 | REQ, 0x1f | REQ, 0x20, 0x23 | REQ];
pub const LINKEDIT: [u32; 8] = [0x1d, 0x1e, 0x26, 0x29, 0x2b, 0x2e, 0x33 | REQ, 0x34 | REQ];

pub const X86: u32 = 7;
pub const X86_64: u32 = 0x0100_0007;
pub const ARM: u32 = 12;
pub const ARM64: u32 = 0x0100_000c;
pub const ARM64_32: u32 = 0x0200_000c;
pub const PPC: u32 = 18;
pub const PPC64: u32 = 0x0100_0012;
pub const MIPS: u32 = 8;

#[derive(Clone, Debug, Default)]
pub struct Sect {
    pub name: Vec<u8>,
    pub seg: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    pub offset: u64,
    pub align: u32,
    pub reloff: u32,
    pub flags: u32,
    pub r1: u32,
    pub r2: u32,
    pub r3: u32,
    /// File contents; `None` for zero fill sections and sections outside the file.
    pub data: Option<Vec<u8>>,
    pub rels: Vec<(u32, u32)>,
}
impl Sect {
    pub fn zerofill(&self) -> bool {
        matches!(self.flags & 0xff, 1 | 0xc | 0x12)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub name: Vec<u8>,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub sects: Vec<Sect>,
}
#[derive(Clone, Debug, Default)]
pub struct Nl {
    pub name: Vec<u8>,
    pub strx: u32,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
#[derive(Clone, Debug)]
pub enum Lc {
    Seg(usize),
    Symtab,
    Dysymtab,
    /// Command, body after the 8 byte header, and offsets in the body that hold
    /// the file offset of a blob: (offset in the body, blob index).
    Raw(u32, Vec<u8>, Vec<(usize, usize)>),
}
#[derive(Clone, Debug, Default)]
pub struct Mo {
    pub be: bool,
    pub is64: bool,
    pub cputype: u32,
    pub cpusubtype: u32,
    pub filetype: u32,
    pub flags: u32,
    pub reserved: u32,
    pub cmds: Vec<Lc>,
    pub segs: Vec<Seg>,
    pub syms: Vec<Nl>,
    pub indirect: Vec<u32>,
    pub strtab: Vec<u8>,
    pub blobs: Vec<Vec<u8>>,
    pub blob_off: Vec<u32>,
    pub symoff: u32,
    pub stroff: u32,
    pub indoff: u32,
    /// Other words of LC_DYSYMTAB (18 of them, indirectsymoff and nindirectsyms are filled in).
    pub dysym: Vec<u32>,
    /// For linked images, the page size: segments with contents are then mapped.
    pub page: usize,
    /// Encoded load commands, with their offset in the file.
    pub enc: Vec<(u32, u64, Vec<u8>)>,
}

impl Mo {
    pub fn b(&self) -> B {
        B::new(self.be, self.is64)
    }
    pub fn hdr(&self) -> usize {
        if self.is64 { 32 } else { 28 }
    }
    pub fn sects(&self) -> Vec<&Sect> {
        self.cmds
            .iter()
            .filter_map(|c| if let Lc::Seg(i) = c { Some(&self.segs[*i]) } else { None })
            .flat_map(|s| s.sects.iter())
            .collect()
    }
    pub fn segs_in_order(&self) -> Vec<&Seg> {
        self.cmds.iter().filter_map(|c| if let Lc::Seg(i) = c { Some(&self.segs[*i]) } else { None }).collect()
    }
    fn encode_cmd(&self, c: &Lc) -> (u32, Vec<u8>) {
        let mut b = self.b();
        let cmd = match c {
            Lc::Seg(i) => {
                let s = &self.segs[*i];
                b.fixed(&s.name, 16).w(s.vmaddr).w(s.vmsize).w(s.fileoff).w(s.filesize);
                b.u32(s.maxprot).u32(s.initprot).u32(s.sects.len() as u32).u32(s.flags);
                for x in &s.sects {
                    b.fixed(&x.name, 16).fixed(&x.seg, 16).w(x.addr).w(x.size).u32(x.offset as u32).u32(x.align);
                    b.u32(x.reloff).u32(x.rels.len() as u32).u32(x.flags).u32(x.r1).u32(x.r2);
                    if self.is64 {
                        b.u32(x.r3);
                    }
                }
                if self.is64 { LC_SEGMENT_64 } else { LC_SEGMENT }
            }
            Lc::Symtab => {
                b.u32(self.symoff).u32(self.syms.len() as u32).u32(self.stroff).u32(self.strtab.len() as u32);
                LC_SYMTAB
            }
            Lc::Dysymtab => {
                for i in 0..18 {
                    let x = match i {
                        12 => self.indoff,
                        13 => self.indirect.len() as u32,
                        i => self.dysym.get(i).copied().unwrap_or(0),
                    };
                    b.u32(x);
                }
                LC_DYSYMTAB
            }
            Lc::Raw(cmd, body, fix) => {
                b.bytes(body);
                for &(o, i) in fix {
                    b.put(o, 4, self.blob_off.get(i).copied().unwrap_or(0) as u64);
                }
                *cmd
            }
        };
        let a = if self.is64 { 8 } else { 4 };
        let mut out = self.b();
        let size = (b.len() + 8).next_multiple_of(a);
        out.u32(cmd).u32(size as u32).bytes(&b.v).align(a);
        (cmd, out.v)
    }
    pub fn cmds_size(&self) -> usize {
        self.cmds.iter().map(|c| self.encode_cmd(c).1.len()).sum()
    }
    /// Lay out the file. Section contents are placed segment by segment in command order; segments
    /// with file contents cover them. With `linked` the first non-empty segment also covers the header.
    pub fn encode(&mut self, g: &mut Gen) -> Vec<u8> {
        let base = self.hdr() + self.cmds_size();
        let mut b = self.b();
        b.zeros(base);
        let pad = |b: &mut B, g: &mut Gen, a: usize| {
            b.align(a);
            if g.chance(1, 4) {
                let n = a * g.range(1, 3);
                b.zeros(n);
            }
        };
        let mut mapped = false;
        let order: Vec<usize> = self.cmds.iter().filter_map(|c| if let Lc::Seg(i) = c { Some(*i) } else { None }).collect();
        for i in order {
            let mut seg = std::mem::take(&mut self.segs[i]);
            if self.page > 0 {
                if seg.sects.iter().any(|s| s.data.is_some()) {
                    let start = if mapped { b.len().next_multiple_of(self.page) } else { 0 };
                    mapped = true;
                    for s in &mut seg.sects {
                        if let Some(d) = &s.data {
                            s.offset = start as u64 + (s.addr - seg.vmaddr);
                            assert!(s.offset as usize >= b.len());
                            b.v.resize(s.offset as usize, 0);
                            b.bytes(d);
                        }
                    }
                    b.align(self.page);
                    seg.fileoff = start as u64;
                    seg.filesize = (b.len() - start) as u64;
                }
                self.segs[i] = seg;
                continue;
            }
            pad(&mut b, g, 4);
            let start = b.len();
            for s in &mut seg.sects {
                if let Some(d) = &s.data {
                    pad(&mut b, g, 1 << s.align.min(4));
                    s.offset = b.len() as u64;
                    b.bytes(d);
                }
            }
            if seg.filesize == 0 && seg.fileoff == 0 {
                seg.fileoff = start as u64;
                seg.filesize = (b.len() - start) as u64;
                if seg.filesize > 0 && g.chance(1, 3) {
                    let n = g.range(1, 40);
                    b.zeros(n);
                    seg.filesize += g.upto(n as u64);
                }
            }
            self.segs[i] = seg;
        }
        let linkedit = b.len();
        let n = self.segs.len();
        for i in 0..n {
            for j in 0..self.segs[i].sects.len() {
                if self.segs[i].sects[j].rels.is_empty() {
                    if g.chance(1, 4) {
                        let n = b.len() as u32;
                        self.segs[i].sects[j].reloff = n;
                    }
                    continue;
                }
                pad(&mut b, g, 4);
                self.segs[i].sects[j].reloff = b.len() as u32;
                for (x, y) in &self.segs[i].sects[j].rels {
                    b.u32(*x).u32(*y);
                }
            }
        }
        let mut blobs: Vec<usize> = (0..self.blobs.len()).collect();
        for i in (1..blobs.len()).rev() {
            let j = g.below(i + 1);
            blobs.swap(i, j);
        }
        self.blob_off = vec![0; self.blobs.len()];
        for i in blobs {
            pad(&mut b, g, 8);
            self.blob_off[i] = b.len() as u32;
            b.bytes(&self.blobs[i]);
        }
        pad(&mut b, g, 8);
        self.symoff = b.len() as u32;
        for s in &self.syms {
            b.u32(s.strx).u8(s.ty).u8(s.sect).u16(s.desc).w(s.value);
        }
        pad(&mut b, g, 4);
        self.indoff = b.len() as u32;
        for i in &self.indirect {
            b.u32(*i);
        }
        pad(&mut b, g, 1);
        self.stroff = b.len() as u32;
        b.bytes(&self.strtab);
        if self.page > 0 {
            if let Some(s) = self.segs.iter_mut().find(|s| s.name == b"__LINKEDIT") {
                s.fileoff = linkedit as u64;
                s.filesize = (b.len() - linkedit) as u64;
                s.vmsize = s.filesize.next_multiple_of(self.page as u64);
            }
        }
        let mut h = self.b();
        let encs: Vec<_> = self.cmds.iter().map(|c| self.encode_cmd(c)).collect();
        let total: usize = encs.iter().map(|x| x.1.len()).sum();
        assert_eq!(total + self.hdr(), base);
        h.u32(if self.is64 { 0xfeed_facf } else { 0xfeed_face }).u32(self.cputype).u32(self.cpusubtype).u32(self.filetype);
        h.u32(encs.len() as u32).u32(total as u32).u32(self.flags);
        if self.is64 {
            h.u32(self.reserved);
        }
        self.enc.clear();
        for (c, e) in encs {
            self.enc.push((c, h.len() as u64, e.clone()));
            h.bytes(&e);
        }
        b.v[..base].copy_from_slice(&h.v);
        b.v
    }
    pub fn str_cmd(&self, prefix: &[u32], s: &[u8]) -> Vec<u8> {
        let mut b = self.b();
        b.u32((8 + 4 + 4 * prefix.len()) as u32);
        for p in prefix {
            b.u32(*p);
        }
        b.cstr(s);
        b.v
    }
}

/// A plain relocation entry.
pub fn rel(be: bool, addr: u32, sym: u32, pcrel: bool, len: u8, ext: bool, ty: u8) -> (u32, u32) {
    let (s, p, l, e, t) = (sym & 0xff_ffff, pcrel as u32, (len & 3) as u32, ext as u32, (ty & 15) as u32);
    let w = if be { s << 8 | p << 7 | l << 5 | e << 4 | t } else { s | p << 24 | l << 25 | e << 27 | t << 28 };
    (addr, w)
}
/// A scattered relocation entry.
pub fn scattered(addr: u32, pcrel: bool, len: u8, ty: u8, value: u32) -> (u32, u32) {
    (1 << 31 | (pcrel as u32) << 30 | ((len & 3) as u32) << 28 | ((ty & 15) as u32) << 24 | addr & 0xff_ffff, value)
}

const SEG_NAMES: [&str; 10] = ["__TEXT", "__DATA", "__LINKEDIT", "__PAGEZERO", "__DATA_CONST", "__DWARF", "__LLVM", "__TEXTX", "__IMPORT", "0123456789abcdef"];
const SECT_NAMES: [&str; 16] = [
    "__text", "__data", "__const", "__bss", "__cstring", "__debug_info", "__debug_str_offs", "__zdebug_info", "__eh_frame", "__stubs", "__la_symbol_ptr", "__nl_symbol_ptr", "__thread_vars", ".text", "0123456789abcdef", "__swift5_types",
];

pub fn gen_header(g: &mut Gen) -> Mo {
    let cpu = g.pickc(&[X86, X86_64, ARM, ARM64, ARM64_32, PPC, PPC64, MIPS, 0x0100_0008]);
    let wide = cpu & 0x0100_0000 != 0;
    let is64 = if g.chance(1, 6) { g.bool() } else { wide };
    let be = if g.chance(1, 3) { g.bool() } else { matches!(cpu & 0xffffff, 18 | 8) };
    Mo {
        be,
        is64,
        cputype: if g.chance(1, 20) { g.u32() } else { cpu },
        cpusubtype: if g.chance(1, 3) { g.pickc(&[2, 0x8000_0002, 3, 0x8000_0003, 0x0200_0002]) } else { g.u32() },
        filetype: if g.chance(1, 12) { g.upto(0x10) as u32 } else { g.pickc(&[1, 1, 1, 2, 2, 4, 6, 8]) },
        flags: g.u32(),
        reserved: g.u32(),
        ..Default::default()
    }
}

pub fn gen_sect_flags(g: &mut Gen) -> u32 {
    let ty = if g.chance(1, 10) { g.upto(255) as u32 } else { g.upto(0x16) as u32 };
    let attr = match g.below(6) {
        0 | 1 => 0,
        2 => 0x8000_0400,
        3 => 0x0200_0000,
        4 => 1 << g.range(8, 31),
        _ => g.u32() & !0xff,
    };
    ty | attr
}

/// Fill in segments and sections. For an object file there is a single segment
/// most of the time, as specified.
pub fn gen_segments(g: &mut Gen, m: &mut Mo, outside: bool) {
    let object = m.filetype == 1;
    let nseg = if object && g.chance(5, 6) { 1 } else { g.range(0, 5) };
    for i in 0..nseg {
        let mut s = Seg {
            name: if object && i == 0 { vec![] } else { g.pick(&SEG_NAMES).as_bytes().to_vec() },
            vmaddr: g.uint(if m.is64 { 64 } else { 32 }) >> 1,
            vmsize: g.uint(if m.is64 { 64 } else { 32 }) >> 1,
            fileoff: 0,
            filesize: 0,
            maxprot: g.upto(7) as u32 | if g.chance(1, 8) { g.u32() } else { 0 },
            initprot: g.upto(7) as u32 | if g.chance(1, 8) { g.u32() } else { 0 },
            flags: g.pickc(&[0, 0, 1, 4, 8, 0x10, 0x11, 0xffff_ffef]),
            sects: vec![],
        };
        if g.chance(1, 8) {
            s.name = g.name(16);
            s.name.truncate(16);
        }
        let n = g.len(5);
        let mut addr = s.vmaddr & 0xffff_ffff;
        for _ in 0..n {
            let flags = gen_sect_flags(g);
            let mut x = Sect {
                name: if g.chance(1, 5) { g.name(16) } else { g.pick(&SECT_NAMES).as_bytes().to_vec() },
                seg: if object || g.chance(1, 10) { g.pick(&SEG_NAMES).as_bytes().to_vec() } else { s.name.clone() },
                align: if g.chance(1, 12) { g.pickc(&[12, 31, 32, 63, 64, 0xffff_ffff]) } else { g.upto(4) as u32 },
                flags,
                r1: g.upto(6) as u32,
                r2: g.pickc(&[0, 0, 1, 4, 6, 8, 16]),
                r3: g.u32(),
                ..Default::default()
            };
            x.name.truncate(16);
            addr = addr.wrapping_add(g.upto(0x40)) & if m.is64 { !0 >> 1 } else { 0xffff_fff };
            x.addr = addr;
            if x.zerofill() {
                x.size = g.uint(if m.is64 { 64 } else { 32 }) >> 2;
                x.offset = if g.bool() { 0 } else { g.u32() as u64 };
            } else if outside && g.chance(1, 4) {
                x.size = 1 + g.upto(0xffff);
                x.offset = g.range64(1 << 24, 0xffff_ffff);
                addr = addr.wrapping_add(x.size);
            } else {
                let d = g.blob(64);
                x.size = d.len() as u64;
                x.data = Some(d);
                addr = addr.wrapping_add(x.size);
            }
            s.sects.push(x);
        }
        if outside && g.chance(1, 4) {
            s.fileoff = g.range64(1 << 24, 0x7fff_ffff);
            s.filesize = g.range64(1, 0x7fff_ffff);
        }
        m.segs.push(s);
        m.cmds.push(Lc::Seg(i));
    }
}

pub fn gen_rels(g: &mut Gen, m: &mut Mo) {
    let (be, cpu) = (m.be, m.cputype);
    for s in &mut m.segs {
        for x in &mut s.sects {
            if g.chance(1, 2) {
                continue;
            }
            for _ in 0..g.len(6) {
                let addr = g.upto(64) as u32;
                let addr = if g.chance(1, 12) { g.u32() } else { addr };
                if g.chance(1, 8) {
                    let r = scattered(addr, g.bool(), g.upto(3) as u8, g.upto(15) as u8, g.u32());
                    x.rels.push(if cpu == X86_64 { (r.0 & 0x7fff_ffff, r.1) } else { r });
                    continue;
                }
                let addr = if cpu == X86_64 { addr } else { addr & 0x7fff_ffff };
                let ty = if g.chance(1, 3) { g.pickc(&[0, 1, 2, 10]) } else { g.upto(15) as u8 };
                let sym = match g.below(5) {
                    0 => 0,
                    1 => g.upto(0xff_ffff) as u32,
                    2 => 0x80_0000 | g.upto(3) as u32,
                    _ => g.upto(8) as u32,
                };
                x.rels.push(rel(be, addr, sym, g.bool(), g.upto(3) as u8, g.bool(), ty));
            }
        }
    }
}

pub fn gen_syms(g: &mut Gen, m: &mut Mo, max: usize) {
    let n = g.len(max);
    let nsect = m.sects().len();
    let mut t = StrTab::new(if g.chance(1, 5) { b"" } else if g.bool() { b"\0" } else { b" \0" }, g.bool());
    for _ in 0..n {
        let mut y = Nl {
            name: match g.below(8) {
                0 => format!("ltmp{}", g.upto(20)).into_bytes(),
                1 => g.pick(&[&b"ltmp"[..], b"ltmp1a", b"", b"/a/b.o", b"/a/l.a(b.o)"]).to_vec(),
                _ => g.name(20),
            },
            strx: 0,
            ty: 0,
            sect: 0,
            desc: if g.bool() { 0 } else { g.u16() },
            value: if g.chance(1, 3) { 0 } else { g.uint(if m.is64 { 64 } else { 32 }) },
        };
        y.strx = t.add(&y.name);
        if g.chance(1, 5) {
            y.ty = if g.bool() { g.pickc(&[0x20, 0x24, 0x26, 0x2e, 0x64, 0x66, 0xe0, 0xff]) } else { 0x20 | g.u8() };
            y.sect = g.u8();
        } else {
            y.ty = g.pickc(&[0, 0, 2, 0xc, 0xa, 0xe, 0xe, 0xe, 0xe, 4, 6, 8]) | g.pickc(&[0, 1, 1, 0x10, 0x11]);
            if y.ty & 0xe == 0xe {
                y.sect = if g.chance(1, 10) { g.u8() } else { g.range(1, nsect.clamp(1, 255)) as u8 };
                if g.chance(1, 3) && y.sect > 0 {
                    if let Some(s) = m.sects().get(y.sect as usize - 1) {
                        y.value = s.addr;
                    }
                }
            } else if g.chance(1, 8) {
                y.sect = g.u8();
            }
        }
        m.syms.push(y);
    }
    if g.chance(1, 4) {
        t.v.extend_from_slice(&[0; 3]);
    }
    m.strtab = t.v;
    if n > 0 || g.bool() {
        m.cmds.push(Lc::Symtab);
    }
    m.indirect = (0..g.len(8)).map(|_| if g.chance(1, 5) { g.pickc(&[0x8000_0000, 0x4000_0000, 0xc000_0000]) } else { g.upto(n as u64) as u32 }).collect();
    m.dysym = (0..18).map(|_| g.upto(9) as u32).collect();
    if !m.indirect.is_empty() || g.bool() {
        m.cmds.push(Lc::Dysymtab);
    }
}
