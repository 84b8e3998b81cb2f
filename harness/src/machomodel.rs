//! Model of a Mach-O file, with an encoder and a strict decoder of its own.
use crate::b::*;
use crate::engine::*;
use crate::macho::*;
use crate::{ensure, ensure_eq, fail, must_some};

pub const INDR: u8 = 0xa;
pub const SECT: u8 = 0xe;
/// Stabs that name a section.
pub const STAB_SECT: [u8; 12] = [0x24, 0x26, 0x28, 0x2e, 0x44, 0x4e, 0x64, 0x84, 0xa4, 0xe4, 0xe8, 0x24];
pub const LC_DYLD_INFO_ONLY: u32 = 0x22 | REQ;
pub const LC_ID_DYLIB: u32 = 0xd;
pub const LC_CODE_SIGNATURE: u32 = 0x1d;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tgt {
    Sym(usize),
    Sec(usize),
    /// Anything else in `r_symbolnum`.
    Val(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub addr: u32,
    pub t: Tgt,
    pub pcrel: bool,
    pub len: u8,
    pub ty: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ind {
    Sym(usize),
    Flags(u32),
}
#[derive(Clone, Debug, Default)]
pub struct MSec {
    pub del: bool,
    pub name: Vec<u8>,
    pub seg: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    pub align: u32,
    pub flags: u32,
    pub stub: u32,
    pub data: Option<Vec<u8>>,
    pub rels: Vec<MRel>,
    pub ind: Vec<Ind>,
}
impl MSec {
    pub fn entry(&self, is64: bool) -> u64 {
        match self.flags & 0xff {
            6 | 7 | 0x10 | 0x14 => if is64 { 8 } else { 4 },
            8 => self.stub as u64,
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        self.data.as_ref().map_or(self.size, |d| d.len() as u64)
    }
}
#[derive(Clone, Debug, Default)]
pub struct MSeg {
    pub del: bool,
    pub name: Vec<u8>,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub secs: Vec<usize>,
    /// Range in the file, after decoding.
    pub file: (u64, u64),
}
#[derive(Clone, Debug, Default)]
pub struct MSym {
    pub del: bool,
    pub name: Vec<u8>,
    pub ty: u8,
    pub sec: Option<usize>,
    pub nsect: u8,
    pub desc: u16,
    pub value: u64,
    pub indr: Option<Vec<u8>>,
}
impl MSym {
    pub fn stab(&self) -> bool {
        self.ty & 0xe0 != 0
    }
    /// 0 for local, 1 for defined external and 2 for undefined symbols.
    pub fn group(&self) -> u8 {
        if !self.stab() && self.ty & 0xe == 0 {
            2
        } else if !self.stab() && self.ty & 0x11 == 1 {
            1
        } else {
            0
        }
    }
    fn has_sec(ty: u8) -> bool {
        if ty & 0xe0 != 0 { STAB_SECT.contains(&ty) } else { ty & 0xe == SECT }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MLib {
    pub del: bool,
    pub cmd: u32,
    pub name: Vec<u8>,
    pub ts: u32,
    pub cur: u32,
    pub compat: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Seg(usize),
    Symtab,
    Dysymtab,
    Link(u32, Vec<u8>),
    Info(Vec<Vec<u8>>),
    Build(u32, u32, u32, Vec<(u32, u32)>),
    Lib(usize),
    Id(MLib),
    Other(u32, Vec<u8>),
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub be: bool,
    pub is64: bool,
    pub cpu: u32,
    pub sub: u32,
    pub ft: u32,
    pub flags: u32,
    pub cmds: Vec<Cmd>,
    pub segs: Vec<MSeg>,
    pub secs: Vec<MSec>,
    pub syms: Vec<MSym>,
    pub libs: Vec<MLib>,
}

fn trim(v: &[u8]) -> Vec<u8> {
    let n = v.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
    v[..n].to_vec()
}

impl Model {
    pub fn object(&self) -> bool {
        self.ft == 1
    }
    pub fn hdr(&self) -> usize {
        if self.is64 { 32 } else { 28 }
    }
    /// Relocations that belong together: pairs are one operation.
    pub fn groups(&self, rels: &[MRel]) -> Vec<usize> {
        let mut out = vec![];
        let (mut id, mut open) = (0, false);
        for (i, r) in rels.iter().enumerate() {
            let pair = matches!(self.cpu, X86 | ARM | PPC | PPC64) && r.ty == 1;
            if i > 0 && !open && !pair {
                id += 1;
            }
            open = match self.cpu {
                X86_64 => r.ty == 5,
                ARM64 | ARM64_32 => r.ty == 1 || r.ty == 10,
                _ => false,
            };
            out.push(id);
        }
        out
    }
    /// What refers to deleted items goes as well.
    pub fn delete_orphans(&mut self) {
        for s in &mut self.segs {
            if !s.secs.is_empty() {
                s.secs.retain(|i| !self.secs[*i].del);
                if s.secs.is_empty() {
                    s.del = true;
                }
            }
        }
        for y in &mut self.syms {
            if y.sec.is_some_and(|i| self.secs[i].del) {
                y.del = true;
            }
        }
        for i in 0..self.secs.len() {
            let g = self.groups(&self.secs[i].rels);
            let dead: Vec<usize> = self.secs[i]
                .rels
                .iter()
                .zip(&g)
                .filter(|(r, _)| match r.t {
                    Tgt::Sym(i) => self.syms[i].del,
                    Tgt::Sec(i) => self.secs[i].del,
                    Tgt::Val(_) => false,
                })
                .map(|x| *x.1)
                .collect();
            let mut k = 0;
            self.secs[i].rels.retain(|_| {
                k += 1;
                !dead.contains(&g[k - 1])
            });
        }
        let (segs, libs) = (&self.segs, &self.libs);
        self.cmds.retain(|c| match c {
            Cmd::Seg(i) => !segs[*i].del,
            Cmd::Lib(i) => !libs[*i].del,
            _ => true,
        });
    }
    fn sym_map(&self) -> (Vec<usize>, Vec<Option<usize>>) {
        let mut order: Vec<usize> = (0..self.syms.len()).filter(|i| !self.syms[*i].del).collect();
        order.sort_by_key(|i| {
            let y = &self.syms[*i];
            (y.group(), if y.group() == 0 { vec![] } else { y.name.clone() })
        });
        let mut map = vec![None; self.syms.len()];
        for (k, i) in order.iter().enumerate() {
            map[*i] = Some(k);
        }
        (order, map)
    }
    /// The model without deleted items, numbered as in the file.
    pub fn compact(&self) -> Model {
        let mut m = self.clone();
        m.delete_orphans();
        let mut out = Model { cmds: vec![], segs: vec![], secs: vec![], syms: vec![], libs: vec![], ..m.clone() };
        let mut secmap = vec![None; m.secs.len()];
        for c in &m.cmds {
            out.cmds.push(match c {
                Cmd::Seg(i) => {
                    let mut s = m.segs[*i].clone();
                    for j in &mut s.secs {
                        secmap[*j] = Some(out.secs.len());
                        out.secs.push(m.secs[*j].clone());
                        *j = out.secs.len() - 1;
                    }
                    out.segs.push(s);
                    Cmd::Seg(out.segs.len() - 1)
                }
                Cmd::Lib(i) => {
                    out.libs.push(m.libs[*i].clone());
                    Cmd::Lib(out.libs.len() - 1)
                }
                c => c.clone(),
            });
        }
        let (order, symmap) = m.sym_map();
        out.syms = order.iter().map(|i| m.syms[*i].clone()).collect();
        for y in &mut out.syms {
            y.sec = y.sec.and_then(|i| secmap[i]);
            if let Some(i) = y.sec {
                y.nsect = i as u8 + 1;
            }
        }
        for s in &mut out.secs {
            for r in &mut s.rels {
                r.t = match r.t {
                    Tgt::Sym(i) => Tgt::Sym(symmap[i].unwrap_or(0)),
                    Tgt::Sec(i) => Tgt::Sec(secmap[i].unwrap_or(0)),
                    t => t,
                };
            }
            for i in &mut s.ind {
                if let Ind::Sym(k) = i {
                    *k = symmap[*k].unwrap_or(usize::MAX);
                }
            }
        }
        if out.object() && out.segs.len() == 1 {
            let mut at: u128 = 0;
            for zero in [false, true] {
                for i in 0..out.secs.len() {
                    let s = &mut out.secs[i];
                    if s.data.is_none() == zero {
                        let a = at.max(s.addr as u128).next_multiple_of(1 << s.align.min(63));
                        at = a + s.size() as u128;
                        let delta = (a as u64).wrapping_sub(s.addr);
                        s.addr = a as u64;
                        for y in &mut out.syms {
                            if y.sec == Some(i) {
                                y.value = y.value.wrapping_add(delta) & if self.is64 { u64::MAX } else { 0xffff_ffff };
                            }
                        }
                    }
                }
            }
            out.segs[0].vmsize = at.min(u64::MAX as u128) as u64;
        }
        out
    }
    /// Why the (compact) model has no file.
    pub fn problem(&self, orig: &Model) -> Option<&'static str> {
        let mut o = orig.clone();
        o.delete_orphans();
        if o.segs.iter().enumerate().any(|(i, s)| !s.del && !o.cmds.contains(&Cmd::Seg(i))) {
            return Some("segment without a command");
        }
        if o.libs.iter().enumerate().any(|(i, s)| !s.del && !o.cmds.contains(&Cmd::Lib(i))) {
            return Some("dylib without a command");
        }
        if o.secs.iter().enumerate().any(|(i, s)| !s.del && !o.segs.iter().any(|p| !p.del && p.secs.contains(&i))) {
            return Some("section without a segment");
        }
        if self.cmds.iter().filter(|c| matches!(c, Cmd::Link(LC_CODE_SIGNATURE, _))).count() > 1 {
            return Some("two code signatures");
        }
        if self.secs.len() > 255 {
            return Some("too many sections");
        }
        if !self.syms.is_empty() && !self.cmds.contains(&Cmd::Symtab) {
            return Some("symbols without a command");
        }
        if self.secs.iter().any(|s| s.ind.iter().any(|i| *i == Ind::Sym(usize::MAX))) {
            return Some("indirect symbol deleted");
        }
        let max = if self.is64 { u64::MAX } else { u32::MAX as u64 };
        if self.secs.iter().any(|s| s.align > if self.is64 { 63 } else { 32 }) && self.object() {
            return Some("alignment");
        }
        if self.object() {
            if self.segs.len() != 1 || !self.segs[0].name.is_empty() || self.segs[0].vmaddr != 0 {
                return Some("not one unnamed segment");
            }
            let mut at: u128 = 0;
            for zero in [false, true] {
                for s in self.secs.iter().filter(|s| s.data.is_none() == zero) {
                    at = at.max(s.addr as u128 + s.size() as u128);
                }
            }
            if at > max as u128 {
                return Some("address overflow");
            }
            let mut size = 0u128;
            for s in self.secs.iter().filter(|s| s.data.is_some()) {
                size = size.next_multiple_of(1 << s.align) + s.size() as u128;
            }
            // The sink refuses large files.
            if size > 1 << 26 {
                return Some("file size overflow");
            }
            return None;
        }
        let mut at: u128 = 0;
        let mut first = true;
        for p in &self.segs {
            if (p.vmaddr as u128) < at {
                return Some("segments not in order");
            }
            at = p.vmaddr as u128;
            for i in &p.secs {
                let s = &self.secs[*i];
                if (s.addr as u128) < at {
                    return Some("sections not in order");
                }
                at = s.addr as u128 + s.size() as u128;
                if !s.rels.is_empty() {
                    return Some("relocations");
                }
                if first && s.data.is_some() {
                    first = false;
                    if s.addr < p.vmaddr + self.to_mo().cmds_size() as u64 + self.hdr() as u64 {
                        return Some("no space for the headers");
                    }
                }
            }
            if (p.vmaddr as u128 + p.vmsize as u128) < at {
                return Some("sections outside the segment");
            }
            at = p.vmaddr as u128 + p.vmsize as u128;
        }
        if at > max as u128 {
            return Some("address overflow");
        }
        None
    }

    /// The model is compact.
    pub fn to_mo(&self) -> Mo {
        let mut mo = Mo { be: self.be, is64: self.is64, cputype: self.cpu, cpusubtype: self.sub, filetype: self.ft, flags: self.flags, ..Default::default() };
        for p in &self.segs {
            let mut sects = vec![];
            for i in &p.secs {
                let s = &self.secs[*i];
                let rels = s
                    .rels
                    .iter()
                    .map(|r| {
                        let (ext, num) = match r.t {
                            Tgt::Sym(i) => (true, i as u32),
                            Tgt::Sec(i) => (false, i as u32 + 1),
                            Tgt::Val(v) => (false, v),
                        };
                        rel(self.be, r.addr, num, r.pcrel, r.len, ext, r.ty)
                    })
                    .collect();
                sects.push(Sect {
                    name: s.name.clone(),
                    seg: s.seg.clone(),
                    addr: s.addr,
                    size: s.size(),
                    align: s.align,
                    flags: s.flags,
                    r1: if s.ind.is_empty() { 0 } else { mo.indirect.len() as u32 },
                    r2: s.stub,
                    data: s.data.clone(),
                    rels,
                    ..Default::default()
                });
                mo.indirect.extend(s.ind.iter().map(|i| match i {
                    Ind::Sym(i) => *i as u32,
                    Ind::Flags(f) => *f,
                }));
            }
            mo.segs.push(Seg {
                name: p.name.clone(),
                vmaddr: p.vmaddr,
                vmsize: p.vmsize,
                maxprot: p.maxprot,
                initprot: p.initprot,
                flags: p.flags,
                sects,
                ..Default::default()
            });
        }
        let count = |k| self.syms.iter().filter(|y| y.group() == k).count() as u32;
        let (l, e, u) = (count(0), count(1), count(2));
        mo.dysym = vec![0, l, l, e, l + e, u];
        for c in &self.cmds {
            let mut b = mo.b();
            let lib = |l: &MLib| mo.str_cmd(&[l.ts, l.cur, l.compat], &l.name);
            let c = match c {
                Cmd::Seg(i) => Lc::Seg(*i),
                Cmd::Symtab => Lc::Symtab,
                Cmd::Dysymtab => Lc::Dysymtab,
                Cmd::Link(c, d) => {
                    b.u32(0).u32(d.len() as u32);
                    mo.blobs.push(d.clone());
                    Lc::Raw(*c, b.v, vec![(0, mo.blobs.len() - 1)])
                }
                Cmd::Info(d) => {
                    let mut fix = vec![];
                    for (i, d) in d.iter().enumerate() {
                        b.u32(0).u32(d.len() as u32);
                        if !d.is_empty() {
                            mo.blobs.push(d.clone());
                            fix.push((8 * i, mo.blobs.len() - 1));
                        }
                    }
                    Lc::Raw(LC_DYLD_INFO_ONLY, b.v, fix)
                }
                Cmd::Build(p, m, s, t) => {
                    b.u32(*p).u32(*m).u32(*s).u32(t.len() as u32);
                    for t in t {
                        b.u32(t.0).u32(t.1);
                    }
                    Lc::Raw(LC_BUILD_VERSION, b.v, vec![])
                }
                Cmd::Lib(i) => Lc::Raw(self.libs[*i].cmd, lib(&self.libs[*i]), vec![]),
                Cmd::Id(l) => Lc::Raw(LC_ID_DYLIB, lib(l), vec![]),
                Cmd::Other(c, d) => Lc::Raw(*c, d.clone(), vec![]),
            };
            mo.cmds.push(c);
        }
        mo
    }
    pub fn encode(&self, g: &mut Gen, page: usize) -> Vec<u8> {
        let mut mo = self.to_mo();
        mo.page = page;
        let mut t = StrTab::new(if g.bool() { b"\0" } else { b" \0" }, g.bool());
        t.skip = t.v.len() - 1;
        for y in &self.syms {
            let mut value = y.value;
            let strx = t.add(&y.name);
            if let Some(n) = &y.indr {
                value = t.add(n) as u64;
            }
            mo.syms.push(Nl { name: y.name.clone(), strx, ty: y.ty, sect: y.nsect, desc: y.desc, value });
        }
        if g.chance(1, 4) {
            t.v.extend_from_slice(&[0; 3]);
        }
        mo.strtab = t.v;
        mo.encode(g)
    }
}

/// Strict decoder: everything refers to places inside the file, and nothing overlaps.
pub fn decode(v: &[u8]) -> R<Model> {
    decode_with(v, true)
}
/// Without `strict`, relocatable segments may have more in the file than in memory.
pub fn decode_with(v: &[u8], strict: bool) -> R<Model> {
    let magic = must_some!(v.get(..4), "magic");
    let (be, is64) = match magic {
        [0xfe, 0xed, 0xfa, 0xce] => (true, false),
        [0xfe, 0xed, 0xfa, 0xcf] => (true, true),
        [0xce, 0xfa, 0xed, 0xfe] => (false, false),
        [0xcf, 0xfa, 0xed, 0xfe] => (false, true),
        m => fail!("magic {m:x?}"),
    };
    let d = D::new(be, is64, v);
    let mut m = Model { be, is64, ..Default::default() };
    let mut h = d.at(4);
    let mut word = || h.u32();
    let (Some(cpu), Some(sub), Some(ft), Some(ncmds), Some(size), Some(flags)) = (word(), word(), word(), word(), word(), word()) else { fail!("header") };
    (m.cpu, m.sub, m.ft, m.flags) = (cpu, sub, ft, flags);
    let end = m.hdr() + size as usize;
    ensure!(end <= v.len(), "commands of {size:#x} bytes outside the file");
    let mut at = m.hdr();
    let mut used: Vec<(u64, u64, String)> = vec![(0, end as u64, "headers".into())];
    let mut symtab = None;
    let mut dysym: Option<Vec<u32>> = None;
    let mut inds: Vec<(usize, u32)> = vec![];
    let mut relocs: Vec<(usize, u32, u32)> = vec![];
    macro_rules! get {
        ($e:expr, $($t:tt)*) => { must_some!($e, $($t)*) };
    }
    for n in 0..ncmds {
        let mut c = d.at(at);
        let (cmd, len) = (get!(c.u32(), "command {n}"), get!(c.u32(), "command {n}") as usize);
        ensure!(len >= 8 && len % (if is64 { 8 } else { 4 }) == 0 && at + len <= end, "command {n} at {at:#x} has {len:#x} bytes");
        let body = &v[at + 8..at + len];
        let mut c = D::new(be, is64, body);
        let ctx = format!("command {n} ({cmd:#x})");
        let blob = |c: &mut D, used: &mut Vec<(u64, u64, String)>| -> R<Vec<u8>> {
            let (o, s) = (must_some!(c.u32(), "{ctx}") as usize, must_some!(c.u32(), "{ctx}") as usize);
            if s == 0 {
                return Ok(vec![]);
            }
            used.push((o as u64, s as u64, format!("blob of {ctx}")));
            Ok(must_some!(v.get(o..o + s), "{ctx}: data at {o:#x}+{s:#x}").to_vec())
        };
        let lib = |c: &mut D| -> R<MLib> {
            let (o, ts, cur, compat) = (must_some!(c.u32(), "{ctx}"), must_some!(c.u32(), "{ctx}"), must_some!(c.u32(), "{ctx}"), must_some!(c.u32(), "{ctx}"));
            ensure!(o >= 24, "{ctx}: name at {o}");
            let name = must_some!(v[at..at + len].get(o as usize..), "{ctx}: name at {o}");
            let e = must_some!(name.iter().position(|x| *x == 0), "{ctx}: name does not end");
            ensure!(name[e..].iter().all(|x| *x == 0), "{ctx}: padding");
            Ok(MLib { del: false, cmd, name: name[..e].to_vec(), ts, cur, compat })
        };
        let c0 = match cmd {
            LC_SEGMENT | LC_SEGMENT_64 => {
                ensure_eq!(cmd == LC_SEGMENT_64, is64, "{ctx}");
                let mut p = MSeg { name: trim(get!(c.bytes(16), "{ctx}")), ..Default::default() };
                let mut w = || c.w();
                let (Some(a), Some(s), Some(o), Some(f)) = (w(), w(), w(), w()) else { fail!("{ctx}") };
                (p.vmaddr, p.vmsize, p.file) = (a, s, (o, f));
                p.maxprot = get!(c.u32(), "{ctx}");
                p.initprot = get!(c.u32(), "{ctx}");
                let nsects = get!(c.u32(), "{ctx}");
                p.flags = get!(c.u32(), "{ctx}");
                ensure!(o.checked_add(f).is_some_and(|e| e <= v.len() as u64), "{ctx}: file range {o:#x}+{f:#x} of {:#x}", v.len());
                ensure!(f <= s || !strict && ft == 1, "{ctx}: {f:#x} bytes of the file in {s:#x} bytes of memory");
                let vmend = get!(a.checked_add(s), "{ctx}: range {a:#x}+{s:#x}");
                for i in 0..nsects {
                    let ctx = format!("{ctx}: section {i}");
                    let mut x = MSec { name: trim(get!(c.bytes(16), "{ctx}")), seg: trim(get!(c.bytes(16), "{ctx}")), ..Default::default() };
                    x.addr = get!(c.w(), "{ctx}");
                    x.size = get!(c.w(), "{ctx}");
                    let mut w = || c.u32();
                    let (Some(off), Some(al), Some(reloff), Some(nrel), Some(fl), Some(r1), Some(r2)) = (w(), w(), w(), w(), w(), w(), w()) else { fail!("{ctx}") };
                    if is64 {
                        get!(c.u32(), "{ctx}");
                    }
                    (x.align, x.flags) = (al, fl);
                    ensure!(x.addr >= a && x.addr.checked_add(x.size).is_some_and(|e| e <= vmend), "{ctx}: {:#x}+{:#x} outside its segment {a:#x}+{s:#x}", x.addr, x.size);
                    let zerofill = matches!(fl & 0xff, 1 | 0xc | 0x12);
                    if !zerofill {
                        let (lo, hi) = (off as usize, off as usize + x.size as usize);
                        x.data = Some(get!(v.get(lo..hi), "{ctx}: contents at {lo:#x}..{hi:#x} of {:#x}", v.len()).to_vec());
                        ensure!(x.size == 0 || off as u64 >= o && off as u64 + x.size <= o + f, "{ctx}: contents at {off:#x}+{:#x} outside those of the segment at {o:#x}+{f:#x}", x.size);
                        if x.size > 0 {
                            used.push((off as u64, x.size, ctx.clone()));
                        }
                        if ft != 1 && x.size > 0 {
                            ensure_eq!(off as u64 - o, x.addr - a, "{ctx}: offset in the segment");
                        }
                    }
                    if fl & 0xff == 8 {
                        x.stub = r2;
                    }
                    let e = x.entry(is64);
                    if e > 0 && x.size / e > 0 {
                        inds.push((m.secs.len(), r1));
                    } else if fl & 0xff != 8 {
                        x.stub = r2;
                    }
                    if nrel > 0 {
                        relocs.push((m.secs.len(), reloff, nrel));
                    }
                    p.secs.push(m.secs.len());
                    m.secs.push(x);
                }
                m.segs.push(p);
                Cmd::Seg(m.segs.len() - 1)
            }
            LC_SYMTAB => {
                ensure!(symtab.is_none(), "{ctx}: a second one");
                let mut w = || c.u32();
                let (Some(a), Some(b), Some(s), Some(n)) = (w(), w(), w(), w()) else { fail!("{ctx}") };
                symtab = Some((a, b, s, n));
                Cmd::Symtab
            }
            LC_DYSYMTAB => {
                let mut w = vec![];
                for _ in 0..18 {
                    w.push(get!(c.u32(), "{ctx}"));
                }
                ensure!(dysym.is_none(), "{ctx}: a second one");
                dysym = Some(w);
                Cmd::Dysymtab
            }
            LC_DYLD_INFO_ONLY => {
                let mut x = vec![];
                for _ in 0..5 {
                    x.push(blob(&mut c, &mut used)?);
                }
                Cmd::Info(x)
            }
            LC_BUILD_VERSION => {
                let mut w = || c.u32();
                let (Some(p), Some(mi), Some(sdk), Some(n)) = (w(), w(), w(), w()) else { fail!("{ctx}") };
                let mut t = vec![];
                for _ in 0..n {
                    t.push((get!(c.u32(), "{ctx}"), get!(c.u32(), "{ctx}")));
                }
                ensure!(c.rest().len() < 8, "{ctx}: {} bytes left", c.rest().len());
                Cmd::Build(p, mi, sdk, t)
            }
            LC_ID_DYLIB => Cmd::Id(lib(&mut c)?),
            x if DYLIBS.contains(&x) => {
                m.libs.push(lib(&mut c)?);
                Cmd::Lib(m.libs.len() - 1)
            }
            x if LINKEDIT.contains(&x) => Cmd::Link(cmd, blob(&mut c, &mut used)?),
            _ => Cmd::Other(cmd, body.to_vec()),
        };
        m.cmds.push(c0);
        at += len;
    }
    ensure_eq!(at, end, "end of the commands");
    if let Some((o, n, so, sn)) = symtab {
        let strings = get!(v.get(so as usize..so as usize + sn as usize), "string table at {so:#x}+{sn:#x} of {:#x}", v.len());
        if sn > 0 {
            used.push((so as u64, sn as u64, "string table".into()));
        }
        let size = if is64 { 16 } else { 12 };
        if n > 0 {
            used.push((o as u64, n as u64 * size, "symbol table".into()));
            ensure!(o % (if is64 { 8 } else { 4 }) == 0, "symbol table at {o:#x}");
        }
        let mut t = d.at(o as usize);
        for i in 0..n {
            let strx = get!(t.u32(), "symbol {i}");
            let mut y = MSym { ty: get!(t.u8(), "symbol {i}"), nsect: get!(t.u8(), "symbol {i}"), desc: get!(t.u16(), "symbol {i}"), value: get!(t.w(), "symbol {i}"), ..Default::default() };
            y.name = get!(cstr_at(strings, strx as usize), "name of symbol {i} at {strx:#x} of {sn:#x}").to_vec();
            if MSym::has_sec(y.ty) && (y.nsect > 0 || !y.stab()) {
                ensure!(y.nsect >= 1 && y.nsect as usize <= m.secs.len(), "symbol {i} in section {} of {}", y.nsect, m.secs.len());
                y.sec = Some(y.nsect as usize - 1);
            }
            if !y.stab() && y.ty & 0xe == INDR {
                y.indr = Some(get!(cstr_at(strings, y.value as usize), "symbol {i}: name at {:#x} of {sn:#x}", y.value).to_vec());
                y.value = 0;
            }
            m.syms.push(y);
        }
    }
    for (i, o, n) in relocs {
        used.push((o as u64, n as u64 * 8, format!("relocations of section {i}")));
        let mut t = d.at(o as usize);
        for k in 0..n {
            let ctx = format!("section {i} relocation {k}");
            let (addr, w) = (get!(t.u32(), "{ctx}"), get!(t.u32(), "{ctx}"));
            let (num, pcrel, len, ext, ty) = if be { (w >> 8, w >> 7 & 1, w >> 5 & 3, w >> 4 & 1, w & 15) } else { (w & 0xff_ffff, w >> 24 & 1, w >> 25 & 3, w >> 27 & 1, w >> 28) };
            let other = match m.cpu {
                ARM64 | ARM64_32 => ty == 10,
                X86 | ARM | PPC | PPC64 => ty == 1,
                _ => false,
            };
            let t = if ext == 1 {
                ensure!((num as usize) < m.syms.len(), "{ctx}: symbol {num} of {}", m.syms.len());
                Tgt::Sym(num as usize)
            } else if num == 0 || other {
                Tgt::Val(num)
            } else {
                ensure!((num as usize) <= m.secs.len(), "{ctx}: section {num} of {}", m.secs.len());
                Tgt::Sec(num as usize - 1)
            };
            m.secs[i].rels.push(MRel { addr, t, pcrel: pcrel == 1, len: len as u8, ty: ty as u8 });
        }
    }
    if let Some(w) = &dysym {
        let count = |k| m.syms.iter().filter(|y| y.group() == k).count() as u32;
        let (l, e, u) = (count(0), count(1), count(2));
        ensure_eq!(w[..6].to_vec(), vec![0, l, l, e, l + e, u], "symbol ranges of LC_DYSYMTAB");
        let (o, n) = (w[12] as usize, w[13] as usize);
        ensure!(w[6..12].iter().chain(&w[14..]).all(|x| *x == 0), "LC_DYSYMTAB {w:x?}");
        if n > 0 {
            used.push((o as u64, 4 * n as u64, "indirect symbols".into()));
        }
        let mut t = d.at(o);
        let mut all = vec![];
        for _ in 0..n {
            all.push(get!(t.u32(), "indirect symbols at {o:#x}+4*{n}"));
        }
        let mut next = 0;
        for (i, r) in &inds {
            let s = &m.secs[*i];
            let k = (s.size / s.entry(is64)) as usize;
            let x = get!(all.get(*r as usize..*r as usize + k), "indirect symbols {r}+{k} of {n} for section {i}");
            ensure_eq!(*r, next, "first indirect symbol of section {i}");
            next += k as u32;
            let mut out = vec![];
            for x in x {
                out.push(if x & 0xc000_0000 != 0 {
                    Ind::Flags(*x)
                } else {
                    ensure!((*x as usize) < m.syms.len(), "indirect symbol {x} of {}", m.syms.len());
                    Ind::Sym(*x as usize)
                });
            }
            m.secs[*i].ind = out;
        }
        ensure_eq!(next, n as u32, "number of indirect symbols");
    } else {
        ensure!(inds.is_empty(), "indirect symbols without LC_DYSYMTAB");
    }
    used.sort();
    for w in used.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, "{:?} overlaps {:?}", w[0], w[1]);
    }
    ensure!(used.last().is_none_or(|x| x.0 + x.1 <= v.len() as u64), "{:?} outside the file", used.last());
    if ft != 1 {
        let linkedit = m.segs.iter().find(|s| s.name == b"__LINKEDIT");
        for u in &used {
            if let (Some(p), true) = (linkedit, !u.2.contains("section") && u.2 != "headers") {
                ensure!(u.0 >= p.file.0 && u.0 + u.1 <= p.file.0 + p.file.1, "{u:?} outside the linkedit segment {:x?}", p.file);
            }
        }
        // The headers are mapped by the first segment with contents.
        if let Some(p) = m.segs.iter().find(|p| p.file.1 > 0 && p.name != b"__LINKEDIT") {
            ensure!(p.file.0 == 0 && p.file.1 >= end as u64, "headers of {end:#x} bytes, and the first segment {:x?}", p.file);
        }
        let mut r: Vec<(u64, u64)> = m.segs.iter().map(|p| p.file).filter(|f| f.1 > 0).collect();
        r.sort();
        ensure!(r.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0), "segments overlap in the file: {r:x?}");
    }
    Ok(m)
}

pub fn same(got: &Model, want: &Model) -> R {
    ensure_eq!((got.be, got.is64, got.cpu, got.sub, got.ft, got.flags), (want.be, want.is64, want.cpu, want.sub, want.ft, want.flags), "header");
    ensure_eq!(got.cmds, want.cmds, "load commands");
    ensure_eq!(got.libs, want.libs, "dylibs");
    for (i, (a, b)) in got.segs.iter().zip(&want.segs).enumerate() {
        let size = |s: &MSeg| if s.name == b"__LINKEDIT" && got.ft != 1 { 0 } else { s.vmsize };
        ensure_eq!((&a.name, a.vmaddr, size(a), a.maxprot, a.initprot, a.flags, &a.secs), (&b.name, b.vmaddr, size(b), b.maxprot, b.initprot, b.flags, &b.secs), "segment {i}");
    }
    for (i, (a, b)) in got.secs.iter().zip(&want.secs).enumerate() {
        ensure_eq!((&a.name, &a.seg, a.addr, a.size, a.align, a.flags), (&b.name, &b.seg, b.addr, b.size(), b.align, b.flags), "section {i}");
        ensure_eq!(a.data, b.data, "contents of section {i}");
        ensure_eq!(a.rels, b.rels, "relocations of section {i}");
        ensure_eq!(a.ind, b.ind, "indirect symbols of section {i}");
        ensure_eq!(a.stub, b.stub, "stub size of section {i}");
    }
    ensure_eq!((got.segs.len(), got.secs.len(), got.syms.len()), (want.segs.len(), want.secs.len(), want.syms.len()), "segments, sections and symbols");
    for (i, (a, b)) in got.syms.iter().zip(&want.syms).enumerate() {
        ensure_eq!((&a.name, a.ty, a.sec, a.nsect, a.desc, a.value, &a.indr), (&b.name, b.ty, b.sec, b.nsect, b.desc, b.value, &b.indr), "symbol {i}");
    }
    Ok(())
}

const SEG_NAMES: [&str; 6] = ["__TEXT", "__DATA", "__DATA_CONST", "__DWARF", "0123456789abcdef", "__X"];
const SECT_NAMES: [&str; 12] = ["__text", "__data", "__const", "__bss", "__cstring", "__debug_info", "__eh_frame", "__stubs", "__got", "__thread_vars", ".text", "0123456789abcdef"];

pub fn gen_name(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 5) {
        let n = g.name(16);
        trim(&n[..n.len().min(16)])
    } else {
        g.pick(&SECT_NAMES).as_bytes().to_vec()
    }
}

/// A section with contents, without relocations, indirect symbols or address.
pub fn gen_sec(g: &mut Gen, is64: bool, nsyms: usize, ind: bool) -> MSec {
    let ty = if ind && g.chance(1, 3) { g.pickc(&[6, 7, 8, 0x10, 0x14]) } else { g.pickc(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 9, 0xb, 0xc, 0xe, 0x11, 0x12, 0x13, 0x15]) };
    let mut s = MSec {
        name: gen_name(g),
        seg: g.pick(&SEG_NAMES).as_bytes().to_vec(),
        align: if g.chance(1, 16) { g.pickc(&[8, 12]) } else { g.upto(4) as u32 },
        flags: ty | g.pickc(&[0, 0, 0x8000_0400, 0x0200_0000, 0x1000_0000]),
        ..Default::default()
    };
    if ty == 8 {
        s.stub = g.pickc(&[1, 5, 6, 12]);
    }
    if matches!(ty, 1 | 0xc | 0x12) {
        s.size = if g.chance(1, 12) { g.uint(32) >> g.upto(3) } else { g.upto(100) };
        return s;
    }
    let e = s.entry(is64) as usize;
    if e > 0 {
        let n = g.len(4);
        let extra = if g.chance(1, 6) { g.below(e) } else { 0 };
        s.data = Some(g.bytes(n * e + extra));
        s.ind = (0..n).map(|_| if nsyms == 0 || g.chance(1, 4) { Ind::Flags(g.pickc(&[0x8000_0000, 0x4000_0000, 0xc000_0000])) } else { Ind::Sym(g.below(nsyms)) }).collect();
    } else {
        s.data = Some(g.blob(64));
    }
    s
}

pub fn gen_sym(g: &mut Gen, is64: bool, secs: &[(u64, u64)]) -> MSym {
    let mut y = MSym { name: if g.chance(1, 8) { vec![] } else { g.name(12) }, desc: if g.bool() { 0 } else { g.u16() }, ..Default::default() };
    let bits = if is64 { 64 } else { 32 };
    y.value = if g.chance(1, 3) { 0 } else { g.uint(bits) };
    let place = |g: &mut Gen, y: &mut MSym| {
        let i = g.below(secs.len());
        y.sec = Some(i);
        y.nsect = i as u8 + 1;
        y.value = secs[i].0.wrapping_add(g.upto(secs[i].1));
        if !is64 {
            y.value &= 0xffff_ffff;
        }
    };
    if g.chance(1, 6) {
        y.ty = if g.chance(2, 3) { g.pickc(&STAB_SECT) } else { g.pickc(&[0x20, 0x22, 0x2a, 0x2a, 0x6a, 0xaa, 0xca, 0x32, 0x3c, 0x40, 0x60, 0x66, 0x80, 0x82, 0xa0, 0xc0, 0xc2, 0xe0, 0xe2, 0xfe]) };
        if MSym::has_sec(y.ty) {
            if !secs.is_empty() && g.chance(5, 6) {
                place(g, &mut y);
            }
        } else if y.ty == 0x66 || g.chance(1, 8) {
            y.nsect = g.pickc(&[0, 1, 2, 3]);
        }
        return y;
    }
    y.ty = g.pickc(&[0, 0, 2, 0xa, 0xe, 0xe, 0xe, 0xe, 0xe]) | g.pickc(&[0, 1, 1, 0x10, 0x11]);
    match y.ty & 0xe {
        0xe if secs.is_empty() => y.ty &= !0xe,
        0xe => place(g, &mut y),
        0xa => {
            y.indr = Some(g.name(12));
            y.value = 0;
        }
        _ => {}
    }
    y
}

pub fn gen_rels(g: &mut Gen, cpu: u32, size: u64, nsyms: usize, nsecs: usize) -> Vec<MRel> {
    let mut out = vec![];
    for _ in 0..g.len(5) {
        let one = |g: &mut Gen, ty: u8| {
            let t = match g.below(6) {
                0 => Tgt::Val(0),
                1 | 2 if nsecs > 0 => Tgt::Sec(g.below(nsecs)),
                _ if nsyms > 0 => Tgt::Sym(g.below(nsyms)),
                _ => Tgt::Val(0),
            };
            MRel { addr: g.upto(size) as u32 & 0x7fff_ffff, t, pcrel: g.bool(), len: g.upto(3) as u8, ty }
        };
        let plain = |g: &mut Gen| -> u8 {
            match cpu {
                X86_64 => g.pickc(&[0, 1, 2, 3, 4, 6, 7, 8, 9]),
                ARM64 | ARM64_32 => g.pickc(&[0, 2, 3, 4, 5, 6, 7, 8, 9]),
                X86 | ARM | PPC | PPC64 => g.pickc(&[0, 2, 3, 4, 5, 6, 7, 8, 9]),
                _ => g.upto(15) as u8,
            }
        };
        let (before, after) = match (cpu, g.below(6)) {
            (X86_64, 0) => (Some(one(g, 5)), None),
            (ARM64 | ARM64_32, 0) => (Some(one(g, 1)), None),
            (ARM64 | ARM64_32, 1) => {
                let mut r = one(g, 10);
                r.t = Tgt::Val(if g.bool() { g.upto(4) as u32 } else { g.u32() & 0xff_ffff });
                (Some(r), None)
            }
            (X86 | ARM | PPC | PPC64, 0 | 1) => {
                let mut r = one(g, 1);
                r.t = Tgt::Val(g.pickc(&[0, 1, 2, 0xff_ffff]));
                (None, Some(r))
            }
            _ => (None, None),
        };
        let ty = plain(g);
        out.extend(before);
        out.push(one(g, ty));
        out.extend(after);
    }
    out
}

/// A relocatable file, or a linked image. The result is as written by a linker or
/// assembler: symbols are in groups and sections are where they belong.
pub fn gen_model(g: &mut Gen, object: bool) -> Model {
    let h = gen_header(g);
    let mut m = Model { be: h.be, is64: h.is64, cpu: h.cputype, sub: h.cpusubtype, ft: 1, flags: h.flags, ..Default::default() };
    if !object {
        m.ft = g.pickc(&[2, 2, 6, 6, 8, 7, 4, 0xb]);
    }
    let ind = g.chance(1, 2);
    let dysym = ind || g.bool();
    let nsyms = g.len(8);
    let nsegs = if object { 1 } else { g.range(1, 4) };
    for i in 0..nsegs {
        let mut p = MSeg {
            name: if object { vec![] } else { format!("__SEG{i}").into_bytes() },
            maxprot: g.upto(7) as u32,
            initprot: g.upto(7) as u32,
            flags: g.pickc(&[0, 0, 4, 0x10]),
            ..Default::default()
        };
        for _ in 0..g.len(if object { 6 } else { 3 }) {
            let mut s = gen_sec(g, m.is64, nsyms, ind);
            if !object {
                s.seg = p.name.clone();
            }
            p.secs.push(m.secs.len());
            m.secs.push(s);
        }
        m.segs.push(p);
        m.cmds.push(Cmd::Seg(i));
    }
    if !object && g.chance(5, 6) {
        m.segs.push(MSeg { name: b"__LINKEDIT".to_vec(), maxprot: 1, initprot: 1, ..Default::default() });
        m.cmds.push(Cmd::Seg(m.segs.len() - 1));
    }
    // The commands.
    let mut extra = vec![];
    for _ in 0..g.len(4) {
        let c = gen_cmd(g, &mut m.libs, m.is64, object);
        if !matches!(c, Cmd::Link(LC_CODE_SIGNATURE, _)) || !extra.iter().any(|x| matches!(x, Cmd::Link(LC_CODE_SIGNATURE, _))) {
            extra.push(c);
        }
    }
    if nsyms > 0 || g.bool() {
        extra.push(Cmd::Symtab);
    }
    if dysym {
        extra.push(Cmd::Dysymtab);
    }
    for c in extra {
        let at = if g.chance(1, 3) { g.range(0, m.cmds.len()) } else { m.cmds.len() };
        m.cmds.insert(at, c);
    }
    // Dylibs are numbered in the order of their commands.
    let mut order = vec![];
    for c in &mut m.cmds {
        if let Cmd::Lib(i) = c {
            order.push(*i);
            *i = order.len() - 1;
        }
    }
    m.libs = order.iter().map(|i| m.libs[*i].clone()).collect();
    // Addresses.
    let top: u64 = if m.is64 { 1 << 40 } else { 1 << 30 };
    if object {
        let mut at = 0u64;
        for zero in [false, true] {
            for s in m.secs.iter_mut().filter(|s| s.data.is_none() == zero) {
                if g.chance(1, 12) {
                    at += g.upto(40);
                }
                if !m.is64 && at + s.size() > 0xf000_0000 {
                    s.size = 7;
                }
                s.addr = at.next_multiple_of(1 << s.align);
                at = s.addr + s.size();
            }
        }
        m.segs[0].vmsize = at;
    } else {
        let head = (m.hdr() + m.to_mo().cmds_size()) as u64;
        let mut at = if g.bool() { 0 } else { g.upto(top >> 14) << 14 };
        let mut first = true;
        for i in 0..m.segs.len() {
            let mut p = std::mem::take(&mut m.segs[i]);
            p.vmaddr = at;
            if first && p.secs.iter().any(|i| m.secs[*i].data.is_some()) {
                first = false;
                at += head + if g.bool() { 0 } else { g.upto(100) };
            }
            for j in &p.secs {
                let s = &mut m.secs[*j];
                if g.chance(1, 4) {
                    at += g.upto(40);
                }
                if s.size > 0x1000_0000 {
                    s.size >>= 8;
                }
                s.align = s.align.min(4);
                s.addr = at.next_multiple_of(1 << s.align);
                at = s.addr + s.size();
                // Contents that follow are in the file, at the same distance.
                if s.data.is_none() && s.size > 1000 {
                    s.size = 1000;
                    at = s.addr + s.size();
                }
            }
            if g.chance(1, 4) {
                at += g.upto(0x10000);
            }
            p.vmsize = (at - p.vmaddr).next_multiple_of(0x4000);
            at = p.vmaddr + p.vmsize;
            if g.chance(1, 4) {
                at += 0x4000 * g.upto(9);
            }
            m.segs[i] = p;
        }
    }
    let places: Vec<(u64, u64)> = m.secs.iter().map(|s| (s.addr, s.size())).collect();
    for _ in 0..nsyms {
        let y = gen_sym(g, m.is64, &places);
        m.syms.push(y);
    }
    if dysym || g.bool() {
        m.syms.sort_by_key(|y| (y.group(), if y.group() == 0 { vec![] } else { y.name.clone() }));
    }
    if object {
        let n = m.secs.len();
        for s in &mut m.secs {
            if s.data.is_some() && g.bool() {
                s.rels = gen_rels(g, m.cpu, s.size(), nsyms, n);
            }
        }
    }
    m
}

pub fn gen_lib(g: &mut Gen, cmd: u32) -> MLib {
    MLib { del: false, cmd, name: g.name(20), ts: g.u32(), cur: g.u32(), compat: g.u32() }
}

pub fn gen_cmd(g: &mut Gen, libs: &mut Vec<MLib>, is64: bool, object: bool) -> Cmd {
    let a = if is64 { 8 } else { 4 };
    let other = |c: u32, mut d: Vec<u8>| {
        d.resize((d.len() + 8).next_multiple_of(a) - 8, 0);
        Cmd::Other(c, d)
    };
    match g.below(if object { 8 } else { 11 }) {
        0 | 1 => Cmd::Link(if object { g.pickc(&[0x29, 0x2e, 0x26, 0x1e]) } else { g.pickc(&LINKEDIT) }, g.blob(40)),
        2 => {
            let n = g.len(3);
            Cmd::Build(g.u32(), g.u32(), g.u32(), (0..n).map(|_| (g.u32(), g.u32())).collect())
        }
        3 => other(0x1b, g.bytes(16)),
        4 => other(0x2a, g.bytes(8)),
        5 if is64 => other(0x2c, g.bytes(16)),
        5 => other(0x21, g.bytes(12)),
        6 => other(0x28 | REQ, g.bytes(16)),
        7 => {
            let mut d = B::new(false, is64);
            d.u32(12).cstr(&g.name(12));
            other(0xe, d.v)
        }
        8 => {
            libs.push(gen_lib(g, 0));
            let l = libs.last_mut().unwrap();
            l.cmd = g.pickc(&DYLIBS);
            Cmd::Lib(libs.len() - 1)
        }
        9 => Cmd::Id(gen_lib(g, LC_ID_DYLIB)),
        _ => Cmd::Info((0..5).map(|_| g.blob(20)).collect()),
    }
}
