//! A semantic model of ELF files at the level of the ELF builder: what items there are and what
//! they refer to, with an independent encoder, decoder and the rules for deleting items.
use crate::b::*;
use crate::elf::{k::*, *};
use crate::elfdyn::*;
use crate::engine::*;
use crate::{ensure, ensure_eq, fail, must_some};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    pub osabi: u8,
    pub abiver: u8,
    pub ety: u16,
    pub machine: u16,
    pub entry: u64,
    pub flags: u32,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MSeg {
    pub del: bool,
    pub s: Seg,
    pub secs: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub off: u64,
    pub sym: Option<usize>,
    pub ty: u32,
    pub addend: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DVal {
    Auto,
    Int(u64),
    Str(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Scope {
    File,
    Secs(Vec<usize>),
    Syms(Vec<usize>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct AttrSub {
    pub vendor: Vec<u8>,
    pub subs: Vec<(Scope, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Bytes(Vec<u8>),
    NoBits(u64),
    Rel(Vec<MRel>),
    DRel(Vec<MRel>),
    Dynamic(Vec<(i64, DVal)>),
    Attrs(Vec<AttrSub>),
    ShStr,
    Sym,
    Shndx,
    Str,
    DSym,
    DStr,
    Hash,
    Gnu,
    Versym,
    Verdef,
    Verneed,
}
impl Data {
    /// Tables that are generated from other parts of the model.
    pub fn is_meta(&self) -> bool {
        use Data::*;
        !matches!(self, Bytes(_) | NoBits(_) | Rel(_) | DRel(_) | Dynamic(_) | Attrs(_))
    }
    pub fn natural_align(&self, word: u64) -> u64 {
        match self {
            Data::Rel(_) | Data::DRel(_) | Data::Dynamic(_) | Data::Sym | Data::DSym | Data::Gnu => word,
            Data::Hash | Data::Verdef | Data::Verneed | Data::Shndx => 4,
            Data::Versym => 2,
            _ => 1,
        }
    }
    fn same_kind(&self, d: &Data) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(d)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSec {
    pub del: bool,
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    /// File offset, fixed for loaded sections.
    pub off: u64,
    pub align: u64,
    pub entsize: u64,
    pub link: Option<usize>,
    pub info: u32,
    pub info_sec: Option<usize>,
    pub data: Data,
    /// Size in the file it came from, or as decoded.
    pub size: u64,
}
impl MSec {
    pub fn new(name: &[u8], ty: u32, flags: u64, align: u64, data: Data) -> MSec {
        MSec { del: false, name: name.to_vec(), ty, flags, addr: 0, off: 0, align, entsize: 0, link: None, info: 0, info_sec: None, data, size: 0 }
    }
    pub fn alloc(&self) -> bool {
        self.flags & SHF_ALLOC != 0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Vr {
    Local,
    Global,
    Id(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSym {
    pub del: bool,
    pub name: Vec<u8>,
    pub info: u8,
    pub other: u8,
    /// Meaningful only without a section.
    pub shndx: u16,
    pub sec: Option<usize>,
    pub value: u64,
    pub size: u64,
    pub ver: Vr,
    pub hidden: bool,
}
impl MSym {
    pub fn local(&self) -> bool {
        self.info >> 4 == 0
    }
    pub fn defined(&self) -> bool {
        self.sec.is_some() || self.shndx != 0
    }
    pub fn hashed(&self) -> bool {
        !self.local() && !self.name.is_empty() && self.defined()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum VData {
    Def { flags: u16, names: Vec<Vec<u8>> },
    Need { flags: u16, name: Vec<u8>, file: usize },
}
#[derive(Clone, Debug, PartialEq)]
pub struct MVer {
    pub del: bool,
    pub d: VData,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MFile {
    pub del: bool,
    pub name: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub is64: bool,
    pub be: bool,
    pub h: Header,
    pub segs: Vec<MSeg>,
    pub secs: Vec<MSec>,
    pub syms: Vec<MSym>,
    pub dsyms: Vec<MSym>,
    pub vbase: Option<Vec<u8>>,
    pub vers: Vec<MVer>,
    pub vfiles: Vec<MFile>,
    pub nbucket: u32,
    pub gnu_shift: u32,
    pub gnu_bloom: u32,
    pub gnu_nbucket: u32,
    /// Number of unused entries at the end of the encoded dynamic table.
    pub spare: usize,
}

pub const AUTO: &[i64] = &[4, 5, 6, 10, 0x6ffffef5, 0x6ffffff0, 0x6ffffffc, 0x6ffffffd, 0x6ffffffe, 0x6fffffff];
pub const STRING_TAGS: &[i64] = &[1, 14, 15, 29, 0x7ffffffd, 0x7fffffff, 0x6ffffefa, 0x6ffffefb, 0x6ffffefc];

/// The kind of table that an automatic dynamic entry describes.
pub fn auto_kind(tag: i64) -> Data {
    match tag {
        4 => Data::Hash,
        5 | 10 => Data::DStr,
        6 => Data::DSym,
        0x6ffffef5 => Data::Gnu,
        0x6ffffff0 => Data::Versym,
        0x6ffffffc | 0x6ffffffd => Data::Verdef,
        _ => Data::Verneed,
    }
}

fn attr_type(machine: u16) -> u32 {
    match machine {
        40 | 183 | 243 => 0x70000003,
        252 => 0x70000001,
        _ => SHT_GNU_ATTRIBUTES,
    }
}

/// Tables without what they describe: writing them may fail or not.
pub const ODD: &str = "table of nothing";

impl Model {
    pub fn img(&self) -> Img {
        Img { is64: self.is64, be: self.be, machine: self.h.machine, ..Img::default() }
    }
    pub fn word(&self) -> u64 {
        if self.is64 { 8 } else { 4 }
    }
    pub fn find(&self, d: &Data) -> Option<usize> {
        self.secs.iter().position(|s| !s.del && s.data.same_kind(d))
    }
    pub fn linked(&self) -> bool {
        self.segs.iter().any(|s| !s.del)
    }

    // ------------------------------------------------------------ rules

    /// Drop everything that refers to deleted items, as the documentation of the builder says.
    pub fn delete_orphans(&mut self) {
        let secs: Vec<bool> = self.secs.iter().map(|s| s.del).collect();
        for s in &mut self.segs {
            if !s.secs.is_empty() {
                s.secs.retain(|&i| !secs[i]);
                if s.secs.is_empty() {
                    s.del = true;
                }
            }
        }
        for s in self.syms.iter_mut().chain(&mut self.dsyms) {
            if s.sec.is_some_and(|i| secs[i]) {
                s.del = true;
            }
        }
        let syms: Vec<bool> = self.syms.iter().map(|s| s.del).collect();
        let dsyms: Vec<bool> = self.dsyms.iter().map(|s| s.del).collect();
        let kinds: Vec<Data> = self.secs.iter().filter(|s| !s.del).map(|s| s.data.clone()).collect();
        for s in &mut self.secs {
            match &mut s.data {
                Data::Rel(r) => r.retain(|r| r.sym.is_none_or(|i| !syms[i])),
                Data::DRel(r) => r.retain(|r| r.sym.is_none_or(|i| !dsyms[i])),
                Data::Dynamic(d) => d.retain(|(tag, v)| *v != DVal::Auto || kinds.iter().any(|k| k.same_kind(&auto_kind(*tag)))),
                _ => {}
            }
        }
    }
    /// Versions that no dynamic symbol uses, and files without versions, are dropped.
    pub fn delete_unused_versions(&mut self) {
        for i in 0..self.vers.len() {
            let used = self.dsyms.iter().any(|s| !s.del && s.ver == Vr::Id(i)) || matches!(&self.vers[i].d, VData::Need { name, .. } if name == b"GLIBC_ABI_DT_RELR");
            if !used {
                self.vers[i].del = true;
            }
        }
        for f in 0..self.vfiles.len() {
            if !self.vers.iter().any(|v| !v.del && matches!(v.d, VData::Need { file, .. } if file == f)) {
                self.vfiles[f].del = true;
            }
        }
    }
    /// The model without deleted items, in the order in which it is written.
    pub fn compact(&self) -> R<Model> {
        fn map<T>(v: &[T], order: impl Iterator<Item = usize>) -> (Vec<Option<usize>>, Vec<usize>) {
            let order: Vec<usize> = order.collect();
            let mut m = vec![None; v.len()];
            for (new, &old) in order.iter().enumerate() {
                m[old] = Some(new);
            }
            (m, order)
        }
        let live = |v: &Vec<MSym>, i: &usize| !v[*i].del;
        let (ms, os) = map(&self.secs, (0..self.secs.len()).filter(|&i| !self.secs[i].del));
        let mut o: Vec<usize> = (0..self.syms.len()).filter(|i| live(&self.syms, i)).collect();
        o.sort_by_key(|&i| !self.syms[i].local());
        let (my, oy) = map(&self.syms, o.into_iter());
        let gnu = self.find(&Data::Gnu).is_some();
        let mut o: Vec<usize> = (0..self.dsyms.len()).filter(|i| live(&self.dsyms, i)).collect();
        o.sort_by_key(|&i| {
            let s = &self.dsyms[i];
            (!s.local(), gnu && s.hashed(), if gnu && s.hashed() { gnu_hash(&s.name) % self.gnu_nbucket.max(1) } else { 0 })
        });
        let (md, od) = map(&self.dsyms, o.into_iter());
        let (mf, of) = map(&self.vfiles, (0..self.vfiles.len()).filter(|&i| !self.vfiles[i].del));
        let mut o: Vec<usize> = (0..self.vers.len()).filter(|&i| !self.vers[i].del).collect();
        o.sort_by_key(|&i| match self.vers[i].d {
            VData::Def { .. } => (0, 0),
            VData::Need { file, .. } => (1, file),
        });
        let (mv, ov) = map(&self.vers, o.into_iter());
        let mut m = Model { segs: vec![], secs: vec![], syms: vec![], dsyms: vec![], vers: vec![], vfiles: vec![], ..self.clone() };
        for s in self.segs.iter().filter(|s| !s.del) {
            m.segs.push(MSeg { secs: s.secs.iter().filter_map(|&i| ms[i]).collect(), ..s.clone() });
        }
        for i in os {
            let mut s = self.secs[i].clone();
            if s.data.is_meta() {
                // Generated along with the table.
                (s.link, s.info_sec) = (None, None);
            }
            for (r, what) in [(&mut s.link, "sh_link"), (&mut s.info_sec, "sh_info")] {
                if let Some(i) = *r {
                    *r = Some(must_some!(ms[i], "model: {what} to a deleted section"));
                }
            }
            match &mut s.data {
                Data::Rel(r) => r.iter_mut().for_each(|r| r.sym = r.sym.and_then(|i| my[i])),
                Data::DRel(r) => r.iter_mut().for_each(|r| r.sym = r.sym.and_then(|i| md[i])),
                Data::Attrs(a) => {
                    for (sc, _) in a.iter_mut().flat_map(|a| &mut a.subs) {
                        match sc {
                            Scope::File => {}
                            Scope::Secs(v) => *v = v.iter().filter_map(|&i| ms[i]).collect(),
                            Scope::Syms(v) => *v = v.iter().filter_map(|&i| my[i]).collect(),
                        }
                    }
                }
                _ => {}
            }
            m.secs.push(s);
        }
        for (src, dst, o) in [(&self.syms, &mut m.syms, oy), (&self.dsyms, &mut m.dsyms, od)] {
            for i in o {
                let mut s = src[i].clone();
                if let Some(i) = s.sec {
                    s.sec = Some(must_some!(ms[i], "model: symbol in a deleted section"));
                }
                if let Vr::Id(i) = s.ver {
                    s.ver = Vr::Id(must_some!(mv[i], "model: symbol with a deleted version"));
                }
                dst.push(s);
            }
        }
        for i in ov {
            let mut v = self.vers[i].clone();
            if let VData::Need { file, .. } = &mut v.d {
                *file = must_some!(mf[*file], "model: version of a deleted file");
            }
            m.vers.push(v);
        }
        for i in of {
            m.vfiles.push(self.vfiles[i].clone());
        }
        Ok(m)
    }

    /// Loaded sections that cannot stay where they are when there are `n` program headers.
    pub fn conflicts(&self, n: usize) -> Vec<usize> {
        let img = self.img();
        let mut end = img.ehsize() as u64;
        if n > 0 {
            end = end.div_ceil(self.word()) * self.word() + (n * img.phentsize()) as u64;
        }
        let mut v: Vec<usize> = (0..self.secs.len()).filter(|&i| self.secs[i].alloc() && !self.secs[i].del && self.secs[i].ty != SHT_NOBITS).collect();
        v.sort_by_key(|&i| (self.secs[i].off, self.secs[i].size));
        let mut out = vec![];
        for i in v {
            let x = &self.secs[i];
            let a = if x.data.is_meta() || matches!(x.data, Data::DRel(_) | Data::Dynamic(_)) { x.data.natural_align(self.word()) } else { x.align.max(1) };
            if x.off < end || x.off % a != 0 {
                out.push(i);
            } else {
                end = x.off + x.size;
            }
        }
        out
    }
    /// Why the model cannot be written.
    pub fn problem(&self) -> Option<&'static str> {
        let mut m = self.clone();
        m.delete_orphans();
        m.delete_unused_versions();
        let has = |d: &Data| m.find(d).is_some();
        let live: Vec<&MSec> = m.secs.iter().filter(|s| !s.del).collect();
        let linked = m.linked();
        if !live.is_empty() && !has(&Data::ShStr) {
            return Some("no section names");
        }
        let syms: Vec<&MSym> = m.syms.iter().filter(|s| !s.del).collect();
        let dsyms: Vec<&MSym> = m.dsyms.iter().filter(|s| !s.del).collect();
        if !syms.is_empty() && !has(&Data::Sym) || syms.iter().any(|s| !s.name.is_empty()) && !has(&Data::Str) {
            return Some("no symbol table");
        }
        if !dsyms.is_empty() && !has(&Data::DSym) {
            return Some("no dynamic symbol table");
        }
        let defs = m.vers.iter().any(|v| !v.del && matches!(v.d, VData::Def { .. })) || m.vbase.is_some();
        let needs = m.vfiles.iter().any(|f| !f.del);
        let dynstr = live.iter().any(|s| matches!(&s.data, Data::Dynamic(d) if d.iter().any(|e| matches!(e.1, DVal::Str(_)))));
        if !has(&Data::DStr) && (dsyms.iter().any(|s| !s.name.is_empty()) || defs || needs || dynstr) {
            return Some("no dynamic string table");
        }
        if defs && !has(&Data::Verdef) || needs && !has(&Data::Verneed) {
            return Some("no version table");
        }
        if has(&Data::Gnu) && m.gnu_nbucket == 0 || has(&Data::Hash) && m.nbucket == 0 {
            return Some("no buckets");
        }
        for s in &live {
            let gone = |r: Option<usize>| r.is_some_and(|i| m.secs[i].del);
            if !s.data.is_meta() && (gone(s.link) || gone(s.info_sec)) {
                return Some("deleted link");
            }
            let dynamic = matches!(s.data, Data::DRel(_) | Data::Dynamic(_) | Data::DSym | Data::DStr | Data::Hash | Data::Gnu | Data::Versym | Data::Verdef | Data::Verneed);
            if dynamic && !linked {
                return Some("dynamic without segments");
            }
            if matches!(&s.data, Data::Dynamic(d) if d.iter().any(|e| e.1 == DVal::Auto && !AUTO.contains(&e.0))) {
                return Some("no automatic value");
            }
        }
        // Compact relocations are not decoded, so they cannot follow symbols.
        for s in live.iter().filter(|s| s.ty == SHT_CREL) {
            let Some(i) = s.link else { continue };
            let syms = match m.secs[i].data {
                Data::Sym => &m.syms,
                Data::DSym => &m.dsyms,
                _ => continue,
            };
            let gnu = m.gnu_nbucket.max(1);
            let key = |s: &MSym| (!s.local(), has(&Data::Gnu) && matches!(m.secs[i].data, Data::DSym) && s.hashed(), if has(&Data::Gnu) && matches!(m.secs[i].data, Data::DSym) && s.hashed() { gnu_hash(&s.name) % gnu } else { 0 });
            if syms.iter().any(|s| s.del) || !syms.is_sorted_by_key(key) {
                return Some("compact relocations");
            }
        }
        // Tables without what they describe.
        if !has(&Data::DSym) && (has(&Data::DStr) || has(&Data::Hash) || has(&Data::Gnu) || has(&Data::Versym)) || !has(&Data::DStr) && (has(&Data::DSym) || has(&Data::Verdef) || has(&Data::Verneed)) || !has(&Data::Sym) && (has(&Data::Str) || has(&Data::Shndx)) || !has(&Data::Str) && has(&Data::Sym) {
            return Some(ODD);
        }
        if linked && !self.conflicts(self.segs.iter().filter(|p| !p.del).count()).is_empty() {
            return Some("loaded sections overlap");
        }
        None
    }

    // ------------------------------------------------------------ encoding

    /// Encode a model without deleted items and with ordered symbols. Offsets and addresses of loaded
    /// sections are assigned, and the segments filled in, by `plan`.
    pub fn encode(&mut self, g: &mut Gen) -> Vec<u8> {
        let mut img = self.img();
        img.osabi = self.h.osabi;
        img.abiver = self.h.abiver;
        img.ety = self.h.ety;
        img.version = 1;
        img.entry = self.h.entry;
        img.flags = self.h.flags;
        let (be, is64) = (self.be, self.is64);
        // Version indices.
        let mut ndx: Vec<u16> = vec![];
        let mut next = 2u16;
        for _ in &self.vers {
            next += if g.chance(1, 8) { g.upto(3) as u16 } else { 0 };
            ndx.push(next);
            next += 1;
        }
        if g.chance(1, 4) && ndx.len() > 1 {
            let i = g.below(ndx.len());
            ndx.rotate_left(i);
        }
        // Strings.
        let mut strs = StrTab::new(b"\0", g.bool());
        let mut dstrs = StrTab::new(b"\0", g.bool());
        let add = |t: &mut StrTab, g: &mut Gen, s: &[u8]| if s.is_empty() && (t.merge || g.bool()) { 0 } else { t.add(s) };
        let name_offs: Vec<u32> = self.syms.iter().map(|s| add(&mut strs, g, &s.name)).collect();
        let dname_offs: Vec<u32> = self.dsyms.iter().map(|s| add(&mut dstrs, g, &s.name)).collect();
        let mut vd: Vec<Verdef> = vec![];
        if let Some(b) = &self.vbase {
            vd.push(Verdef { flags: 1, ndx: 1, hash: sysv_hash(b), names: vec![b.clone()] });
        }
        let mut vn: Vec<Verneed> = self.vfiles.iter().map(|f| Verneed { file: f.name.clone(), aux: vec![] }).collect();
        for (i, v) in self.vers.iter().enumerate() {
            match &v.d {
                VData::Def { flags, names } => vd.push(Verdef { flags: *flags, ndx: ndx[i], hash: sysv_hash(&names[0]), names: names.clone() }),
                VData::Need { flags, name, file } => vn[*file].aux.push(Vernaux { name: name.clone(), hash: sysv_hash(name), flags: *flags, other: ndx[i] }),
            }
        }
        let vd_data = put_verdef(g, be, &vd, &mut dstrs);
        let vn_data = put_verneed(g, be, &vn, &mut dstrs);
        let dyn_strs: Vec<Vec<u32>> = self
            .secs
            .iter()
            .map(|s| match &s.data {
                Data::Dynamic(d) => d.iter().map(|(_, v)| if let DVal::Str(s) = v { dstrs.add(s) } else { 0 }).collect(),
                _ => vec![],
            })
            .collect();
        let raw = |s: &MSym, off: u32| {
            let mut y = Sym { name: s.name.clone(), name_off: off, info: s.info, other: s.other, shndx: s.shndx, value: s.value, size: s.size, xshndx: 0 };
            if let Some(i) = s.sec {
                if i + 1 >= 0xff00 {
                    y.shndx = SHN_XINDEX;
                    y.xshndx = i as u32 + 1;
                } else {
                    y.shndx = i as u16 + 1;
                }
            }
            y
        };
        let mut syms = vec![Sym::default()];
        syms.extend(self.syms.iter().zip(&name_offs).map(|(s, &o)| raw(s, o)));
        let mut dsyms = vec![Sym::default()];
        dsyms.extend(self.dsyms.iter().zip(&dname_offs).map(|(s, &o)| raw(s, o)));
        // An extended index may be used for small indices too.
        if self.find(&Data::Shndx).is_some() {
            for i in 1..syms.len() {
                if self.syms[i - 1].sec.is_some() && syms[i].shndx != SHN_XINDEX && g.chance(1, 4) {
                    syms[i].xshndx = syms[i].shndx as u32;
                    syms[i].shndx = SHN_XINDEX;
                }
            }
        }
        let put_syms = |v: &[Sym]| {
            let mut b = img.b();
            v.iter().for_each(|s| img.put_sym(&mut b, s));
            b.v
        };
        let nlocal = |v: &[MSym]| 1 + v.iter().take_while(|s| s.local()).count() as u32;
        let at = |d: Data| self.find(&d).map_or(0, |i| i as u32 + 1);
        let base = 1 + self.dsyms.iter().take_while(|s| !s.hashed()).count();
        let mut out = vec![Sec::default()];
        for s in &self.secs {
            let mut x = Sec { name: s.name.clone(), ty: s.ty, flags: s.flags, align: s.align, entsize: s.entsize, link: s.link.map_or(0, |i| i as u32 + 1), info: s.info_sec.map_or(s.info, |i| i as u32 + 1), ..Sec::default() };
            x.data = match &s.data {
                Data::Bytes(d) => d.clone(),
                Data::NoBits(n) => {
                    x.size = *n;
                    vec![]
                }
                Data::Rel(r) | Data::DRel(r) => {
                    let mut b = img.b();
                    for r in r {
                        img.put_rel(&mut b, &Rel { off: r.off, sym: r.sym.map_or(0, |i| i as u32 + 1), ty: r.ty, addend: r.addend }, s.ty == SHT_RELA);
                    }
                    b.v
                }
                Data::Dynamic(d) => vec![0; (d.len() + 1 + self.spare) * 2 * self.word() as usize],
                Data::Attrs(a) => put_attrs(be, a),
                Data::ShStr => vec![],
                Data::Sym => {
                    (x.link, x.info) = (at(Data::Str), nlocal(&self.syms));
                    put_syms(&syms)
                }
                Data::DSym => {
                    (x.link, x.info) = (at(Data::DStr), nlocal(&self.dsyms));
                    put_syms(&dsyms)
                }
                Data::Shndx => {
                    x.link = at(Data::Sym);
                    let mut b = img.b();
                    syms.iter().for_each(|s| {
                        b.u32(s.xshndx);
                    });
                    b.v
                }
                Data::Str => strs.v.clone(),
                Data::DStr => dstrs.v.clone(),
                Data::Hash => {
                    x.link = at(Data::DSym);
                    let h: Vec<usize> = (1..dsyms.len()).filter(|&i| !dsyms[i].name.is_empty()).collect();
                    put_sysv(g, be, dsyms.len(), &h, &dsyms, self.nbucket)
                }
                Data::Gnu => {
                    x.link = at(Data::DSym);
                    let bloom = gnu_bloom(is64, &dsyms, base, self.gnu_bloom as usize, self.gnu_shift);
                    put_gnu(be, is64, &dsyms, base, self.gnu_nbucket, &bloom, self.gnu_shift)
                }
                Data::Versym => {
                    x.link = at(Data::DSym);
                    let mut b = img.b();
                    b.u16(0);
                    for s in &self.dsyms {
                        let v = match s.ver {
                            Vr::Local => 0,
                            Vr::Global => 1,
                            Vr::Id(i) => ndx[i],
                        };
                        b.u16(v | (s.hidden as u16) << 15);
                    }
                    b.v
                }
                Data::Verdef => {
                    (x.link, x.info) = (at(Data::DStr), vd.len() as u32);
                    vd_data.clone()
                }
                Data::Verneed => {
                    (x.link, x.info) = (at(Data::DStr), vn.len() as u32);
                    vn_data.clone()
                }
            };
            if s.ty != SHT_NOBITS {
                x.size = x.data.len() as u64;
            }
            out.push(x);
        }
        // Layout.
        img.secs = if self.secs.is_empty() { vec![] } else { out };
        let linked = !self.segs.is_empty();
        let mut end = img.ehsize() as u64;
        if linked {
            img.phoff = end.div_ceil(self.word()) * self.word();
            end = self.plan(g, &mut img);
        }
        if !self.secs.is_empty() {
            // Section names.
            let mut t = StrTab::new(b"\0", g.bool());
            for i in 1..img.secs.len() {
                let name = img.secs[i].name.clone();
                img.secs[i].name_off = add(&mut t, g, &name);
            }
            img.shstrndx = self.find(&Data::ShStr).map_or(0, |i| i + 1);
            let s = &mut img.secs[img.shstrndx];
            s.size = t.v.len() as u64;
            s.data = t.v;
            let mut chunks: Vec<usize> = (0..img.secs.len()).filter(|&i| i == 0 || !(linked && self.secs[i - 1].alloc())).collect();
            for i in (1..chunks.len()).rev() {
                if g.bool() {
                    let j = g.below(i + 1);
                    chunks.swap(i, j);
                }
            }
            for c in chunks {
                if g.chance(1, 5) {
                    end += g.upto(20);
                }
                let a = if c == 0 { self.word() } else { self.natural(c - 1) };
                end = end.div_ceil(a) * a;
                if c == 0 {
                    img.shoff = end;
                    end += (img.secs.len() * img.shentsize()) as u64;
                } else {
                    img.secs[c].off = end;
                    end += img.secs[c].data.len() as u64;
                }
            }
        }
        // The dynamic table needs addresses.
        for i in 0..self.secs.len() {
            if let Data::Dynamic(d) = &self.secs[i].data {
                let mut b = img.b();
                for (j, (tag, v)) in d.iter().enumerate() {
                    b.w(*tag as u64).w(match v {
                        DVal::Int(v) => *v,
                        DVal::Str(_) => dyn_strs[i][j] as u64,
                        DVal::Auto => {
                            let s = &img.secs[self.find(&auto_kind(*tag)).unwrap() + 1];
                            match *tag {
                                10 => s.size,
                                0x6ffffffd | 0x6fffffff => s.info as u64,
                                _ => s.addr,
                            }
                        }
                    });
                }
                for _ in 0..1 + self.spare {
                    b.w(0).w(0);
                }
                img.secs[i + 1].data = b.v;
            }
        }
        for (s, x) in self.secs.iter_mut().zip(img.secs.iter().skip(1)) {
            (s.addr, s.off, s.size) = (x.addr, x.off, x.size);
        }
        self.attach();
        img.segs = self.segs.iter().map(|s| s.s.clone()).collect();
        img.min_len = img.min_len.max(end as usize);
        img.emit()
    }
    /// Alignment that the format demands of the contents of a section.
    pub fn natural(&self, i: usize) -> u64 {
        let s = &self.secs[i];
        s.data.natural_align(self.word()).max(s.align)
    }
    /// Which sections a segment holds.
    pub fn attach(&mut self) {
        for p in &mut self.segs {
            p.secs = (0..self.secs.len()).filter(|&i| self.secs[i].alloc() && self.secs[i].addr >= p.s.vaddr && self.secs[i].addr - p.s.vaddr < p.s.memsz).collect();
        }
    }
    /// Place the loaded sections in the segments. The load segments are generated here, the others
    /// name the sections they cover.
    fn plan(&mut self, g: &mut Gen, img: &mut Img) -> u64 {
        // File order.
        let mut order: Vec<usize> = (0..self.secs.len()).filter(|&i| self.secs[i].alloc()).collect();
        if g.chance(1, 3) {
            for i in (1..order.len()).rev() {
                let j = g.below(i + 1);
                order.swap(i, j);
            }
        }
        let page = g.pickc(&[0x1000u64, 0x10, 0x100, 0x4000]).max(order.iter().map(|&i| self.natural(i)).max().unwrap_or(1));
        let loads: Vec<usize> = (0..self.segs.len()).filter(|&i| self.segs[i].s.ty == PT_LOAD).collect();
        let with_header = g.bool();
        let phend = img.phoff + (self.segs.len() * img.phentsize()) as u64;
        let mut off = phend + if g.chance(1, 2) { g.upto(300) } else { 0 };
        let mut addr = if g.bool() { 0 } else { g.pickc(&[0x400000u64, 0x10000, 0x8000_0000]) } / page * page;
        let n = order.len();
        let mut k = 0;
        for (l, &li) in loads.iter().enumerate() {
            let header = l == 0 && with_header;
            // Leave at least one section for each of the rest, when there are enough.
            let left = loads.len() - l;
            let cnt = if left == 1 { n - k } else { (n - k) / left + g.below(2).min((n - k) % left) };
            let cnt = cnt.min(n - k);
            let start = if header { 0 } else { off };
            addr = addr.div_ceil(page) * page + start % page;
            let (vaddr, mut tail) = (addr, 0u64);
            let delta = vaddr.wrapping_sub(start);
            let mut fend = if header { phend } else { off };
            for &i in &order[k..k + cnt] {
                let a = self.natural(i).max(1);
                let x = &mut img.secs[i + 1];
                if x.ty == SHT_NOBITS {
                    // Beyond the file contents, or where the section would be for thread-local data.
                    if x.flags & SHF_TLS != 0 {
                        x.addr = (off.div_ceil(a) * a).wrapping_add(delta);
                        x.off = off.div_ceil(a) * a;
                    } else {
                        x.off = off;
                        tail = tail.div_ceil(a) * a;
                        x.addr = tail;
                        tail += x.size;
                    }
                    continue;
                }
                if g.chance(1, 3) {
                    off += g.upto(40);
                }
                off = off.div_ceil(a) * a;
                x.off = off;
                x.addr = off.wrapping_add(delta);
                off += x.size;
                fend = off;
            }
            // Zero-initialised sections follow the contents.
            let base = fend.wrapping_add(delta).div_ceil(page) * page;
            let mut memend = fend.wrapping_add(delta);
            for &i in &order[k..k + cnt] {
                let x = &mut img.secs[i + 1];
                if x.ty == SHT_NOBITS && x.flags & SHF_TLS == 0 {
                    x.addr += base;
                    memend = memend.max(x.addr + x.size);
                }
            }
            k += cnt;
            let s = &mut self.segs[li].s;
            s.off = start;
            s.vaddr = vaddr;
            s.paddr = if g.chance(1, 6) { vaddr ^ 0x1000_0000 } else { vaddr };
            s.filesz = fend - start;
            s.memsz = memend - vaddr;
            s.align = page;
            addr = memend + page * g.upto(2);
            img.min_len = img.min_len.max(fend as usize);
        }
        // Where the program headers are, or nowhere near anything else.
        let phaddr = self.segs.iter().find(|p| p.s.ty == PT_LOAD && p.s.off == 0 && p.s.filesz >= phend).map_or(0x7000_0000, |p| p.s.vaddr) + img.phoff;
        for p in &mut self.segs {
            let s = &mut p.s;
            if s.ty == PT_LOAD {
                continue;
            }
            if s.ty == PT_PHDR {
                s.off = img.phoff;
                s.filesz = phend - img.phoff;
                s.memsz = s.filesz;
                s.vaddr = phaddr;
                s.paddr = s.vaddr;
                s.align = if self.is64 { 8 } else { 4 };
                continue;
            }
            // Covers the listed sections.
            let mut first = true;
            for &i in &p.secs {
                let x = &img.secs[i + 1];
                let fs = if x.ty == SHT_NOBITS { 0 } else { x.size };
                if first {
                    (s.off, s.vaddr, s.filesz, s.memsz) = (x.off, x.addr, fs, x.size);
                    first = false;
                }
                s.align = s.align.max(x.align);
            }
            s.paddr = s.vaddr;
        }
        off
    }
}

pub fn put_attrs(be: bool, a: &[AttrSub]) -> Vec<u8> {
    let mut b = B::new(be, false);
    b.u8(b'A');
    for a in a {
        let p = b.len();
        b.u32(0).bytes(&a.vendor).u8(0);
        for (sc, data) in &a.subs {
            let q = b.len();
            b.u8(match sc {
                Scope::File => 1,
                Scope::Secs(_) => 2,
                Scope::Syms(_) => 3,
            });
            b.u32(0);
            if let Scope::Secs(v) | Scope::Syms(v) = sc {
                v.iter().for_each(|&i| {
                    b.uleb(i as u64 + 1);
                });
                b.u8(0);
            }
            b.bytes(data);
            let n = b.len() - q;
            b.put(q + 1, 4, n as u64);
        }
        let n = b.len() - p;
        b.put(p, 4, n as u64);
    }
    b.v
}
fn get_attrs(be: bool, v: &[u8]) -> Option<Vec<AttrSub>> {
    let mut out = vec![];
    if v.is_empty() {
        return Some(out);
    }
    if v.first()? != &b'A' {
        return None;
    }
    let mut p = 1;
    while p < v.len() {
        let len = D::new(be, false, v).at(p).u32()? as usize;
        let s = v.get(p + 4..p.checked_add(len)?)?;
        p += len;
        let vendor = cstr_at(s, 0)?.to_vec();
        let mut q = vendor.len() + 1;
        let mut subs = vec![];
        while q < s.len() {
            let mut d = D::new(be, false, s).at(q);
            let (tag, len) = (d.u8()?, d.u32()? as usize);
            let t = s.get(q + 5..q.checked_add(len)?)?;
            q += len;
            let mut d = D::new(be, false, t);
            let mut idx = vec![];
            if tag != 1 {
                loop {
                    let i = d.uleb()? as usize;
                    if i == 0 {
                        break;
                    }
                    idx.push(i - 1);
                }
            }
            let sc = match tag {
                1 => Scope::File,
                2 => Scope::Secs(idx),
                3 => Scope::Syms(idx),
                _ => return None,
            };
            subs.push((sc, t[d.p..].to_vec()));
        }
        out.push(AttrSub { vendor, subs });
    }
    Some(out)
}

// ---------------------------------------------------------------- decoding

/// Strictly decode a file into a model.
pub fn decode(v: &[u8]) -> R<Model> {
    let img = parse(v)?;
    let mut m = Model { is64: img.is64, be: img.be, h: Header { osabi: img.osabi, abiver: img.abiver, ety: img.ety, machine: img.machine, entry: img.entry, flags: img.flags }, ..Model::default() };
    let sref = |i: u32, what: &str| -> R<Option<usize>> {
        ensure!((i as usize) < img.secs.len().max(1), "{what} {i} of {} sections", img.secs.len());
        Ok((i as usize).checked_sub(1))
    };
    m.segs = img.segs.iter().map(|s| MSeg { del: false, s: s.clone(), secs: vec![] }).collect();
    if !m.segs.is_empty() {
        ensure_eq!(img.phoff, (img.ehsize() as u64).div_ceil(m.word()) * m.word(), "e_phoff");
    }
    let one = |ty: u32| -> R<Option<usize>> {
        let v: Vec<usize> = (0..img.secs.len()).filter(|&i| img.secs[i].ty == ty).collect();
        ensure!(v.len() < 2, "{} sections of type {ty:#x}", v.len());
        Ok(v.first().copied())
    };
    let symtab = one(SHT_SYMTAB)?;
    let dynsym = one(SHT_DYNSYM)?;
    let raw = symtab.map_or(Ok(vec![]), |i| img.symbols(i))?;
    let draw = dynsym.map_or(Ok(vec![]), |i| img.symbols(i))?;
    let dynstr = dynsym.map_or(0, |i| img.secs[i].link as usize);
    for (raw, out, sec) in [(&raw, &mut m.syms, symtab), (&draw, &mut m.dsyms, dynsym)] {
        let Some(sec) = sec else { continue };
        ensure!(raw.first() == Some(&Sym::default()), "null symbol {:?}", raw.first());
        for (i, s) in raw.iter().enumerate().skip(1) {
            let sec = if s.shndx == SHN_XINDEX {
                sref(s.xshndx, "symbol section")?
            } else if s.shndx >= SHN_LORESERVE {
                None
            } else {
                sref(s.shndx as u32, "symbol section")?
            };
            let shndx = if sec.is_some() { 0 } else { s.shndx };
            ensure!(!(s.shndx == SHN_XINDEX && sec.is_none()), "symbol {i} with an extended index of 0");
            out.push(MSym { del: false, name: s.name.clone(), info: s.info, other: s.other, shndx, sec, value: s.value, size: s.size, ver: Vr::Local, hidden: false });
        }
        let nlocal = 1 + out.iter().filter(|s| s.local()).count();
        ensure!(out.iter().take(nlocal - 1).all(|s| s.local()), "local symbols do not come first");
        ensure_eq!(img.secs[sec].info as usize, nlocal, "sh_info of symbol table");
    }
    // Versions.
    let strs: &[u8] = if dynstr != 0 { &img.secs[dynstr].data } else { &[] };
    let mut idx: Vec<u16> = vec![];
    if let Some(i) = one(SHT_GNU_VERDEF)? {
        let s = &img.secs[i];
        ensure_eq!(s.link as usize, dynstr, "verdef sh_link");
        for d in must_some!(get_verdefs(m.be, &s.data, strs, s.info as usize), "invalid version definitions") {
            ensure!(!d.names.is_empty(), "version definition without name");
            ensure_eq!(d.hash, sysv_hash(&d.names[0]), "vd_hash");
            if d.flags & 1 != 0 {
                ensure!(m.vbase.is_none() && d.ndx == 1 && d.names.len() == 1 && d.flags == 1, "base version {d:?}");
                m.vbase = Some(d.names[0].clone());
            } else {
                idx.push(d.ndx);
                m.vers.push(MVer { del: false, d: VData::Def { flags: d.flags, names: d.names } });
            }
        }
    }
    if let Some(i) = one(SHT_GNU_VERNEED)? {
        let s = &img.secs[i];
        ensure_eq!(s.link as usize, dynstr, "verneed sh_link");
        for d in must_some!(get_verneeds(m.be, &s.data, strs, s.info as usize), "invalid version needs") {
            let file = m.vfiles.len();
            m.vfiles.push(MFile { del: false, name: d.file });
            for a in d.aux {
                ensure_eq!(a.hash, sysv_hash(&a.name), "vna_hash");
                idx.push(a.other);
                m.vers.push(MVer { del: false, d: VData::Need { flags: a.flags, name: a.name, file } });
            }
        }
    }
    for (i, x) in idx.iter().enumerate() {
        ensure!((2..0x8000).contains(x) && !idx[..i].contains(x), "version index {x:#x} reserved or repeated");
    }
    if let Some(i) = one(SHT_GNU_VERSYM)? {
        let s = &img.secs[i];
        ensure_eq!((s.link as usize, s.data.len(), s.entsize), (dynsym.unwrap_or(0), 2 * draw.len(), 2), "versym sh_link, size and sh_entsize");
        let mut d = img.d(&s.data);
        ensure_eq!(d.u16(), Some(0), "version of null symbol");
        for (i, y) in m.dsyms.iter_mut().enumerate() {
            let x = d.u16().unwrap();
            y.hidden = x & 0x8000 != 0;
            y.ver = match x & 0x7fff {
                0 => Vr::Local,
                1 => Vr::Global,
                x => Vr::Id(must_some!(idx.iter().position(|&y| x == y), "symbol {i} has unknown version {x}")),
            };
        }
    }
    // Sections.
    for (i, s) in img.secs.iter().enumerate().skip(1) {
        let mut x = MSec { del: false, name: s.name.clone(), ty: s.ty, flags: s.flags, addr: s.addr, off: s.off, align: s.align, entsize: s.entsize, link: sref(s.link, "sh_link")?, info: s.info, info_sec: None, data: Data::Bytes(vec![]), size: s.size };
        if s.flags & SHF_INFO_LINK != 0 || matches!(s.ty, SHT_REL | SHT_RELA) {
            x.info_sec = sref(s.info, "sh_info")?;
        }
        x.data = match s.ty {
            SHT_NOBITS => Data::NoBits(s.size),
            SHT_REL | SHT_RELA => {
                let by_dyn = dynsym.is_some_and(|d| d == s.link as usize);
                let n = if by_dyn {
                    draw.len()
                } else if symtab.is_some_and(|d| d == s.link as usize) {
                    raw.len()
                } else {
                    ensure_eq!(s.link, 0, "sh_link of relocations");
                    1
                };
                let mut r = vec![];
                for y in img.rels(s)? {
                    ensure!((y.sym as usize) < n, "relocation in section {i} refers to symbol {} of {n}", y.sym);
                    r.push(MRel { off: y.off, sym: (y.sym as usize).checked_sub(1), ty: y.ty, addend: y.addend });
                }
                if by_dyn || s.link == 0 || s.flags & SHF_ALLOC != 0 { Data::DRel(r) } else { Data::Rel(r) }
            }
            SHT_SYMTAB => Data::Sym,
            SHT_DYNSYM => Data::DSym,
            SHT_SYMTAB_SHNDX => {
                ensure_eq!((s.link as usize, s.entsize), (symtab.unwrap_or(0), 4), "symtab_shndx sh_link and sh_entsize");
                Data::Shndx
            }
            SHT_STRTAB if symtab.is_some_and(|y| img.secs[y].link as usize == i) => Data::Str,
            SHT_STRTAB if dynstr == i => Data::DStr,
            SHT_STRTAB if img.shstrndx == i => Data::ShStr,
            SHT_HASH => {
                let mut d = img.d(&s.data);
                m.nbucket = d.u32().unwrap_or(0);
                ensure_eq!((s.link as usize, d.u32(), s.entsize), (dynsym.unwrap_or(0), Some(draw.len() as u32), 4), "hash table sh_link, chain count and sh_entsize");
                for (j, y) in draw.iter().enumerate().skip(1) {
                    if !y.name.is_empty() {
                        let f = must_some!(sysv_find_all(m.be, &s.data, &y.name, &|i| draw[i].name.clone()), "invalid hash table");
                        ensure!(f.contains(&j), "dynamic symbol {j} is not in the hash table");
                    }
                }
                Data::Hash
            }
            SHT_GNU_HASH => {
                let mut d = img.d(&s.data);
                let mut get = || Some((d.u32()?, d.u32()?, d.u32()?, d.u32()?));
                let (nb, base, bloom, shift) = must_some!(get(), "short GNU hash table");
                (m.gnu_nbucket, m.gnu_bloom, m.gnu_shift) = (nb, bloom, shift);
                ensure_eq!(s.link as usize, dynsym.unwrap_or(0), "GNU hash table sh_link");
                let hashed = m.dsyms.iter().filter(|s| s.hashed()).count();
                if hashed == 0 {
                    ensure_eq!(s.data.len(), 16 + img.word() * bloom as usize + 4 * nb as usize, "size of empty GNU hash table");
                    ensure!(s.data[16 + img.word() * bloom as usize..].iter().all(|&b| b == 0), "buckets of empty GNU hash table");
                } else {
                    ensure_eq!(base as usize, draw.len() - hashed, "first symbol in the GNU hash table");
                    for (j, y) in draw.iter().enumerate().skip(base as usize) {
                        let f = must_some!(gnu_find_all(m.be, m.is64, &s.data, draw.len(), &y.name, &|i| draw[i].name.clone()), "invalid GNU hash table");
                        ensure!(f.contains(&j), "dynamic symbol {j} is not in the GNU hash table");
                    }
                }
                Data::Gnu
            }
            SHT_GNU_VERSYM => Data::Versym,
            SHT_GNU_VERDEF => Data::Verdef,
            SHT_GNU_VERNEED => Data::Verneed,
            SHT_DYNAMIC => {
                let mut d = img.d(&s.data);
                let strs = &img.secs[s.link as usize].data;
                let mut out = vec![];
                loop {
                    let (t, v) = (must_some!(d.w(), "dynamic table without end"), must_some!(d.w(), "dynamic table without end"));
                    let t = if m.is64 { t as i64 } else { t as u32 as i32 as i64 };
                    if t == 0 {
                        break;
                    }
                    let v = if STRING_TAGS.contains(&t) {
                        DVal::Str(must_some!(cstr_at(strs, v as usize), "dynamic entry {t:#x} has string offset {v:#x}").to_vec())
                    } else if AUTO.contains(&t) {
                        let ty = match auto_kind(t) {
                            Data::Hash => SHT_HASH,
                            Data::DStr => SHT_STRTAB,
                            Data::DSym => SHT_DYNSYM,
                            Data::Gnu => SHT_GNU_HASH,
                            Data::Versym => SHT_GNU_VERSYM,
                            Data::Verdef => SHT_GNU_VERDEF,
                            _ => SHT_GNU_VERNEED,
                        };
                        let x = if ty == SHT_STRTAB { img.secs.get(dynstr) } else { img.secs.iter().find(|x| x.ty == ty) };
                        let x = must_some!(x, "dynamic entry {t:#x} without section");
                        let want = match t {
                            10 => x.size,
                            0x6ffffffd | 0x6fffffff => x.info as u64,
                            _ => x.addr,
                        };
                        ensure_eq!(v, want, "value of dynamic entry {t:#x}");
                        DVal::Auto
                    } else {
                        DVal::Int(v)
                    };
                    out.push((t, v));
                }
                Data::Dynamic(out)
            }
            t if t == SHT_GNU_ATTRIBUTES || attr_type(m.h.machine) == t => Data::Attrs(must_some!(get_attrs(m.be, &s.data), "invalid attributes")),
            _ => Data::Bytes(s.data.clone()),
        };
        m.secs.push(x);
    }
    m.attach();
    // Nothing overlaps.
    let mut ranges = vec![(0, img.ehsize() as u64, "file header".to_string())];
    if !img.segs.is_empty() {
        ranges.push((img.phoff, img.phoff + (img.segs.len() * img.phentsize()) as u64, "program headers".into()));
    }
    if !img.secs.is_empty() {
        ranges.push((img.shoff, img.shoff + (img.secs.len() * img.shentsize()) as u64, "section headers".into()));
    }
    for (i, s) in img.secs.iter().enumerate().skip(1) {
        if s.ty != SHT_NOBITS && s.size > 0 {
            ranges.push((s.off, s.off + s.size, format!("section {i}")));
        }
    }
    ranges.sort();
    for w in ranges.windows(2) {
        ensure!(w[0].1 <= w[1].0, "{} at {:#x}..{:#x} overlaps {} at {:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0);
    }
    Ok(m)
}

/// Loaded contents are where the segments say.
pub fn mapped(m: &Model, v: &[u8]) -> R {
    if m.segs.is_empty() {
        return Ok(());
    }
    for p in &m.segs {
        if p.s.ty != PT_LOAD {
            continue;
        }
        ensure!(p.s.align < 2 || p.s.off % p.s.align == p.s.vaddr % p.s.align, "segment offset {:#x} and address {:#x} disagree modulo {:#x}", p.s.off, p.s.vaddr, p.s.align);
    }
    for (i, s) in m.secs.iter().enumerate() {
        if !s.alloc() || s.ty == SHT_NOBITS || s.size == 0 {
            continue;
        }
        let Some(p) = m.segs.iter().find(|p| p.s.ty == PT_LOAD && s.addr >= p.s.vaddr && s.addr - p.s.vaddr < p.s.filesz) else {
            fail!("section {i} at {:#x}+{:#x} is in no load segment", s.addr, s.size);
        };
        ensure!(s.addr.wrapping_sub(p.s.vaddr) == s.off.wrapping_sub(p.s.off) && s.off + s.size <= p.s.off + p.s.filesz, "section {i} at {:#x}+{:#x}, file offset {:#x} is not mapped by the segment at {:#x}+{:#x}, file offset {:#x}", s.addr, s.size, s.off, p.s.vaddr, p.s.filesz, p.s.off);
        ensure!(s.off + s.size <= v.len() as u64, "section {i} beyond the file");
    }
    Ok(())
}

/// Compare what a file should contain with what was decoded from it.
pub fn same(got: &Model, want: &Model) -> R {
    ensure_eq!((got.is64, got.be), (want.is64, want.be), "class and byte order");
    ensure_eq!(got.h, want.h, "header");
    ensure_eq!(got.segs.len(), want.segs.len(), "number of segments");
    for (i, (a, b)) in got.segs.iter().zip(&want.segs).enumerate() {
        ensure_eq!(a.s, b.s, "segment {i}");
    }
    let names = |m: &Model| m.secs.iter().map(|s| String::from_utf8_lossy(&s.name).into_owned()).collect::<Vec<_>>();
    ensure_eq!(names(got), names(want), "section names");
    let loaded = !want.segs.is_empty();
    for (i, (a, b)) in got.secs.iter().zip(&want.secs).enumerate() {
        let n = String::from_utf8_lossy(&b.name);
        ensure_eq!((a.ty, a.flags), (b.ty, b.flags), "type and flags of section {i} {n}");
        ensure_eq!(a.addr, if b.alloc() { b.addr } else { 0 }, "address of section {i} {n}");
        if loaded && b.alloc() && b.ty != SHT_NOBITS {
            ensure_eq!(a.off, b.off, "offset of loaded section {i} {n}");
        }
        if !b.data.is_meta() {
            ensure_eq!((a.align, a.entsize), (b.align, b.entsize), "alignment and entry size of section {i} {n}");
            ensure_eq!(a.link, b.link, "sh_link of section {i} {n}");
            if b.info_sec.is_some() {
                ensure_eq!(a.info_sec, b.info_sec, "sh_info of section {i} {n}");
            } else if a.info_sec.is_none() {
                ensure_eq!(a.info, b.info, "sh_info of section {i} {n}");
            } else {
                ensure_eq!(a.info_sec.map_or(0, |x| x as u32 + 1), b.info, "sh_info of section {i} {n}");
            }
        }
        if a.ty != SHT_NOBITS && a.align > 1 {
            ensure!(a.off % a.align == 0, "section {i} {n} at offset {:#x} with alignment {:#x}", a.off, a.align);
        }
        ensure_eq!(a.data, b.data, "contents of section {i} {n}");
    }
    for (what, a, b, vs) in [("symbol", &got.syms, &want.syms, false), ("dynamic symbol", &got.dsyms, &want.dsyms, want.find(&Data::Versym).is_some())] {
        ensure_eq!(a.len(), b.len(), "number of {what}s");
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let mut y = y.clone();
            if y.sec.is_some() {
                y.shndx = 0;
            }
            if !vs {
                (y.ver, y.hidden) = (Vr::Local, false);
            }
            ensure_eq!(*x, y, "{what} {i}");
        }
    }
    ensure_eq!(got.vbase, want.vbase, "base version");
    ensure_eq!(got.vers, want.vers, "versions");
    ensure_eq!(got.vfiles, want.vfiles, "version files");
    if want.find(&Data::Hash).is_some() {
        ensure_eq!(got.nbucket, want.nbucket, "hash buckets");
    }
    if want.find(&Data::Gnu).is_some() {
        ensure_eq!((got.gnu_nbucket, got.gnu_bloom, got.gnu_shift), (want.gnu_nbucket, want.gnu_bloom, want.gnu_shift), "GNU hash parameters");
    }
    Ok(())
}

// ---------------------------------------------------------------- generation

fn sec_flags(g: &mut Gen) -> u64 {
    g.pickc(&[SHF_ALLOC, SHF_ALLOC | SHF_WRITE, SHF_ALLOC | SHF_EXECINSTR, 0, SHF_MERGE | SHF_STRINGS, SHF_ALLOC | SHF_WRITE | SHF_TLS, SHF_ALLOC | 0x8000_0000])
}
pub fn gen_msym(g: &mut Gen, m: &Model, names: &[Vec<u8>], dynamic: bool) -> MSym {
    let n = m.secs.iter().filter(|s| !s.del).count();
    let mut s = MSym {
        del: false,
        name: if g.chance(1, 8) { vec![] } else { g.pick(names).clone() },
        info: 0,
        other: g.upto(3) as u8,
        shndx: 0,
        sec: None,
        value: g.uint(m.img().wbits()),
        size: g.uint(m.img().wbits()),
        ver: Vr::Local,
        hidden: false,
    };
    s.info = if dynamic { g.pickc(&[1u8, 1, 1, 2, 0]) } else { g.pickc(&[0u8, 1, 2, 10]) } << 4 | g.pickc(&[0u8, 1, 2, 3, 4, 6, 10]);
    match g.upto(5) {
        0 => {}
        1 => s.shndx = g.pickc(&[SHN_ABS, SHN_COMMON, 0xff05]),
        _ if n > 0 => {
            let i = (0..m.secs.len()).filter(|&i| !m.secs[i].del).nth(g.below(n)).unwrap();
            s.sec = Some(i);
        }
        _ => {}
    }
    s
}
pub fn gen_mrels(g: &mut Gen, m: &Model, nsyms: usize, rela: bool, max: usize) -> Vec<MRel> {
    (0..g.len(max)).map(|_| gen_mrel(g, m, nsyms, rela)).collect()
}
pub fn gen_mrel(g: &mut Gen, m: &Model, nsyms: usize, rela: bool) -> MRel {
    let wb = m.img().wbits();
    MRel {
        off: g.uint(wb),
        sym: if nsyms > 0 && g.chance(3, 4) { Some(g.below(nsyms)) } else { None },
        ty: if m.is64 { g.u32() } else { g.u8() as u32 },
        addend: match (rela, m.is64) {
            (false, _) => 0,
            (_, true) => g.i64(),
            (_, false) => g.u32() as i32 as i64,
        },
    }
}
pub fn gen_attrs(g: &mut Gen, m: &Model) -> Vec<AttrSub> {
    let (ns, ny) = (m.secs.len(), m.syms.len());
    (0..g.range(1, 3))
        .map(|_| AttrSub {
            vendor: g.name(6),
            subs: (0..g.len(3))
                .map(|_| {
                    let sc = match g.upto(2) {
                        0 => Scope::File,
                        1 => Scope::Secs((0..if ns > 0 { g.len(4) } else { 0 }).map(|_| g.below(ns)).collect()),
                        _ => Scope::Syms((0..if ny > 0 { g.len(4) } else { 0 }).map(|_| g.below(ny)).collect()),
                    };
                    (sc, g.blob(12))
                })
                .collect(),
        })
        .collect()
}

pub fn gen_model(g: &mut Gen) -> Model {
    let linked = g.chance(3, 5);
    let mut m = Model { is64: g.bool(), be: g.bool(), ..Model::default() };
    m.h = Header { osabi: g.u8(), abiver: g.u8(), ety: if linked { g.pickc(&[2, 3, 4]) } else { 1 }, machine: if g.chance(1, 8) { g.u16() } else { g.pickc(MACHINES) }, entry: 0, flags: g.u32() };
    m.h.entry = g.uint(m.img().wbits());
    let w = m.word();
    // Plain sections.
    let n = g.len(8);
    for _ in 0..n {
        let name = match g.upto(3) {
            0 => g.name(9),
            1 if g.chance(1, 3) => vec![],
            _ => g.pickc(&[".text", ".data", ".rodata", ".bss", ".comment", ".init_array", ".note.gnu", ".interp", ".tbss", ".a.text"]).as_bytes().to_vec(),
        };
        let flags = sec_flags(g);
        let align = g.pickc(&[1u64, 0, 2, 4, 8, 16, 32, 1]);
        let ty = match g.upto(9) {
            0..=3 => SHT_PROGBITS,
            4 | 5 => SHT_NOBITS,
            6 => SHT_NOTE,
            7 => g.pickc(&[SHT_INIT_ARRAY, SHT_FINI_ARRAY, SHT_PREINIT_ARRAY]),
            8 => match m.h.machine {
                40 => 0x70000001,
                50 => 0x70000001,
                8 => g.pickc(&[0x70000006, 0x7000001e]),
                62 => 0x70000001,
                _ => 0x6fff4c04,
            },
            _ => SHT_RELR,
        };
        let data = if ty == SHT_NOBITS { Data::NoBits(g.upto(5000)) } else { Data::Bytes(g.blob(48)) };
        let mut s = MSec::new(&name, ty, flags, align, data);
        s.entsize = if g.chance(1, 4) { g.upto(16) } else { 0 };
        s.info = if g.chance(1, 6) { g.u32() } else { 0 };
        m.secs.push(s);
    }
    if !linked && g.chance(1, 10) {
        m.secs.push(MSec::new(b".annobin.notes", SHT_STRTAB, 0, 1, Data::Bytes(g.blob(20))));
    }
    let pool: Vec<Vec<u8>> = (0..g.range(1, 8)).map(|_| g.name(8)).collect();
    // Dynamic tables.
    let dynamic = linked && g.chance(3, 4);
    let (hash, gnu) = (dynamic && g.chance(2, 3), dynamic && g.chance(2, 3));
    let versym = dynamic && g.chance(2, 3);
    m.nbucket = if hash { g.range(1, 6) as u32 } else { 0 };
    if gnu {
        (m.gnu_nbucket, m.gnu_bloom, m.gnu_shift) = (g.range(1, 6) as u32, 1 << g.upto(2), g.upto(31) as u32);
    }
    let (mut verdef, mut verneed) = (false, false);
    if dynamic {
        m.secs.push(MSec::new(b".dynsym", SHT_DYNSYM, SHF_ALLOC, w, Data::DSym));
        m.secs.push(MSec::new(b".dynstr", SHT_STRTAB, SHF_ALLOC, 1, Data::DStr));
        if hash {
            m.secs.push(MSec::new(b".hash", SHT_HASH, SHF_ALLOC, w, Data::Hash));
        }
        if gnu {
            m.secs.push(MSec::new(b".gnu.hash", SHT_GNU_HASH, SHF_ALLOC, w, Data::Gnu));
        }
        if versym {
            m.secs.push(MSec::new(b".gnu.version", SHT_GNU_VERSYM, SHF_ALLOC, 2, Data::Versym));
            let nd = g.len(4);
            for i in 0..nd {
                let names: Vec<Vec<u8>> = (0..g.range(1, 2)).map(|_| g.pick(&pool).clone()).collect();
                if i == 0 && g.bool() {
                    m.vbase = Some(if g.bool() { names[0].clone() } else { g.pick(&pool).clone() });
                }
                m.vers.push(MVer { del: false, d: VData::Def { flags: g.pickc(&[0u16, 0, 2, 4]), names } });
            }
            if nd > 0 || g.chance(1, 8) {
                if nd == 0 {
                    m.vbase = Some(g.pick(&pool).clone());
                }
                m.secs.push(MSec::new(b".gnu.version_d", SHT_GNU_VERDEF, SHF_ALLOC, w, Data::Verdef));
                verdef = true;
            }
            for f in 0..g.len(3) {
                m.vfiles.push(MFile { del: false, name: g.name(8) });
                for _ in 0..g.range(1, 3) {
                    let name = if g.chance(1, 8) { b"GLIBC_ABI_DT_RELR".to_vec() } else { g.pick(&pool).clone() };
                    m.vers.push(MVer { del: false, d: VData::Need { flags: g.pickc(&[0u16, 0, 2]), name, file: f } });
                }
            }
            if !m.vfiles.is_empty() {
                m.secs.push(MSec::new(b".gnu.version_r", SHT_GNU_VERNEED, SHF_ALLOC, w, Data::Verneed));
                verneed = true;
            }
        }
    }
    let symtab = g.chance(4, 5);
    let shndx = symtab && g.chance(1, 4);
    let mut names: Vec<usize> = vec![];
    if symtab {
        m.secs.push(MSec::new(b".symtab", SHT_SYMTAB, 0, w, Data::Sym));
        m.secs.push(MSec::new(b".strtab", SHT_STRTAB, 0, 1, Data::Str));
        if shndx {
            m.secs.push(MSec::new(b".symtab_shndx", SHT_SYMTAB_SHNDX, 0, 4, Data::Shndx));
        }
    }
    let with_secs = true;
    if with_secs {
        m.secs.push(MSec::new(b".shstrtab", SHT_STRTAB, 0, 1, Data::ShStr));
    }
    for s in &mut m.secs {
        match s.data {
            Data::Sym | Data::DSym => s.entsize = if m.is64 { 24 } else { 16 },
            Data::Hash | Data::Shndx => s.entsize = 4,
            Data::Versym => s.entsize = 2,
            _ => {}
        }
    }
    // Room for sections that need to know the number of symbols.
    let kinds = if with_secs { g.len(4) } else { 0 };
    let want_dynamic = dynamic && g.chance(4, 5);
    let ns = m.secs.len() + kinds + want_dynamic as usize;
    // Shuffled section order.
    let mut perm: Vec<usize> = (0..m.secs.len()).collect();
    if g.bool() {
        for i in (1..perm.len()).rev() {
            let j = g.below(i + 1);
            perm.swap(i, j);
        }
        m.secs = perm.iter().map(|&i| m.secs[i].clone()).collect();
    }
    for i in 0..kinds {
        m.secs.push(MSec::new(format!(".k{i}").as_bytes(), SHT_PROGBITS, 0, 1, Data::Bytes(vec![])));
        names.push(m.secs.len() - 1);
    }
    if want_dynamic {
        let mut s = MSec::new(b".dynamic", SHT_DYNAMIC, SHF_ALLOC | SHF_WRITE, w, Data::Dynamic(vec![]));
        s.entsize = 2 * w;
        s.link = m.find(&Data::DStr);
        m.secs.push(s);
        if g.bool() {
            let i = g.below(m.secs.len());
            let s = m.secs.pop().unwrap();
            m.secs.insert(i, s);
            names.iter_mut().for_each(|x| *x += (*x >= i) as usize);
            let d = m.find(&Data::DStr);
            let i = m.find(&Data::Dynamic(vec![])).unwrap();
            m.secs[i].link = d;
        }
    }
    debug_assert_eq!(ns, m.secs.len());
    if symtab {
        for _ in 0..g.len(12) {
            let s = gen_msym(g, &m, &pool, false);
            m.syms.push(s);
        }
        m.syms.sort_by_key(|s| !s.local());
    }
    if dynamic {
        for _ in 0..g.len(12) {
            let mut s = gen_msym(g, &m, &pool, true);
            if versym {
                s.ver = match g.upto(4) {
                    0 => Vr::Local,
                    1 => Vr::Global,
                    _ if m.vers.is_empty() => Vr::Global,
                    _ => Vr::Id(g.below(m.vers.len())),
                };
                s.hidden = g.chance(1, 4);
            }
            m.dsyms.push(s);
        }
        let c = (m.gnu_nbucket, gnu);
        m.dsyms.sort_by_key(|s| (!s.local(), c.1 && s.hashed(), if c.1 && s.hashed() { gnu_hash(&s.name) % c.0 } else { 0 }));
    }
    let (ny, nd) = (m.syms.len(), m.dsyms.len());
    let count = m.secs.len();
    for (k, &i) in names.iter().enumerate() {
        let rela = g.bool();
        let ty = if rela { SHT_RELA } else { SHT_REL };
        let ent = w * if rela { 3 } else { 2 };
        let s = match g.upto(2) {
            0 if symtab => {
                let mut s = MSec::new(&[b".rel".to_vec(), vec![b'0' + k as u8]].concat(), ty, 0, w, Data::Rel(gen_mrels(g, &m, ny, rela, 8)));
                s.link = m.find(&Data::Sym);
                if g.chance(7, 8) {
                    s.info_sec = Some(g.below(count));
                }
                if g.bool() {
                    s.flags |= SHF_INFO_LINK;
                }
                s
            }
            0 | 1 if linked => {
                let link = match g.upto(3) {
                    0 => None,
                    1 if symtab => m.find(&Data::Sym),
                    _ => m.find(&Data::DSym),
                };
                let n = if link.is_some() && link == m.find(&Data::DSym) { nd } else { 0 };
                let mut s = MSec::new(&[b".rel.dyn".to_vec(), vec![b'0' + k as u8]].concat(), ty, SHF_ALLOC, w, Data::DRel(gen_mrels(g, &m, n, rela, 8)));
                s.link = link;
                if g.bool() {
                    s.info_sec = Some(g.below(count));
                    if g.bool() {
                        s.flags |= SHF_INFO_LINK;
                    }
                }
                s
            }
            2 if symtab && g.chance(1, 4) => {
                // Compact relocations are not decoded.
                let mut s = MSec::new(b".crel", SHT_CREL, 0, 1, Data::Bytes(g.blob(10)));
                s.link = m.find(&Data::Sym);
                s
            }
            2 if g.bool() => MSec::new(b".attributes", attr_type(m.h.machine), 0, 1, Data::Attrs(gen_attrs(g, &m))),
            _ => {
                let mut s = MSec::new(b".linked", SHT_PROGBITS, SHF_LINK_ORDER, 1, Data::Bytes(g.blob(20)));
                if g.bool() {
                    s.link = Some(g.below(count));
                }
                if g.bool() {
                    s.flags |= SHF_INFO_LINK;
                    s.info_sec = Some(g.below(count));
                }
                s
            }
        };
        let ent = if matches!(s.data, Data::Rel(_) | Data::DRel(_)) { ent } else { 0 };
        m.secs[i] = s;
        m.secs[i].entsize = ent;
    }
    if want_dynamic {
        let mut d = vec![];
        for _ in 0..g.len(8) {
            match g.upto(2) {
                0 => d.push((g.pickc(STRING_TAGS), DVal::Str(g.pick(&pool).clone()))),
                1 => {
                    let tag = g.pickc(AUTO);
                    if m.find(&auto_kind(tag)).is_some() {
                        d.push((tag, DVal::Auto));
                    }
                }
                _ => d.push((g.pickc(&[2i64, 7, 12, 21, 23, 30, 0x6ffffffb, 0x6ffffff9, 24, 0x70000001]), DVal::Int(g.uint(m.img().wbits())))),
            }
        }
        let i = m.find(&Data::Dynamic(vec![])).unwrap();
        m.secs[i].data = Data::Dynamic(d);
    }
    let _ = (verdef, verneed);
    if linked {
        let na = m.secs.iter().filter(|s| s.alloc()).count();
        for _ in 0..if na == 0 { g.range(0, 1) } else { g.range(1, 4.min(na)) } {
            m.segs.push(MSeg { s: Seg { ty: PT_LOAD, flags: g.upto(7) as u32, ..Seg::default() }, ..MSeg::default() });
        }
        for _ in 0..g.len(4) {
            let ty = g.pickc(&[PT_PHDR, PT_INTERP, PT_DYNAMIC, PT_NOTE, PT_TLS, 0x6474e550, 0x6474e551, 0x6474e552, 0x6474e553]);
            let mut p = MSeg { s: Seg { ty, flags: g.upto(7) as u32, align: g.pickc(&[0, 1, 16]), ..Seg::default() }, ..MSeg::default() };
            if ty != PT_PHDR && ty != 0x6474e551 && na > 0 {
                let want: Vec<usize> = (0..m.secs.len()).filter(|&i| m.secs[i].alloc() && (ty != PT_DYNAMIC || m.secs[i].ty == SHT_DYNAMIC) && (ty != PT_NOTE || m.secs[i].ty == SHT_NOTE)).collect();
                if !want.is_empty() {
                    p.secs = vec![*g.pick(&want)];
                }
            }
            let at = g.below(m.segs.len() + 1);
            m.segs.insert(at, p);
        }
        if m.segs.is_empty() {
            m.segs.push(MSeg { s: Seg { ty: 0x6474e551, align: 16, ..Seg::default() }, ..MSeg::default() });
        }
        if na > 0 && !m.segs.iter().any(|s| s.s.ty == PT_LOAD) {
            m.segs.push(MSeg { s: Seg { ty: PT_LOAD, flags: 7, ..Seg::default() }, ..MSeg::default() });
        }
    }
    m
}
