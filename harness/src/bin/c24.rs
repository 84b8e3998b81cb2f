//! C24: a written XCOFF object reads back as what was added.
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _};
use object::write::*;
use object::{xcoff as x, Architecture as A, BinaryFormat, FileFlags, RelocationEncoding as E, RelocationFlags, RelocationKind as K, SectionFlags, SectionKind as SK, SymbolFlags, SymbolKind as YK, SymbolScope};
use vh::wobj::*;
use vh::xcoff::{self, C_EXT, C_FILE, C_HIDEXT, C_STAT, C_WEAKEXT};
use vh::*;

struct Xc {
    bad: bool,
    flags: u16,
}
const STD: &[StandardSection] = &[
    StandardSection::Text,
    StandardSection::Data,
    StandardSection::ReadOnlyData,
    StandardSection::ReadOnlyDataWithRel,
    StandardSection::ReadOnlyString,
    StandardSection::UninitializedData,
    StandardSection::Tls,
    StandardSection::UninitializedTls,
];
const KINDS: &[SK] = &[
    SK::Text, SK::Data, SK::ReadOnlyData, SK::ReadOnlyDataWithRel, SK::ReadOnlyString, SK::UninitializedData, SK::Tls, SK::UninitializedTls,
    SK::OtherString, SK::Other, SK::Debug, SK::DebugString, SK::Metadata,
];
fn sf(n: u32) -> SectionFlags {
    SectionFlags::Xcoff { s_flags: x::SectionFlags(n) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Yf {
    ty: u16,
    class: u8,
    smtyp: u8,
    smclas: u8,
    csect: Option<SymbolId>,
}
fn yf(f: Yf) -> Flags {
    SymbolFlags::Xcoff {
        n_type: x::SymbolType(f.ty),
        n_sclass: x::SymbolClass(f.class),
        x_smtyp: x::CsectAuxSmtyp(f.smtyp),
        x_smclas: x::CsectAuxClass(f.smclas),
        containing_csect: f.csect,
    }
}
fn rf(ty: u8, size: u8) -> RelocationFlags {
    RelocationFlags::Xcoff { r_rtype: x::RelocationType(ty), r_rsize: size }
}

impl Xc {
    fn rand_sym_flags(&self, g: &mut Gen, w: &W) -> Flags {
        let class = if self.bad && g.chance(1, 4) { g.pickc(&[0x80u8, 0x82, 0x8c]) } else { g.pickc(&[C_EXT, C_STAT, C_HIDEXT, C_WEAKEXT, C_EXT, 100, 101, 108, 109, 1]) };
        let smtyp = if g.bool() { g.upto(3) as u8 | (g.upto(12) as u8) << 3 } else { g.u8() };
        let csect = if smtyp & 7 == 2 || g.chance(1, 5) { w.pick_sym(g, |_| true).map(|y| w.syms[y].id) } else { None };
        yf(Yf { ty: if g.bool() { g.u16() } else { g.pickc(&[0u16, 0x1000, 0x2000, 0x4000, 0x20]) }, class, smtyp, smclas: g.u8() % 23, csect })
    }
}

impl Fmt for Xc {
    fn std(&self, _w: &W, s: StandardSection) -> (Vec<u8>, Vec<u8>, SK, SectionFlags) {
        let (name, kind) = match s {
            StandardSection::Text => (".text", SK::Text),
            StandardSection::Data => (".data", SK::Data),
            StandardSection::ReadOnlyData | StandardSection::ReadOnlyDataWithRel | StandardSection::ReadOnlyString => (".rdata", SK::ReadOnlyData),
            StandardSection::UninitializedData => (".bss", SK::UninitializedData),
            StandardSection::Tls => (".tdata", SK::Tls),
            StandardSection::UninitializedTls => (".tbss", SK::UninitializedTls),
            _ => ("", SK::Unknown),
        };
        (vec![], name.as_bytes().to_vec(), kind, SectionFlags::None)
    }
    fn subname(&self, base: &[u8], _v: &[u8]) -> Vec<u8> {
        base.to_vec()
    }
    fn sec_flags(&self, _w: &W, s: &WSec) -> SectionFlags {
        sf(match s.kind {
            SK::Text | SK::ReadOnlyData | SK::ReadOnlyString | SK::ReadOnlyDataWithRel => 0x20,
            SK::Data => 0x40,
            SK::UninitializedData => 0x80,
            SK::Tls => 0x400,
            SK::UninitializedTls => 0x800,
            SK::OtherString => 0x200,
            SK::Debug | SK::DebugString => 0x2000,
            SK::Other | SK::Metadata => 0,
            _ => return SectionFlags::None,
        })
    }
    fn sym_flags(&self, w: &W, y: &WSym) -> Flags {
        let class = match y.kind {
            YK::File => C_FILE,
            YK::Text | YK::Data | YK::Tls => {
                if y.scope == SymbolScope::Compilation {
                    C_STAT
                } else if y.weak {
                    C_WEAKEXT
                } else {
                    C_EXT
                }
            }
            _ => return SymbolFlags::None,
        };
        let mut f = Yf { ty: 0, class, smtyp: 0, smclas: 0, csect: None };
        if matches!(class, C_EXT | C_WEAKEXT) {
            if y.scope == SymbolScope::Linkage {
                f.ty = 0x2000;
            }
            let k = if let Place::Sec(s) = y.place { w.secs[s].kind } else { SK::Unknown };
            (f.smtyp, f.smclas) = match (y.kind, k) {
                (YK::Text, _) => (1, 0),
                (YK::Data, SK::UninitializedData) => (3, 9),
                (YK::Data, SK::ReadOnlyData) => (1, 1),
                (YK::Data, _) => (1, 5),
                (YK::Tls, SK::UninitializedTls) => (3, 21),
                _ => (1, 20),
            };
        }
        yf(f)
    }
    fn gen_seg(&self, _g: &mut Gen) -> Vec<u8> {
        vec![]
    }
    fn gen_sec_name(&self, g: &mut Gen) -> Vec<u8> {
        let n = if self.bad && g.chance(1, 4) { 10 } else { 8 };
        match g.upto(2) {
            0 => g.pickc(&[".text", ".data", ".bss", ".rdata", ".tdata", ".tbss", ".debug", ".dwinfo"]).as_bytes().to_vec(),
            1 => {
                let n = g.range(6, n);
                g.bytes(n).iter().map(|b| b'a' + b % 26).collect()
            }
            _ => g.name(n).into_iter().map(|c| if c == 0 { b'x' } else { c }).collect(),
        }
    }
    fn gen_kind(&self, g: &mut Gen) -> SK {
        if self.bad && g.chance(1, 6) { g.pickc(&[SK::Unknown, SK::Note, SK::Linker, SK::TlsVariables]) } else { g.pickc(KINDS) }
    }
    fn gen_align(&self, g: &mut Gen) -> u64 {
        1 << g.upto(4)
    }
    fn gen_sec_flags(&self, g: &mut Gen, w: &W, s: usize) -> Option<SectionFlags> {
        if g.bool() {
            return None;
        }
        let ty = match w.secs[s].kind {
            SK::UninitializedData => 0x80u32,
            SK::UninitializedTls => 0x800,
            _ => g.pickc(&[0u32, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400, 0x1000, 0x2000, 0x4000]),
        };
        Some(sf(g.u32() << 16 | ty))
    }
    fn gen_sym(&self, g: &mut Gen, w: &W) -> Symbol {
        let name = sym_name(g);
        let mut kind = g.pickc(&[YK::Text, YK::Data, YK::Tls]);
        if self.bad && g.chance(1, 8) {
            kind = g.pickc(&[YK::Label, YK::Unknown, YK::Section]);
        }
        let weak = g.chance(1, 4);
        let mut section = match g.upto(5) {
            0 => SymbolSection::Undefined,
            1 => SymbolSection::Absolute,
            _ => w.pick_sec(g, |_| true).map_or(SymbolSection::Undefined, |s| SymbolSection::Section(w.secs[s].id)),
        };
        if kind == YK::Section {
            match w.pick_sec(g, |_| true) {
                Some(s) => section = SymbolSection::Section(w.secs[s].id),
                None => kind = YK::Data,
            }
        }
        let scope = if section == SymbolSection::Undefined {
            g.pickc(&[SymbolScope::Unknown, SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        } else {
            g.pickc(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        };
        let mut flags = if g.chance(1, 5) { self.rand_sym_flags(g, w) } else { SymbolFlags::None };
        if kind == YK::Section && !self.bad && flags == SymbolFlags::None {
            flags = self.rand_sym_flags(g, w);
        }
        let n = if w.is64 { 64 } else { 32 };
        let value = match section {
            // Room for the section address.
            SymbolSection::Section(_) => g.uint(n - 2),
            _ => g.uint(n),
        };
        Symbol { name, value, size: g.uint(n), kind, scope, weak, section, flags }
    }
    fn gen_sym_flags(&self, g: &mut Gen, w: &W, y: usize) -> Option<Flags> {
        if g.bool() || w.syms[y].kind == YK::File {
            return None;
        }
        Some(self.rand_sym_flags(g, w))
    }
    fn reloc(&self, g: &mut Gen, w: &mut W) -> R {
        let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind)) else { return Ok(()) };
        let Some(y) = w.pick_sym(g, |_| true) else { return Ok(()) };
        let n = w.secs[s].data.len() as u64;
        let off = match g.upto(7) {
            0 => g.uint(31),
            1 => g.upto(n),
            _ => g.upto(n.saturating_sub(8)),
        };
        let addend = match g.upto(3) {
            0 => 0,
            1 => -(g.upto(10) as i64),
            2 if w.is64 => g.i64() / 4,
            _ => (g.uint(32) as u32 as i32 / 2) as i64,
        };
        let (flags, want, ent) = if g.chance(1, 3) {
            let ty = if g.bool() { g.pickc(&[0u8, 1, 2, 3, 5, 6, 8, 0xa, 0x1a, 0x20]) } else { g.u8() };
            let size = if g.chance(1, 3) { g.u8() } else { g.pickc(&[31u8, 63, 15, 25, 0x9f, 0xbf, 0xff, 0x5f, 0x80]) };
            (rf(ty, size), None, Some((ty, size)))
        } else {
            let k = g.pickc(&[K::Absolute, K::Relative, K::Got, K::Absolute, K::Relative, K::None, K::PltRelative, K::GotRelative, K::GotBaseRelative, K::GotBaseOffset, K::ImageOffset, K::SectionOffset, K::SectionIndex, K::Unknown]);
            let z = match g.upto(5) {
                0 => g.pickc(&[0u8, 1, 8, 16, 24, 26, 33, 64, 65, 128, 255]),
                1 | 2 => 64,
                _ => 32,
            };
            let ty = match k {
                K::Absolute => Some(0u8),
                K::Relative => Some(2),
                K::Got => Some(3),
                _ => None,
            };
            let ent = ty.filter(|_| z >= 1 && z <= 64).map(|t| (t, z - 1));
            (RelocationFlags::Generic { kind: k, encoding: E::Generic, size: z }, Some((k, E::Generic, z)), ent)
        };
        let sub = if self.bad && g.chance(1, 8) { w.pick_sym(g, |_| true) } else { None };
        let before = w.secs[s].data.clone();
        let r = w.add_reloc(s, off, y, sub, addend, flags);
        let Some((ty, size)) = ent.filter(|_| sub.is_none()) else {
            ensure!(r.is_err(), "{:?} add_relocation({flags:?}, subtractor {sub:?}) accepted", w.arch);
            ensure_eq!(w.obj.section(w.secs[s].id).data(), &before[..], "section data after a rejected relocation");
            g.label("relocation rejected");
            return Ok(());
        };
        // PC relative values are relative to the end of the field.
        let left = if ty == 2 { addend + 4 } else { addend };
        if left != 0 {
            let bits = (size & 0x3f) as usize + 1;
            let ok = matches!(bits, 32 | 64) && w.store(s, off, bits / 8, left);
            ensure_eq!(r.is_ok(), ok, "{:?} add_relocation({flags:?}, offset {off:#x}, addend {addend}) accepted: {r:?}", w.arch);
            if !ok {
                ensure_eq!(w.obj.section(w.secs[s].id).data(), &before[..], "section data after a rejected relocation");
                return Ok(());
            }
        }
        must!(r, "{:?} add_relocation({flags:?}, offset {off:#x}, addend {addend})", w.arch);
        w.secs[s].rels.push(WRel { off, sym: y, sub: None, addend: 0, flags: rf(ty, size), want, total: addend });
        Ok(())
    }
    fn comdat(&self, _g: &mut Gen, _w: &mut W) -> R {
        Ok(())
    }
    fn special(&self, g: &mut Gen, w: &mut W) -> R {
        match g.upto(3) {
            0 => {
                if let Some(y) = w.pick_sym(g, |y| !matches!(y.kind, YK::Section | YK::File)) {
                    let (v, z, k) = (g.upto(64), g.upto(64), g.bool());
                    let o = w.obj.symbol_mut(w.syms[y].id);
                    (o.value, o.size, o.weak) = (v, z, k);
                    let m = &mut w.syms[y];
                    (m.value, m.size, m.weak) = (v, z, k);
                }
            }
            _ => {
                if let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind) && !s.data.is_empty()) {
                    let i = g.below(w.secs[s].data.len());
                    let v = g.u8();
                    w.obj.section_mut(w.secs[s].id).data_mut()[i] = v;
                    w.secs[s].data[i] = v;
                }
            }
        }
        Ok(())
    }
    fn standard(&self) -> &'static [StandardSection] {
        STD
    }
}

fn flags_of(f: &Xc, w: &W, y: &WSym) -> Option<Yf> {
    let fl = if y.flags != SymbolFlags::None { y.flags } else { f.sym_flags(w, y) };
    match fl {
        SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } => {
            Some(Yf { ty: n_type.0, class: n_sclass.0, smtyp: x_smtyp.0, smclas: x_smclas.0, csect: containing_csect })
        }
        _ => None,
    }
}
fn sflags_of(f: &Xc, w: &W, s: &WSec) -> Option<u32> {
    let fl = if s.flags != SectionFlags::None { s.flags } else { f.sec_flags(w, s) };
    if let SectionFlags::Xcoff { s_flags } = fl { Some(s_flags.0) } else { None }
}
fn linkage(c: u8) -> bool {
    matches!(c, C_EXT | C_WEAKEXT | C_HIDEXT)
}

fn verify(g: &mut Gen, f: &Xc, w: &W, v: &[u8]) -> R {
    let p = xcoff::parse(v)?;
    ensure_eq!(p.is64, w.is64, "class");
    ensure_eq!((p.flags, p.opt.len(), p.time), (f.flags, 0, 0), "file header flags, auxiliary header size and time");
    ensure_eq!(p.secs.len(), w.secs.len(), "section count");
    let (hs, ss, rs) = if w.is64 { (24, 72, 14) } else { (20, 40, 10) };
    let mut ranges = vec![(0u64, hs + ss * w.secs.len() as u64, "headers".to_string())];
    let mut mem = vec![];
    for (n, (e, s)) in p.secs.iter().zip(&w.secs).enumerate() {
        let mut name = s.name.clone();
        name.resize(8, 0);
        ensure_eq!(&e.raw_name[..], &name[..], "section {n} name");
        ensure_eq!(Some(e.flags), sflags_of(f, w, s), "section {n} flags");
        ensure_eq!(e.size, s.size, "section {n} size ({:?})", s.kind);
        ensure_eq!(e.paddr, e.vaddr, "section {n} addresses");
        ensure_eq!((e.nlnno, e.lnnoptr), (0, 0), "section {n} line numbers");
        ensure_eq!(e.data, s.data, "section {n} contents");
        if matches!(s.kind, SK::Text | SK::Data | SK::UninitializedData) {
            if e.size > 0 {
                mem.push((e.vaddr, e.vaddr + e.size, format!("section {n}")));
            }
        } else {
            ensure_eq!(e.vaddr, 0, "section {n} address ({:?})", s.kind);
        }
        ensure!(w.is64 || e.vaddr + e.size <= 1 << 32, "section {n} beyond the address space");
        ranges.push((e.ptr, e.ptr + s.data.len() as u64, format!("section {n}")));
        ensure!(s.data.is_empty() || e.ptr % 4 == 0, "section {n} offset is not aligned");
        ranges.push((e.relptr, e.relptr + rs * s.rels.len() as u64, format!("relocations {n}")));
        ensure_eq!(e.nreloc as usize, s.rels.len(), "section {n} relocation count");
    }
    mem.sort();
    for p in mem.windows(2) {
        ensure!(p[0].1 <= p[1].0, "address of {} overlaps {}", p[0].2, p[1].2);
    }
    ranges.push((p.symptr, p.symptr + 18 * p.nsyms as u64, "symbols".into()));
    let str0 = p.symptr + 18 * p.nsyms as u64;
    ranges.push((str0, str0 + p.strtab.len() as u64, "strings".into()));
    ranges.retain(|r| r.0 != r.1);
    ranges.sort();
    for p in ranges.windows(2) {
        ensure!(p[0].1 <= p[1].0, "{} overlaps {}", p[0].2, p[1].2);
    }
    ensure_eq!(ranges.last().unwrap().1, v.len() as u64, "end of the file");
    // Symbols.
    ensure_eq!(p.syms.len(), w.syms.len(), "symbol count");
    let pos = |id: SymbolId| p.syms[w.syms.iter().position(|y| y.id == id).unwrap()].index as u64;
    for (n, (e, y)) in p.syms.iter().zip(&w.syms).enumerate() {
        let fl = must_some!(flags_of(f, w, y), "symbol {n} has no flags");
        ensure_eq!((e.ty, e.class), (fl.ty, fl.class), "symbol {n} type and class ({y:?})");
        if fl.class == C_FILE {
            ensure_eq!(e.name, b".file", "symbol {n} name");
            ensure_eq!(e.file, Some(y.name.clone()), "symbol {n} file name");
            ensure_eq!(e.aux.len(), 1, "symbol {n} auxiliary entries");
            ensure_eq!((e.aux[0][14], if w.is64 { e.aux[0][17] } else { 252 }), (0, 252), "symbol {n} file type and auxiliary type");
            ensure_eq!((e.sec, e.value), (-2, y.value), "symbol {n} section and value");
            g.label("file symbol");
            continue;
        }
        ensure_eq!(e.name, y.name, "symbol {n} name");
        let want = match y.place {
            Place::Sec(s) => (s as i16 + 1, p.secs[s].vaddr.wrapping_add(y.value)),
            Place::Abs => (-1, y.value),
            _ => (0, y.value),
        };
        ensure_eq!((e.sec, e.value), want, "symbol {n} section and value ({y:?})");
        if !linkage(fl.class) {
            ensure_eq!(e.aux.len(), 0, "symbol {n} auxiliary entries");
            continue;
        }
        ensure_eq!(e.aux.len(), 1, "symbol {n} auxiliary entries");
        let c = must_some!(e.csect(w.is64), "symbol {n} csect entry");
        let len = fl.csect.map_or(y.size, pos);
        ensure_eq!((c.len, c.smtyp, c.smclas), (len, fl.smtyp, fl.smclas), "symbol {n} csect length, type and class ({y:?})");
        ensure_eq!((c.parmhash, c.snhash, c.stab, c.snstab), (0, 0, 0, 0), "symbol {n} csect other fields");
        g.label_if(fl.csect.is_some(), "containing csect");
    }
    // Relocations.
    for (n, (e, s)) in p.secs.iter().zip(&w.secs).enumerate() {
        for (j, (a, r)) in e.rels.iter().zip(&s.rels).enumerate() {
            let RelocationFlags::Xcoff { r_rtype, r_rsize } = r.flags else { unreachable!() };
            let mut addr = e.vaddr.wrapping_add(r.off);
            if !w.is64 {
                addr &= 0xffff_ffff;
            }
            let want = (addr, p.syms[r.sym].index as u32, r_rtype.0, r_rsize);
            ensure_eq!((a.addr, a.sym, a.ty, a.size), want, "section {n} relocation {j} (address, symbol, type, size)");
            g.label_if(r.want.is_some(), "generic relocation");
        }
    }
    Ok(())
}

/// The crate's own reader sees the same object.
fn reread(f: &Xc, w: &W, v: &[u8]) -> R {
    let o = must!(object::File::parse(v), "reading back");
    ensure_eq!(o.format(), BinaryFormat::Xcoff, "format");
    ensure_eq!(o.architecture(), w.arch, "architecture");
    ensure_eq!(o.endianness(), object::Endianness::Big, "endianness");
    ensure_eq!(o.is_64(), w.is64, "class");
    ensure_eq!(o.sections().count(), w.secs.len(), "sections reported by object::File");
    let index: Vec<usize> = {
        let mut n = 0;
        w.syms
            .iter()
            .map(|y| {
                let i = n;
                let c = flags_of(f, w, y).unwrap().class;
                n += if c == C_FILE || linkage(c) { 2 } else { 1 };
                i
            })
            .collect()
    };
    let mut addrs = vec![];
    for (n, (x, s)) in o.sections().zip(&w.secs).enumerate() {
        ensure_eq!(x.index().0, n + 1, "section index");
        ensure_eq!(x.name_bytes().ok(), Some(&s.name[..]), "section name");
        ensure_eq!(x.size(), s.size, "section size");
        ensure_eq!(x.data().ok(), Some(&s.data[..]), "section data");
        addrs.push(x.address());
        if s.flags == SectionFlags::None {
            let k = match s.kind {
                SK::ReadOnlyData | SK::ReadOnlyString | SK::ReadOnlyDataWithRel => SK::Text,
                SK::OtherString => SK::Other,
                SK::DebugString => SK::Debug,
                SK::Other | SK::Metadata => x.kind(),
                k => k,
            };
            ensure_eq!(x.kind(), k, "section kind");
        }
        let got: Vec<_> = x.relocations().collect();
        ensure_eq!(got.len(), s.rels.len(), "relocation count");
        for (a, r) in got.iter().zip(&s.rels) {
            let at = if w.is64 { a.0 } else { a.0 & 0xffff_ffff };
            ensure_eq!((at, a.1.flags()), (r.off, r.flags), "relocation offset and flags");
            ensure_eq!(a.1.target(), object::read::RelocationTarget::Symbol(object::SymbolIndex(index[r.sym])), "relocation target");
            ensure!(a.1.has_implicit_addend(), "relocation addend is implicit");
            if let Some((k, e, z)) = r.want {
                ensure_eq!((a.1.kind(), a.1.encoding(), a.1.size()), (k, e, z), "relocation kind, encoding and size");
                ensure_eq!(a.1.addend(), if k == K::Relative { -4 } else { 0 }, "relocation addend");
            }
        }
    }
    let got: Vec<_> = o.symbols().collect();
    ensure_eq!(got.len(), w.syms.len(), "symbols reported by object::File");
    for ((x, m), &i) in got.iter().zip(&w.syms).zip(&index) {
        ensure_eq!(x.index().0, i, "symbol index");
        ensure_eq!(x.name_bytes().ok(), Some(&m.name[..]), "symbol name");
        if m.flags != SymbolFlags::None || m.kind == YK::File {
            continue;
        }
        let global = m.scope != SymbolScope::Compilation;
        if global {
            ensure_eq!((x.kind(), x.size()), (m.kind, m.size), "symbol kind and size");
            ensure_eq!(x.is_weak(), m.weak, "symbol is_weak ({m:?})");
        }
        ensure_eq!(x.is_global(), global, "symbol is_global ({m:?})");
        match m.place {
            Place::Sec(s) => {
                ensure_eq!(x.section_index().map(|i| i.0), Some(s + 1), "symbol section");
                ensure_eq!(x.address(), addrs[s].wrapping_add(m.value), "symbol address");
                ensure_eq!(x.scope(), m.scope, "symbol scope ({m:?})");
            }
            Place::Abs => ensure_eq!((x.address(), x.section()), (m.value, object::read::SymbolSection::Absolute), "absolute symbol"),
            Place::Undef if global => ensure!(x.is_undefined(), "undefined symbol ({m:?})"),
            _ => {}
        }
    }
    Ok(())
}

fn setup(g: &mut Gen, bad: bool) -> (Xc, W) {
    let is64 = g.bool();
    let mut w = W::new(BinaryFormat::Xcoff, if is64 { A::PowerPc64 } else { A::PowerPc }, true, is64);
    let mut flags = 0;
    if g.chance(1, 3) {
        // Objects only.
        flags = g.u16() & !2;
        w.obj.flags = FileFlags::Xcoff { f_flags: x::FileFlags(flags) };
    }
    (Xc { bad, flags }, w)
}

fn finish(g: &mut Gen, f: &Xc, w: &W) -> R {
    g.sample(|| format!("{:?} secs={} syms={} rels={} ops={:?}", w.arch, w.secs.len(), w.syms.len(), w.secs.iter().map(|s| s.rels.len()).sum::<usize>(), w.hist.log));
    let null = |n: &[u8]| n.contains(&0);
    let mut addr = 0;
    let mut wraps = false;
    for s in &w.secs {
        if matches!(s.kind, SK::Text | SK::Data | SK::UninitializedData) {
            addr = (addr + s.size).next_multiple_of(4);
            wraps |= addr > u32::MAX as u64;
        }
        wraps |= s.size > u32::MAX as u64;
    }
    let rels: usize = w.secs.iter().map(|s| s.rels.len()).sum();
    let why = if w.secs.len() > 0x7fff {
        Some("there are too many sections")
    } else if w.syms.iter().any(|y| flags_of(f, w, y).is_none()) {
        Some("a symbol kind is unsupported")
    } else if w.secs.iter().any(|s| sflags_of(f, w, s).is_none()) {
        Some("a section kind is unsupported")
    } else if w.secs.iter().any(|s| s.name.len() > 8) {
        Some("a section name is too long")
    } else if w.secs.iter().any(|s| null(&s.name)) || w.syms.iter().any(|y| null(&y.name)) {
        Some("a name contains a null byte")
    } else if w.syms.iter().any(|y| flags_of(f, w, y).unwrap().class & 0x80 != 0 && (w.is64 || y.name.len() > 8)) {
        Some("a name belongs in the debug section")
    } else if !w.is64 && wraps {
        Some("the sections are too large")
    } else if !w.is64 && w.secs.iter().any(|s| s.rels.len() > 65534) {
        Some("there are too many relocations")
    } else {
        None
    };
    if let Some(v) = write_out(w, why)? {
        verify(g, f, w, &v)?;
        reread(f, w, &v)?;
        g.nontrivial_if(!w.secs.is_empty() && !w.syms.is_empty() && rels > 0);
    } else {
        g.label(why.unwrap());
        g.nontrivial();
    }
    Ok(())
}

/// A random object of this format.
pub fn random(g: &mut Gen, max: usize) -> R<W> {
    let (f, mut w) = setup(g, false);
    history(g, &f, &mut w, max)?;
    // The format has no symbols for sections.
    for i in 0..w.syms.len() {
        if w.syms[i].kind == YK::Section && w.syms[i].flags == SymbolFlags::None {
            let fl = f.rand_sym_flags(g, &w);
            w.syms[i].flags = fl;
            w.obj.symbol_mut(w.syms[i].id).flags = fl;
        }
    }
    Ok(w)
}

fn objects(g: &mut Gen) -> R {
    let (f, mut w) = setup(g, false);
    history(g, &f, &mut w, 60)?;
    // The format has no symbols for sections.
    for i in 0..w.syms.len() {
        if w.syms[i].kind == YK::Section && w.syms[i].flags == SymbolFlags::None {
            let fl = f.rand_sym_flags(g, &w);
            w.syms[i].flags = fl;
            w.obj.symbol_mut(w.syms[i].id).flags = fl;
        }
    }
    finish(g, &f, &w)
}

/// Content the format cannot express is rejected.
fn reject(g: &mut Gen) -> R {
    let (f, mut w) = setup(g, true);
    if g.chance(1, 8) {
        let s = w.std_section(&f, g.pickc(&[StandardSection::UninitializedData, StandardSection::UninitializedTls]))?;
        let size = if g.bool() { 1 << 32 } else { (1 << 32) - g.upto(40) };
        w.append_bss(s, size, 1)?;
        if g.bool() {
            let s = w.std_section(&f, StandardSection::Data)?;
            let d = vec![1; g.range(0, 40)];
            w.append(s, &d, 1)?;
        }
        return finish(g, &f, &w);
    }
    history(g, &f, &mut w, 30)?;
    if g.chance(1, 6) {
        let mut n = sym_name(g);
        let p = g.range(0, n.len());
        n.insert(p, 0);
        if g.bool() {
            w.add_symbol(Symbol { name: n, value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
        } else {
            n.truncate(8);
            w.add_section(&f, vec![], n, SK::Data)?;
        }
    }
    finish(g, &f, &w)
}

/// Counts beyond 16 bits.
fn many(g: &mut Gen) -> R {
    let (f, mut w) = setup(g, false);
    if g.chance(1, 4) {
        let n = g.range(32760, 32800);
        for i in 0..n {
            w.add_symbol(Symbol { name: vec![b'u'], value: 0, size: 0, kind: if i % 100 == 0 { YK::Text } else { YK::Data }, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
        }
        let s = w.std_section(&f, StandardSection::Data)?;
        w.append(s, &[0; 64], 4)?;
        let sec = w.secs[s].id;
        for i in 0..g.range(1, 4) {
            let y = w.add_symbol(Symbol { name: vec![b'd'], value: i as u64, size: g.upto(8), kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Section(sec), flags: SymbolFlags::None })?;
            for y in [y, n - 1 - i, i] {
                let off = g.upto(60);
                must!(w.obj.add_relocation(sec, Relocation { offset: off, symbol: w.syms[y].id, addend: 0, flags: rf(0, 31) }), "add_relocation");
                w.secs[s].rels.push(WRel { off, sym: y, sub: None, addend: 0, flags: rf(0, 31), want: None, total: 0 });
            }
        }
        g.label("many symbols");
    } else if g.bool() {
        let s = w.std_section(&f, StandardSection::Data)?;
        w.append(s, &[0; 16], 4)?;
        let y = w.add_symbol(Symbol { name: b"a".to_vec(), value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
        let n = g.pickc(&[65532usize, 65533, 65534, 65534, 65535, 65535, 65535, 65536, 65537]);
        for _ in 0..n {
            let off = g.upto(12);
            must!(w.obj.add_relocation(w.secs[s].id, Relocation { offset: off, symbol: w.syms[y].id, addend: 0, flags: rf(0, 31) }), "add_relocation");
            w.secs[s].rels.push(WRel { off, sym: y, sub: None, addend: 0, flags: rf(0, 31), want: None, total: 0 });
        }
        g.label("many relocations");
    } else {
        let n = g.range(32764, 32770);
        let name = g.name(8).into_iter().filter(|&c| c != 0).collect::<Vec<_>>();
        // Each distinct, so that none is taken for a standard section.
        for _ in 0..n {
            let id = w.obj.add_section(vec![], name.clone(), SK::Other);
            w.secs.push(WSec { id, segment: vec![], name: name.clone(), kind: SK::Other, flags: SectionFlags::None, size: 0, align: 1, data: vec![], rels: vec![], sym: None });
        }
        let id = w.secs[n - 1].id;
        w.add_symbol(Symbol { name: b"a".to_vec(), value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Section(id), flags: SymbolFlags::None })?;
        g.label("many sections");
    }
    finish(g, &f, &w)
}

#[allow(dead_code)]
fn main() {
    run(
        "C24",
        "the object has sections, symbols and relocations (or is one that must be rejected)",
        &["the architecture is PowerPC, big-endian; values passed in fit the fields of the chosen class; alignments are powers of two; file symbols have no explicit flags"],
        &[sub("objects", 1_200_000, 20_000_000, objects), sub("reject", 200_000, 4_000_000, reject), sub("many", 100, 1000, many)],
    );
}
