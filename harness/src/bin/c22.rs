//! C22: a written COFF object reads back as what was added.
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _};
use object::write::*;
use object::{Architecture as A, BinaryFormat, ComdatKind, FileFlags, RelocationEncoding as E, RelocationFlags, RelocationKind as K, SectionFlags, SectionKind as SK, SubArchitecture, SymbolFlags, SymbolKind as YK, SymbolScope};
use vh::coff;
use vh::wobj::*;
use vh::*;

/// (architecture, sub-architecture, big, machine, 64-bit)
const ARCHS: &[(A, Option<SubArchitecture>, bool, u16, bool)] = &[
    (A::X86_64, None, false, 0x8664, true),
    (A::I386, None, false, 0x14c, false),
    (A::Aarch64, None, false, 0xaa64, true),
    (A::Arm, None, false, 0x1c4, false),
    (A::Aarch64, Some(SubArchitecture::Arm64EC), false, 0xa641, true),
    (A::PowerPc, None, false, 0x1f0, false),
    (A::PowerPc, None, true, 0x1f2, false),
    (A::PowerPc64, None, false, 0x1f0, true),
];

struct Coff {
    machine: u16,
    bad: bool,
}
const STD: &[StandardSection] = &[
    StandardSection::Text,
    StandardSection::Data,
    StandardSection::ReadOnlyData,
    StandardSection::ReadOnlyDataWithRel,
    StandardSection::ReadOnlyString,
    StandardSection::UninitializedData,
    StandardSection::Tls,
    StandardSection::EhFrame,
];
const KINDS: &[SK] = &[
    SK::Text, SK::Data, SK::ReadOnlyData, SK::ReadOnlyDataWithRel, SK::ReadOnlyString, SK::UninitializedData,
    SK::OtherString, SK::Other, SK::Debug, SK::DebugString, SK::Linker,
];
fn sf(c: u32) -> SectionFlags {
    SectionFlags::Coff { characteristics: object::pe::SectionFlags(c) }
}
fn yf(typ: u16, class: u8) -> Flags {
    SymbolFlags::Coff { typ: object::pe::SymbolType(typ), storage_class: object::pe::SymbolClass(class) }
}
fn cf(typ: u16) -> RelocationFlags {
    RelocationFlags::Coff { typ: object::pe::RelocationType(typ) }
}
fn ptr(w: &W) -> u64 {
    if w.is64 { 8 } else { 4 }
}
fn kinds(m: coff::Meaning) -> (K, E) {
    let k = match m.0 {
        "Absolute" => K::Absolute,
        "Relative" => K::Relative,
        "ImageOffset" => K::ImageOffset,
        "SectionIndex" => K::SectionIndex,
        "SectionOffset" => K::SectionOffset,
        _ => K::Unknown,
    };
    let e = match m.1 {
        "Generic" => E::Generic,
        "AArch64Call" => E::AArch64Call,
        _ => E::Unknown,
    };
    (k, e)
}
/// Field sizes beyond those with a generic meaning.
fn field_size(machine: u16, ty: u16) -> Option<u8> {
    match (machine, ty) {
        (0x14c, 0xc) | (0x8664, 0xd) | (0x1c4, 5) | (0xaa64 | 0xa641, 0xc) => Some(32),
        _ => match coff::meaning(machine, ty) {
            m if m.0 == "Unknown" => None,
            m => Some(m.2),
        },
    }
}

impl Coff {
    fn rand_sym_flags(&self, g: &mut Gen) -> Flags {
        let t = g.pickc(&[0u16, 0x20, 0x30, 4, 0x24]);
        yf(t, g.pickc(&[2u8, 3, 6, 101, 105, 0]))
    }
    fn types(&self) -> Vec<u16> {
        coff::RELOCS.iter().filter(|r| r.0.contains(&self.machine)).map(|r| r.1).collect()
    }
    /// Record an accepted relocation in the model.
    fn note(&self, g: &mut Gen, w: &mut W, s: usize, off: u64, y: usize, flags: RelocationFlags, want: Option<(K, E, u8)>, total: i64) {
        let _ = g;
        w.secs[s].rels.push(WRel { off, sym: y, sub: None, addend: 0, flags, want, total });
    }
}

impl Fmt for Coff {
    fn std(&self, _w: &W, s: StandardSection) -> (Vec<u8>, Vec<u8>, SK, SectionFlags) {
        let (name, kind) = match s {
            StandardSection::Text => (".text", SK::Text),
            StandardSection::Data => (".data", SK::Data),
            StandardSection::ReadOnlyData | StandardSection::ReadOnlyDataWithRel | StandardSection::ReadOnlyString => (".rdata", SK::ReadOnlyData),
            StandardSection::UninitializedData => (".bss", SK::UninitializedData),
            StandardSection::Tls => (".tls$", SK::Data),
            StandardSection::UninitializedTls => ("", SK::UninitializedTls),
            StandardSection::TlsVariables => ("", SK::TlsVariables),
            StandardSection::GnuProperty => ("", SK::Note),
            StandardSection::EhFrame => (".eh_frame", SK::ReadOnlyData),
            _ => unreachable!(),
        };
        (vec![], name.as_bytes().to_vec(), kind, SectionFlags::None)
    }
    fn subname(&self, base: &[u8], v: &[u8]) -> Vec<u8> {
        let mut b = base.to_vec();
        if !v.is_empty() {
            b.push(b'$');
            b.extend(v);
        }
        b
    }
    fn sec_flags(&self, _w: &W, s: &WSec) -> SectionFlags {
        sf(match s.kind {
            SK::Text => 0x6000_0020,
            SK::Data => 0xc000_0040,
            SK::UninitializedData => 0xc000_0080,
            SK::ReadOnlyData | SK::ReadOnlyDataWithRel | SK::ReadOnlyString => 0x4000_0040,
            SK::Debug | SK::DebugString | SK::Other | SK::OtherString => 0x4200_0040,
            SK::Linker => 0xa00,
            _ => return SectionFlags::None,
        })
    }
    fn sym_flags(&self, _w: &W, y: &WSym) -> Flags {
        let typ = if y.kind == YK::Text { 0x20 } else { 0 };
        let class = match (y.kind, y.place) {
            _ if y.weak => 105,
            (YK::File, _) => 103,
            (YK::Section, Place::Sec(_)) => 3,
            (YK::Section, _) => 104,
            (YK::Label, _) => 6,
            (YK::Text | YK::Data | YK::Tls, Place::Undef | Place::Common) => 2,
            (YK::Text | YK::Data | YK::Tls, Place::Abs | Place::Sec(_)) => match y.scope {
                SymbolScope::Unknown => return SymbolFlags::None,
                SymbolScope::Compilation => 3,
                _ => 2,
            },
            (YK::Unknown, Place::Undef) => 2,
            _ => return SymbolFlags::None,
        };
        yf(typ, class)
    }
    fn gen_seg(&self, _g: &mut Gen) -> Vec<u8> {
        vec![]
    }
    fn gen_sec_name(&self, g: &mut Gen) -> Vec<u8> {
        match g.upto(4) {
            0 => g.pickc(&[".text", ".data", ".rdata", ".bss", ".tls$", ".eh_frame", ".debug_info", ".drectve", "/4", "//AAAAAA"]).as_bytes().to_vec(),
            1 => vec![],
            2 => {
                let n = g.range(7, 10);
                g.bytes(n).iter().map(|b| b'a' + b % 26).collect()
            }
            _ => g.name(14).into_iter().map(|c| if c == 0 { b'x' } else { c }).collect(),
        }
    }
    fn gen_kind(&self, g: &mut Gen) -> SK {
        if self.bad && g.chance(1, 6) {
            g.pickc(&[SK::Unknown, SK::TlsVariables, SK::Tls, SK::UninitializedTls, SK::Note, SK::Metadata])
        } else {
            g.pickc(KINDS)
        }
    }
    fn gen_align(&self, g: &mut Gen) -> u64 {
        1 << if self.bad && g.chance(1, 10) {
            14 + g.upto(3)
        } else if g.chance(1, 10) {
            g.upto(13)
        } else {
            g.upto(4)
        }
    }
    fn gen_sec_flags(&self, g: &mut Gen, w: &W, s: usize) -> Option<SectionFlags> {
        if g.bool() {
            return None;
        }
        let mut c = g.u32() & !(coff::SCN_NRELOC_OVFL | coff::SCN_UNINIT | coff::SCN_COMDAT);
        if is_bss(w.secs[s].kind) {
            c |= coff::SCN_UNINIT;
        }
        Some(sf(c))
    }
    fn gen_sym(&self, g: &mut Gen, w: &W) -> Symbol {
        let name = sym_name(g);
        let mut kind = g.pickc(&[YK::Text, YK::Data, YK::Tls, YK::Label, YK::Section, YK::Unknown]);
        let mut weak = g.chance(1, 4);
        let mut section = match g.upto(5) {
            0 => SymbolSection::Undefined,
            1 => SymbolSection::Absolute,
            _ => w.pick_sec(g, |_| true).map_or(SymbolSection::Undefined, |s| SymbolSection::Section(w.secs[s].id)),
        };
        if kind == YK::Section {
            weak = false;
            match w.pick_sec(g, |_| true) {
                Some(s) => section = SymbolSection::Section(w.secs[s].id),
                None => kind = YK::Data,
            }
        }
        if kind == YK::Unknown && section != SymbolSection::Undefined && !(self.bad && g.chance(1, 3)) {
            kind = YK::Label;
        }
        if weak && section == SymbolSection::Absolute && !(self.bad && g.chance(1, 3)) {
            weak = false;
        }
        let scope = if section == SymbolSection::Undefined {
            g.pickc(&[SymbolScope::Unknown, SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        } else {
            g.pickc(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        };
        let flags = if kind != YK::Section && g.chance(1, 6) { self.rand_sym_flags(g) } else { SymbolFlags::None };
        // An undefined symbol with a value is a common symbol.
        let value = if section == SymbolSection::Undefined { 0 } else { g.uint(32) };
        Symbol { name, value, size: g.uint(32), kind, scope, weak, section, flags }
    }
    fn gen_sym_flags(&self, g: &mut Gen, w: &W, y: usize) -> Option<Flags> {
        if g.bool() || matches!(w.syms[y].kind, YK::Section | YK::File) {
            return None;
        }
        Some(self.rand_sym_flags(g))
    }
    fn reloc(&self, g: &mut Gen, w: &mut W) -> R {
        let (Some(s), Some(y)) = (w.pick_sec(g, |s| !is_bss(s.kind)), w.pick_sym(g, |_| true)) else { return Ok(()) };
        let off = match g.upto(7) {
            0 => g.uint(32),
            1 => g.upto(w.secs[s].data.len() as u64),
            _ => g.upto((w.secs[s].data.len() as u64).saturating_sub(8)),
        };
        let types = self.types();
        let ty = if !types.is_empty() { g.pickc(&types) } else { 0 };
        let m = coff::meaning(self.machine, ty);
        let (mk, me) = kinds(m);
        let addend = match g.upto(3) {
            0 => 0,
            1 => -(g.upto(10) as i64),
            _ if m.2 == 64 => g.i64() / 4,
            _ => (g.uint(32) as u32 as i32 / 2) as i64,
        };
        let before = w.secs[s].data.clone();
        let (mut want, mut must_ok, mut stub) = (None, true, false);
        let flags = match g.upto(6) {
            0 => cf(if g.bool() { ty } else { g.upto(0x20) as u16 }),
            1 => {
                must_ok = false;
                let k = g.pickc(&[K::None, K::Absolute, K::Relative, K::Got, K::GotBaseRelative, K::GotBaseOffset, K::PltRelative, K::ImageOffset, K::SectionOffset, K::SectionIndex, K::Unknown]);
                let e = g.pickc(&[E::Generic, E::Generic, me]);
                let z = g.pickc(&[0u8, 7, 8, 16, 32, 64, 26, 12]);
                want = Some((k, e, z));
                RelocationFlags::Generic { kind: k, encoding: e, size: z }
            }
            2 if types.iter().any(|&t| coff::meaning(self.machine, t).0 == "Relative") => {
                // A reference through a pointer slot, which the writer adds.
                stub = true;
                want = Some((K::Relative, E::Generic, 32));
                RelocationFlags::Generic { kind: K::GotRelative, encoding: E::Generic, size: 32 }
            }
            3 if mk == K::Relative => {
                want = Some((K::Relative, me, m.2));
                RelocationFlags::Generic { kind: K::PltRelative, encoding: me, size: m.2 }
            }
            _ => {
                must_ok = mk != K::Unknown;
                want = Some((mk, me, m.2));
                RelocationFlags::Generic { kind: mk, encoding: me, size: m.2 }
            }
        };
        let fsize = match flags {
            RelocationFlags::Coff { typ } => field_size(self.machine, typ.0),
            _ => want.map(|w| w.2),
        };
        let addend = if fsize == Some(64) { addend } else { addend as i32 as i64 / 2 };
        let nsec = w.secs.len();
        let r = w.add_reloc(s, off, y, None, addend, flags);
        let mut target = y;
        if stub {
            // The slot and its symbol, made once per target.
            target = match w.stubs.get(&y) {
                Some(&t) => t,
                None => {
                    let sid = nth_section_id(nsec);
                    let n = w.model_section(self, sid, vec![], b".rdata$.refptr".to_vec(), SK::ReadOnlyData)?;
                    let p = ptr(w);
                    (w.secs[n].data, w.secs[n].size, w.secs[n].align) = (vec![0; p as usize], p, p);
                    self.note(g, w, n, 0, y, cf(0), Some((K::Absolute, E::Generic, p as u8 * 8)), 0);
                    let mut name = b".refptr.".to_vec();
                    name.extend(&w.syms[y].name);
                    let t = w.model_symbol(
                        nth_symbol_id(w.syms.len()),
                        WSym { id: nth_symbol_id(w.syms.len()), name, value: 0, size: p, kind: YK::Data, scope: SymbolScope::Compilation, weak: false, place: Place::Sec(n), flags: SymbolFlags::None },
                    )?;
                    w.stubs.insert(y, t);
                    g.label("stub");
                    t
                }
            };
        }
        if let Err(e) = r {
            ensure_eq!(w.obj.section(w.secs[s].id).data(), &before[..], "section data after a rejected relocation");
            // Addends are stored for word sized fields inside the section only.
            let may = !must_ok || {
                let size = fsize.filter(|s| matches!(s, 32 | 64));
                size.is_none_or(|z| off + z as u64 / 8 > before.len() as u64)
            };
            ensure!(may, "{:?} add_relocation({flags:?}, offset {off:#x}, addend {addend}) failed: {e}", w.arch);
            g.label("relocation rejected");
            return Ok(());
        }
        // For generic requests the stored addend depends on the type chosen: take the bytes from
        // the object and judge them together with the type.
        match flags {
            RelocationFlags::Coff { typ } => {
                let implied = coff::meaning(self.machine, typ.0).3;
                if addend - implied != 0 {
                    let Some(z @ (32 | 64)) = field_size(self.machine, typ.0) else { fail!("addend accepted for type {typ:?}") };
                    ensure!(w.store(s, off, z as usize / 8, addend - implied), "addend outside the section accepted");
                }
                self.note(g, w, s, off, y, flags, None, addend);
            }
            _ => {
                let z = want.unwrap().2 as usize / 8;
                let now = w.obj.section(w.secs[s].id).data().to_vec();
                ensure_eq!(now.len(), before.len(), "section size");
                let zz = if matches!(z, 4 | 8) { z } else { 0 };
                for (i, (a, b)) in now.iter().zip(&before).enumerate() {
                    ensure!(a == b || (i as u64) >= off && (i as u64) < off + zz as u64, "byte {i:#x} changed by a relocation at {off:#x}");
                }
                let field = |v: &[u8]| -> Option<i64> {
                    let mut b = v.get(off as usize..off as usize + zz)?.to_vec();
                    if w.be {
                        b.reverse();
                    }
                    Some(match zz {
                        4 => i32::from_le_bytes(b.try_into().unwrap()) as i64,
                        8 => i64::from_le_bytes(b.try_into().unwrap()),
                        _ => 0,
                    })
                };
                // When nothing is stored, the field holds what it held before.
                let stored = if now != before { field(&now) } else { None };
                w.secs[s].data = now;
                let total = match stored {
                    // Left over for the implied addend to explain; checked against the type.
                    Some(x) => addend.wrapping_sub(x),
                    None => {
                        // Either zero was stored implicitly or the same value was already there.
                        w.secs[s].rels.push(WRel { off, sym: target, sub: None, addend: field(&before).unwrap_or(0), flags, want, total: addend });
                        return Ok(());
                    }
                };
                w.secs[s].rels.push(WRel { off, sym: target, sub: None, addend: i64::MIN, flags, want, total });
            }
        }
        Ok(())
    }
    fn comdat(&self, g: &mut Gen, w: &mut W) -> R {
        let Some(y) = w.pick_sym(g, |_| true) else { return Ok(()) };
        let main = w.section_of(y);
        if main.is_none() && !self.bad {
            return Ok(());
        }
        let used = |w: &W, s: usize| w.comdats.iter().any(|c| c.secs.contains(&s) || w.section_of(c.sym) == Some(s));
        let mut secs: Vec<usize> = main.into_iter().collect();
        if main.is_some_and(|s| used(w, s)) {
            return Ok(());
        }
        let n = g.len(3);
        for _ in 0..n {
            if let Some(s) = w.pick_sec(g, |_| true) {
                if !secs.contains(&s) && !used(w, s) {
                    secs.push(s);
                }
            }
        }
        if g.bool() && secs.len() > 1 {
            secs.rotate_left(1);
        }
        for &s in &secs {
            if !(self.bad && g.chance(1, 4)) {
                w.section_symbol(s)?;
            }
        }
        let mut k = vec![ComdatKind::Any, ComdatKind::NoDuplicates, ComdatKind::SameSize, ComdatKind::ExactMatch, ComdatKind::Largest, ComdatKind::Newest];
        if self.bad {
            k.push(ComdatKind::Unknown);
        }
        let kind = g.pickc(&k);
        let c = Comdat { kind, symbol: w.syms[y].id, sections: secs.iter().map(|&s| w.secs[s].id).collect() };
        let id = w.obj.add_comdat(c);
        ensure_eq!(w.obj.comdat(id).symbol, w.syms[y].id, "comdat symbol");
        w.comdats.push(WComdat { kind, sym: y, secs });
        Ok(())
    }
    fn special(&self, g: &mut Gen, w: &mut W) -> R {
        match g.upto(4) {
            0 => {
                let gnu = g.bool();
                w.obj.add_coff_exports(if gnu { CoffExportStyle::Gnu } else { CoffExportStyle::Msvc });
                let mut d = vec![];
                for y in &w.syms {
                    if y.scope == SymbolScope::Dynamic {
                        d.extend_from_slice(if gnu { b" -export:\"" } else { b" /EXPORT:\"" });
                        d.extend(&y.name);
                        d.push(b'"');
                        if y.kind != YK::Text {
                            d.extend_from_slice(if gnu { b",data" } else { b",DATA" });
                        }
                    }
                }
                let n = w.model_section(self, nth_section_id(w.secs.len()), vec![], b".drectve".to_vec(), SK::Linker)?;
                w.secs[n].size = d.len() as u64;
                w.secs[n].data = d;
                g.label("exports");
            }
            1 => {
                if let Some(y) = w.pick_sym(g, |y| !matches!(y.kind, YK::Section | YK::File) && y.place != Place::Undef) {
                    let (v, z) = (g.upto(64), g.upto(64));
                    let o = w.obj.symbol_mut(w.syms[y].id);
                    (o.value, o.size) = (v, z);
                    let m = &mut w.syms[y];
                    (m.value, m.size) = (v, z);
                    if matches!(m.place, Place::Sec(_) | Place::Undef) {
                        o.weak = !o.weak;
                        m.weak = !m.weak;
                    }
                }
            }
            _ => {
                if let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind) && !s.data.is_empty()) {
                    if w.secs[s].rels.is_empty() {
                        let i = g.below(w.secs[s].data.len());
                        let v = g.u8();
                        w.obj.section_mut(w.secs[s].id).data_mut()[i] = v;
                        w.secs[s].data[i] = v;
                    }
                }
            }
        }
        Ok(())
    }
    fn standard(&self) -> &'static [StandardSection] {
        STD
    }
}

fn flags_of(f: &Coff, w: &W, y: &WSym) -> Option<(u16, u8)> {
    let fl = if y.flags != SymbolFlags::None { y.flags } else { f.sym_flags(w, y) };
    if let SymbolFlags::Coff { typ, storage_class } = fl { Some((typ.0, storage_class.0)) } else { None }
}
fn chars_of(f: &Coff, w: &W, s: &WSec) -> Option<u32> {
    let fl = if s.flags != SectionFlags::None { s.flags } else { f.sec_flags(w, s) };
    if let SectionFlags::Coff { characteristics } = fl { Some(characteristics.0) } else { None }
}
/// CRC-32 with all-ones initial value and no final complement.
fn jamcrc(d: &[u8]) -> u32 {
    let mut c = 0u32;
    // The initial value 0xffffffff of the register complements to 0 internally.
    for &b in d {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    c
}

fn verify(g: &mut Gen, f: &Coff, w: &W, v: &[u8], chars: u16) -> R {
    let c = coff::parse(v)?;
    ensure!(!c.big && c.opt.is_empty(), "not a plain COFF object");
    ensure_eq!((c.machine, c.time, c.chars), (f.machine, 0, chars), "machine, time stamp, characteristics");
    ensure_eq!(c.secs.len(), w.secs.len(), "section count");
    // Nothing overlaps, and everything is in the file.
    let mut ranges = vec![(0u64, 20 + 40 * c.secs.len() as u64, "headers".to_string())];
    let st = c.sym_off as u64 + 18 * c.nsyms as u64;
    ranges.push((c.sym_off as u64, st + c.strtab.len() as u64, "symbols".into()));
    // COMDAT selection per section.
    let mut sel = vec![(0u8, 0u32); w.secs.len()];
    for m in &w.comdats {
        let main = w.section_of(m.sym).unwrap();
        let k = match m.kind {
            ComdatKind::NoDuplicates => 1,
            ComdatKind::Any => 2,
            ComdatKind::SameSize => 3,
            ComdatKind::ExactMatch => 4,
            ComdatKind::Largest => 6,
            ComdatKind::Newest => 7,
            k => fail!("{k:?}"),
        };
        for &s in &m.secs {
            sel[s] = (5, main as u32 + 1);
        }
        sel[main] = (k, 0);
    }
    for (n, (o, s)) in c.secs.iter().zip(&w.secs).enumerate() {
        ensure_eq!(o.name, s.name, "section {n} name");
        let mut want = chars_of(f, w, s).unwrap() & !0x00f0_0000 | ((s.align.trailing_zeros() + 1) << 20);
        if sel[n].0 != 0 {
            want |= coff::SCN_COMDAT;
        }
        if s.rels.len() > 0xffff {
            want |= coff::SCN_NRELOC_OVFL;
        }
        ensure_eq!(o.chars, want, "section {n} characteristics (kind {:?}, align {})", s.kind, s.align);
        ensure_eq!((o.vsize, o.vaddr, o.line_off, o.nline), (0, 0, 0, 0), "section {n} address and line numbers");
        ensure_eq!(o.raw_size as u64, s.size, "section {n} size");
        ensure_eq!(o.data, s.data, "section {n} contents");
        if s.data.is_empty() {
            ensure_eq!(o.raw_off, 0, "section {n} data offset");
        } else {
            ranges.push((o.raw_off as u64, o.raw_off as u64 + s.data.len() as u64, format!("section {n}")));
        }
        let extra = (s.rels.len() > 0xffff) as u64;
        if !s.rels.is_empty() {
            ranges.push((o.rel_off as u64, o.rel_off as u64 + 10 * (s.rels.len() as u64 + extra), format!("relocations {n}")));
        } else {
            ensure_eq!(o.rel_off, 0, "section {n} relocation offset");
        }
    }
    ranges.sort();
    for p in ranges.windows(2) {
        ensure!(p[0].1 <= p[1].0, "{} overlaps {}", p[0].2, p[1].2);
    }
    ensure_eq!(ranges.last().unwrap().1, v.len() as u64, "end of the last part and of the file");

    // Weak symbols get a default symbol each, whose name is made unique by an external definition.
    let ext = |y: &&WSym| !y.weak && matches!(y.scope, SymbolScope::Linkage | SymbolScope::Dynamic) && matches!(y.place, Place::Sec(_) | Place::Abs);
    let in_comdat = |y: &WSym| matches!(y.place, Place::Sec(s) if w.comdats.iter().any(|c| c.secs.contains(&s)));
    let mut unique = w.syms.iter().filter(ext).find(|y| !in_comdat(y)).map_or(&[][..], |y| &y.name);
    if unique.is_empty() {
        unique = w.syms.iter().filter(ext).find(|y| matches!(y.place, Place::Sec(_))).map_or(&[][..], |y| &y.name);
    }
    let mut pos = vec![0; w.syms.len()];
    let mut it = c.syms.iter();
    for (y, m) in w.syms.iter().enumerate() {
        let mut default = 0;
        if m.weak {
            let d = must_some!(it.next(), "default symbol of weak symbol {y}");
            let mut name = b".weak.".to_vec();
            name.extend(&m.name);
            if !unique.is_empty() {
                name.push(b'.');
                name.extend(unique);
            }
            ensure_eq!(d.name, name, "default symbol of weak symbol {y}: name");
            let sec = if let Place::Sec(s) = m.place { s as i32 + 1 } else { -1 };
            ensure_eq!((d.value as u64, d.sec, d.ty, d.class, d.aux.len()), (m.value, sec, 0, 2, 0), "default symbol of weak symbol {y}");
            default = d.index as u32;
            g.label("weak");
        }
        let o = must_some!(it.next(), "symbol {y} is missing");
        pos[y] = o.index;
        let name: &[u8] = if m.kind == YK::File { b".file" } else { &m.name };
        ensure_eq!(o.name, name, "symbol {y} name ({m:?})");
        ensure_eq!(Some((o.ty, o.class)), flags_of(f, w, m), "symbol {y} type and class ({m:?})");
        let (sec, val) = match m.place {
            _ if m.weak => (0, 0),
            Place::None => (-2, m.value),
            Place::Undef => (0, m.value),
            Place::Abs => (-1, m.value),
            Place::Common => (0, m.size),
            Place::Sec(s) => (s as i32 + 1, m.value),
        };
        ensure_eq!((o.sec, o.value as u64), (sec, val), "symbol {y} section and value ({m:?})");
        let aux = o.aux.concat();
        if m.weak {
            let mut b = vh::b::B::new(false, false);
            b.u32(default).u32(3);
            b.v.resize(18, 0);
            ensure_eq!(aux, b.v, "weak external record of symbol {y}");
        } else if m.kind == YK::File {
            let mut n = m.name.clone();
            n.resize(n.len().div_ceil(18) * 18, 0);
            ensure_eq!(aux, n, "file name record of symbol {y}");
        } else if m.kind == YK::Section {
            let Some(s) = w.section_of(y) else { unreachable!() };
            let x = &w.secs[s];
            let sum = if is_bss(x.kind) { 0 } else { jamcrc(&x.data) };
            let want = coff::aux_section(x.size as u32, x.rels.len().min(0xffff) as u16, 0, sum, sel[s].1, sel[s].0, 18, true);
            ensure_eq!(aux, want, "section definition record of symbol {y}");
        } else {
            ensure_eq!(aux.len(), 0, "auxiliary records of symbol {y}");
        }
    }
    ensure!(it.next().is_none(), "additional symbols");
    for (n, s) in w.secs.iter().enumerate() {
        let rels = &c.secs[n].rels;
        ensure_eq!(rels.len(), s.rels.len(), "relocation count of section {n}");
        for (j, (a, m)) in rels.iter().zip(&s.rels).enumerate() {
            ensure_eq!((a.off as u64, a.sym as usize), (m.off, pos[m.sym]), "relocation {j} of section {n}: offset and symbol");
            let Some((k, e, z)) = m.want else {
                ensure_eq!(cf(a.ty), m.flags, "relocation {j} of section {n}: type");
                continue;
            };
            let got = coff::meaning(f.machine, a.ty);
            let (gk, ge) = kinds(got);
            let k = if matches!(k, K::PltRelative | K::GotRelative) { K::Relative } else { k };
            let call = z == 26;
            ensure!(gk == k && got.2 == z && (!call || e == ge), "{:?} relocation {k:?} {e:?} {z} written as type {} meaning {got:?}", w.arch, a.ty);
            // Requested addend = field + implied addend.
            if m.addend == i64::MIN {
                ensure_eq!(got.3, m.total, "relocation {j} of section {n}: addend implied by type {}", a.ty);
            } else {
                ensure!(m.total == got.3 || m.total == got.3 + m.addend, "relocation {j} of section {n}: type {} implies {} for addend {}, nothing stored", a.ty, got.3, m.total);
            }
            g.label("generic relocation");
        }
    }
    Ok(())
}

/// The crate's own reader sees the same object.
fn reread(f: &Coff, w: &W, v: &[u8]) -> R {
    let o = must!(object::File::parse(v), "reading back");
    ensure_eq!(o.format(), BinaryFormat::Coff, "format");
    ensure_eq!(o.sections().count(), w.secs.len(), "sections reported by object::File");
    for (x, s) in o.sections().zip(&w.secs) {
        ensure_eq!(x.name_bytes().ok(), Some(&s.name[..]), "section name");
        ensure_eq!((x.size(), x.align()), (s.size, s.align), "section size and alignment of {s:?}");
        ensure_eq!(x.data().ok(), Some(&s.data[..]), "section data");
        ensure_eq!(x.relocations().count(), s.rels.len(), "section relocations");
        for (a, m) in x.relocations().zip(&s.rels) {
            ensure_eq!(a.0, m.off, "relocation offset");
            let object::read::RelocationTarget::Symbol(i) = a.1.target() else { fail!("relocation target") };
            let t = must!(o.symbol_by_index(i), "relocation target");
            if w.syms[m.sym].kind != YK::File {
                ensure_eq!(t.name_bytes().ok(), Some(&w.syms[m.sym].name[..]), "relocation target name");
            }
        }
    }
    let all: Vec<_> = o.symbols().collect();
    let mut it = all.iter();
    for (y, m) in w.syms.iter().enumerate() {
        if m.weak {
            it.next();
        }
        let x = must_some!(it.next(), "symbol {y} not reported");
        if m.kind != YK::File || !m.name.is_empty() {
            ensure_eq!(x.name_bytes().ok(), Some(&m.name[..]), "symbol {y} name");
        }
        if m.flags == SymbolFlags::None && !m.weak {
            let linked = matches!(m.kind, YK::Text | YK::Data | YK::Tls | YK::Unknown) && (m.place != Place::Common || m.size != 0);
            ensure_eq!(linked && x.is_undefined(), linked && m.place == Place::Undef, "symbol {y} is_undefined ({m:?})");
            if matches!(m.kind, YK::Section | YK::File | YK::Label) && m.place != Place::Undef && m.place != Place::Common {
                ensure_eq!(x.kind(), m.kind, "symbol {y} kind ({m:?})");
            }
            if m.place == Place::Common && m.kind != YK::Label && m.size != 0 {
                ensure!(x.is_common() && x.size() == m.size, "symbol {y} common ({m:?})");
            }
            if let Place::Sec(s) = m.place {
                ensure_eq!(x.section_index().map(|i| i.0), Some(s + 1), "symbol {y} section");
                ensure_eq!(x.address(), m.value, "symbol {y} address");
                if matches!(m.kind, YK::Text | YK::Data) {
                    ensure_eq!(x.is_local(), m.scope == SymbolScope::Compilation, "symbol {y} is_local ({m:?})");
                }
            }
        }
        ensure_eq!(x.is_weak(), flags_of(f, w, m).unwrap().1 == 105, "symbol {y} is_weak");
    }
    ensure!(it.next().is_none(), "additional symbols reported");
    Ok(())
}

fn setup(g: &mut Gen, bad: bool) -> (Coff, W, u16) {
    let (arch, sub, be, machine, is64) = if g.bool() { ARCHS[g.below(3)] } else { g.pickc(ARCHS) };
    let mut w = W::new(BinaryFormat::Coff, arch, be, is64);
    w.obj.set_sub_architecture(sub);
    let mut chars = 0;
    if g.chance(1, 3) {
        chars = g.u16();
        w.obj.flags = FileFlags::Coff { characteristics: object::pe::FileFlags(chars) };
    }
    if g.chance(1, 5) {
        w.mangling = g.pickc(&[Mangling::None, Mangling::Coff, Mangling::CoffI386]);
        w.obj.set_mangling(w.mangling);
    }
    (Coff { machine, bad }, w, chars)
}

fn finish(g: &mut Gen, f: &Coff, w: &W, chars: u16) -> R {
    g.sample(|| {
        format!("{:?} secs={} syms={} rels={} comdats={} ops={:?}", w.arch, w.secs.len(), w.syms.len(), w.secs.iter().map(|s| s.rels.len()).sum::<usize>(), w.comdats.len(), w.hist.log)
    });
    // Symbols may have moved since; leave such COMDATs out of scope.
    let mut seen = std::collections::HashSet::new();
    for c in &w.comdats {
        let ok = w.section_of(c.sym).is_none_or(|m| c.secs.contains(&m));
        if !ok || !c.secs.iter().all(|&s| seen.insert(s)) {
            g.label("COMDAT symbol moved");
            return Ok(());
        }
    }
    let null = |n: &[u8]| n.contains(&0);
    let why = if w.secs.iter().any(|s| chars_of(f, w, s).is_none()) {
        Some("a section kind is unsupported")
    } else if w.secs.len() > 0xfeff {
        Some("there are too many sections")
    } else if w.secs.iter().any(|s| s.align > 8192) {
        Some("an alignment is unsupported")
    } else if w.secs.iter().any(|s| s.size > u64::from(u32::MAX)) {
        Some("a section is too large")
    } else if w.syms.iter().any(|y| (if y.place == Place::Common { y.size } else { y.value }) > u64::from(u32::MAX)) {
        Some("a symbol value is too large")
    } else if w.syms.iter().any(|y| flags_of(f, w, y).is_none()) {
        Some("a symbol kind is unsupported")
    } else if w.syms.iter().any(|y| y.weak && !matches!(y.place, Place::Sec(_) | Place::Undef)) {
        Some("a weak symbol has no section")
    } else if w.comdats.iter().any(|c| c.kind == ComdatKind::Unknown) {
        Some("a COMDAT kind is unsupported")
    } else if w.comdats.iter().any(|c| w.section_of(c.sym).is_none()) {
        Some("a COMDAT symbol has no section")
    } else if w.comdats.iter().any(|c| c.secs.iter().any(|&s| w.secs[s].sym.is_none())) {
        Some("a COMDAT section has no symbol")
    } else if w.secs.iter().any(|s| null(&s.name)) || w.syms.iter().any(|y| null(&y.name)) {
        Some("a name contains a null byte")
    } else if w.syms.iter().any(|y| y.kind == YK::File && y.name.len() > 255 * 18) {
        Some("a file name is too long")
    } else if f.machine == 0 {
        Some("the architecture is unsupported")
    } else {
        None
    };
    if let Some(v) = write_out(w, why)? {
        verify(g, f, w, &v, chars)?;
        reread(f, w, &v)?;
        let rels: usize = w.secs.iter().map(|s| s.rels.len()).sum();
        g.nontrivial_if(!w.secs.is_empty() && !w.syms.is_empty() && rels > 0);
        g.label_if(!w.comdats.is_empty(), "comdat");
    } else {
        g.label(why.unwrap());
        g.nontrivial();
    }
    Ok(())
}

/// A random object of this format.
pub fn random(g: &mut Gen, max: usize) -> R<W> {
    let (f, mut w, _) = setup(g, false);
    history(g, &f, &mut w, max)?;
    Ok(w)
}

fn objects(g: &mut Gen) -> R {
    let (f, mut w, c) = setup(g, false);
    history(g, &f, &mut w, 60)?;
    finish(g, &f, &w, c)
}

/// Content the format cannot express is rejected.
fn reject(g: &mut Gen) -> R {
    let (mut f, mut w, c) = setup(g, true);
    if g.chance(1, 12) {
        w.obj = Object::new(BinaryFormat::Coff, g.pickc(&[A::Mips, A::Riscv64, A::S390x, A::Unknown]), object::Endianness::Little);
        w.mangling = w.obj.mangling();
        f.machine = 0;
        w.is64 = false;
    }
    history(g, &f, &mut w, 24)?;
    match g.upto(9) {
        0 => {
            let mut n = sym_name(g);
            let p = g.range(0, n.len());
            n.insert(p, 0);
            match g.upto(2) {
                0 => {
                    w.add_section(&f, vec![], n, SK::Data)?;
                }
                1 => {
                    w.add_file(n)?;
                }
                _ => {
                    w.add_symbol(Symbol { name: n, value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
                }
            }
        }
        1 => {
            let n = 255 * 18 + g.range(0, 2) - 1;
            w.add_file(vec![b'f'; n])?;
        }
        2 => {
            let y = w.add_symbol(Symbol { name: b"w".to_vec(), value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: true, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
            w.obj.symbol_mut(w.syms[y].id).section = SymbolSection::Absolute;
            w.syms[y].place = Place::Abs;
        }
        3 => {
            let s = w.add_section(&f, vec![], b".big".to_vec(), SK::UninitializedData)?;
            let n = (1u64 << 32) - 2 + g.upto(4);
            w.append_bss(s, n, 1)?;
        }
        4 => {
            let value = match g.upto(2) {
                0 => (1u64 << 32) - 2 + g.upto(3),
                1 => g.range64(1 << 32, u64::MAX),
                _ => (g.u32() as u64) << 32,
            };
            let weak = g.bool();
            match g.upto(2) {
                0 => {
                    w.add_common(Symbol { name: b"c".to_vec(), value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None }, value, 1)?;
                }
                1 => {
                    w.add_symbol(Symbol { name: b"a".to_vec(), value, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Absolute, flags: SymbolFlags::None })?;
                }
                _ => {
                    let s = w.add_section(&f, vec![], b".d".to_vec(), SK::Data)?;
                    let section = SymbolSection::Section(w.secs[s].id);
                    w.add_symbol(Symbol { name: b"d".to_vec(), value, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak, section, flags: SymbolFlags::None })?;
                }
            }
        }
        _ => {}
    }
    finish(g, &f, &w, c)
}

/// Counts at the limits of their fields.
fn many(g: &mut Gen) -> R {
    let (f, mut w, c) = setup(g, false);
    if g.bool() {
        let s = w.std_section(&f, StandardSection::Data)?;
        w.append(s, &[0; 8], 8)?;
        let y = w.section_symbol(s)?;
        let n = g.pickc(&[0xffffusize, 0xfffe, 0x10000, 0x10001, 0x11234]);
        for i in 0..n {
            let t = i as u16 % 3;
            if f.machine < 0x1f0 || f.machine > 0x1f2 {
                let r = Relocation { offset: i as u64, symbol: w.syms[y].id, addend: coff::meaning(f.machine, t).3, flags: cf(t) };
                must!(w.obj.add_relocation(w.secs[s].id, r), "relocation");
                w.secs[s].rels.push(WRel { off: i as u64, sym: y, sub: None, addend: 0, flags: cf(t), want: None, total: 0 });
            }
        }
        g.label("relocations");
    } else {
        let n = g.pickc(&[0xfefeusize, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10001]);
        for i in 0..n {
            let id = w.obj.add_section(vec![], b".s".to_vec(), SK::Data);
            w.secs.push(WSec { id, segment: vec![], name: b".s".to_vec(), kind: SK::Data, flags: SectionFlags::None, size: 0, align: 1, data: vec![], rels: vec![], sym: None });
            if i + 2 > n || i == 0x7fff || i == 0x8000 {
                w.section_symbol(i)?;
            }
        }
        g.label("sections");
    }
    finish(g, &f, &w, c)
}

#[allow(dead_code)]
fn main() {
    run(
        "C22",
        "the object has sections, symbols and relocations (or is one that must be rejected)",
        &["values passed in fit the 32-bit fields; alignments are powers of two; a COMDAT lists the section of its symbol, and COMDATs do not share sections"],
        &[sub("objects", 1_200_000, 20_000_000, objects), sub("reject", 200_000, 4_000_000, reject), sub("many", 90, 1500, many)],
    );
}
