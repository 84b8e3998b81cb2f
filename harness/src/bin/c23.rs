//! C23: a written Mach-O object reads back as what was added.
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _};
use object::write::*;
use object::{macho as m, Architecture as A, BinaryFormat, FileFlags, RelocationEncoding as E, RelocationFlags, RelocationKind as K, SectionFlags, SectionKind as SK, SubArchitecture, SymbolFlags, SymbolKind as YK, SymbolScope};
use vh::b::*;
use vh::wobj::*;
use vh::*;

/// (architecture, sub-architecture, 64-bit, cputype, cpusubtype)
const ARCHS: &[(A, Option<SubArchitecture>, bool, u32, u32)] = &[
    (A::X86_64, None, true, 0x0100_0007, 3),
    (A::Aarch64, None, true, 0x0100_000c, 0),
    (A::Aarch64, Some(SubArchitecture::Arm64E), true, 0x0100_000c, 2),
    (A::Aarch64_Ilp32, None, false, 0x0200_000c, 1),
    (A::I386, None, false, 7, 3),
    (A::Arm, None, false, 12, 0),
    (A::PowerPc, None, false, 18, 0),
    (A::PowerPc64, None, true, 0x0100_0012, 0),
];

struct Mac {
    bad: bool,
    cpu: (u32, u32),
    flags: u32,
    build: Option<(u32, u32, u32)>,
}
const STD: &[StandardSection] = &[
    StandardSection::Text,
    StandardSection::Data,
    StandardSection::ReadOnlyData,
    StandardSection::ReadOnlyDataWithRel,
    StandardSection::ReadOnlyString,
    StandardSection::UninitializedData,
    StandardSection::Tls,
    StandardSection::UninitializedTls,
    StandardSection::TlsVariables,
    StandardSection::EhFrame,
];
const KINDS: &[SK] = &[
    SK::Text, SK::Data, SK::ReadOnlyData, SK::ReadOnlyDataWithRel, SK::ReadOnlyString, SK::UninitializedData, SK::Tls, SK::UninitializedTls,
    SK::TlsVariables, SK::OtherString, SK::Other, SK::Debug, SK::DebugString, SK::Linker, SK::Metadata,
];
fn sf(fl: u32, r2: u32) -> SectionFlags {
    SectionFlags::MachO { flags: m::SectionFlags(fl), reserved2: r2 }
}
fn yf(ty: u8, desc: u16) -> Flags {
    SymbolFlags::MachO { n_type: m::SymbolFlags(ty), n_desc: m::SymbolDesc(desc) }
}
fn rf(ty: u8, pc: bool, len: u8) -> RelocationFlags {
    RelocationFlags::MachO { r_type: m::RelocationType(ty), r_pcrel: pc, r_length: len }
}
fn arm64(w: &W) -> bool {
    matches!(w.arch, A::Aarch64 | A::Aarch64_Ilp32)
}

/// The relocation entry that expresses a generic request: type, PC relative, log2 of the size,
/// and whether the section's own symbol is subtracted.
fn entry(w: &W, k: K, e: E, size: u8) -> Option<(u8, bool, u8, bool)> {
    let len = match size {
        8 => 0,
        16 => 1,
        32 => 2,
        64 => 3,
        // Instruction fields are in words.
        12 | 21 | 26 if arm64(w) => 2,
        _ => return None,
    };
    let (ty, pc, sub) = match w.arch {
        A::X86_64 => match (k, e) {
            (K::Absolute, E::Generic) => (0, false, false),
            (K::Relative, E::Generic | E::X86RipRelative) => (1, true, false),
            (K::Relative, E::X86Branch) | (K::PltRelative, E::Generic | E::X86Branch) => (2, true, false),
            (K::GotRelative, E::X86RipRelativeMovq) => (3, true, false),
            (K::GotRelative, E::Generic) => (4, true, false),
            _ => return None,
        },
        _ if arm64(w) => match (k, e) {
            (K::Absolute, E::Generic) => (0, false, false),
            (K::Relative, E::Generic) => (0, false, true),
            (K::Relative, E::AArch64Call) | (K::PltRelative, E::Generic | E::AArch64Call) => (2, true, false),
            (K::GotRelative, E::Generic) => (7, true, false),
            _ => return None,
        },
        _ if k == K::Absolute => (0, false, false),
        _ => return None,
    };
    Some((ty, pc, len, sub))
}
/// Distance from the place to the PC.
fn pc_bias(w: &W, ty: u8, pc: bool, len: u8) -> i64 {
    match w.arch {
        A::I386 if pc => 1 << len,
        A::X86_64 if pc => (1 << len) + [0, 0, 0, 0, 0, 0, 1, 2, 4].get(ty as usize).copied().unwrap_or(0),
        _ => 0,
    }
}
fn explicit(w: &W, ty: u8) -> bool {
    arm64(w) && matches!(ty, 2..=4)
}

impl Mac {
    fn rand_sym_flags(&self, g: &mut Gen, place: Place, scope: SymbolScope) -> Flags {
        let base = match place {
            Place::Undef | Place::Common => 1,
            Place::Abs => 2,
            _ => 0xe,
        };
        let ext = match scope {
            SymbolScope::Unknown | SymbolScope::Compilation => 0,
            _ => 1,
        };
        yf(base | ext | (g.bool() as u8) << 4, g.u16())
    }
}

impl Fmt for Mac {
    fn std(&self, _w: &W, s: StandardSection) -> (Vec<u8>, Vec<u8>, SK, SectionFlags) {
        let n = SectionFlags::None;
        let (seg, name, kind, fl) = match s {
            StandardSection::Text => ("__TEXT", "__text", SK::Text, n),
            StandardSection::Data => ("__DATA", "__data", SK::Data, n),
            StandardSection::ReadOnlyData => ("__TEXT", "__const", SK::ReadOnlyData, n),
            StandardSection::ReadOnlyDataWithRel => ("__DATA", "__const", SK::ReadOnlyDataWithRel, n),
            StandardSection::ReadOnlyString => ("__TEXT", "__cstring", SK::ReadOnlyString, n),
            StandardSection::UninitializedData => ("__DATA", "__bss", SK::UninitializedData, n),
            StandardSection::Tls => ("__DATA", "__thread_data", SK::Tls, n),
            StandardSection::UninitializedTls => ("__DATA", "__thread_bss", SK::UninitializedTls, n),
            StandardSection::TlsVariables => ("__DATA", "__thread_vars", SK::TlsVariables, n),
            StandardSection::GnuProperty => ("", "", SK::Note, n),
            // Coalesced, no TOC, strip static symbols, live support.
            StandardSection::EhFrame => ("__TEXT", "__eh_frame", SK::ReadOnlyData, sf(0x6800_000b, 0)),
            _ => unreachable!(),
        };
        (seg.as_bytes().to_vec(), name.as_bytes().to_vec(), kind, fl)
    }
    fn subname(&self, base: &[u8], _v: &[u8]) -> Vec<u8> {
        base.to_vec()
    }
    fn sec_flags(&self, _w: &W, s: &WSec) -> SectionFlags {
        sf(
            match s.kind {
                SK::Text => 0x8000_0400,
                SK::ReadOnlyString | SK::OtherString => 2,
                SK::UninitializedData => 1,
                SK::Tls => 0x11,
                SK::UninitializedTls => 0x12,
                SK::TlsVariables => 0x13,
                SK::Debug | SK::DebugString => 0x0200_0000,
                SK::Note | SK::Unknown => return SectionFlags::None,
                _ => 0,
            },
            0,
        )
    }
    fn sym_flags(&self, _w: &W, y: &WSym) -> Flags {
        let mut t = match y.place {
            Place::Undef | Place::Common => 1,
            Place::Abs => 2,
            Place::Sec(_) => 0xe,
            Place::None => return SymbolFlags::None,
        };
        t |= match y.scope {
            SymbolScope::Linkage => 0x11,
            SymbolScope::Dynamic => 1,
            _ => 0,
        };
        let mut d = match (y.weak, y.place) {
            (false, _) => 0,
            (true, Place::Undef) => 0x40,
            (true, _) => 0x80,
        };
        if y.place == Place::Common {
            let a = if y.value > 1 { y.value.trailing_zeros().min(15) } else { 0 };
            d = d & !0xf00 | (a as u16) << 8;
        }
        yf(t, d)
    }
    fn gen_seg(&self, g: &mut Gen) -> Vec<u8> {
        match g.upto(5) {
            0 => vec![],
            1 => b"__DWARF".to_vec(),
            2 => b"__TEXT".to_vec(),
            3 => b"__DATA".to_vec(),
            _ => self.gen_sec_name(g),
        }
    }
    fn gen_sec_name(&self, g: &mut Gen) -> Vec<u8> {
        match g.upto(3) {
            0 => g.pickc(&["__text", "__data", "__const", "__bss", "__thread_vars", "__debug_info", "__cstring"]).as_bytes().to_vec(),
            1 => {
                let n = g.range(14, if self.bad { 18 } else { 16 });
                g.bytes(n).iter().map(|b| b'a' + b % 26).collect()
            }
            _ => g.name(12).into_iter().map(|c| if c == 0 { b'x' } else { c }).collect(),
        }
    }
    fn gen_kind(&self, g: &mut Gen) -> SK {
        if self.bad && g.chance(1, 6) { g.pickc(&[SK::Unknown, SK::Note]) } else { g.pickc(KINDS) }
    }
    fn gen_align(&self, g: &mut Gen) -> u64 {
        1 << if g.chance(1, 10) { g.upto(12) } else if g.chance(1, 200) { g.range(13, 18) as u64 } else { g.upto(4) }
    }
    fn gen_sec_flags(&self, g: &mut Gen, w: &W, s: usize) -> Option<SectionFlags> {
        if g.bool() {
            return None;
        }
        let ty = if is_bss(w.secs[s].kind) { g.pickc(&[1u32, 0xc, 0x12]) } else { g.pickc(&[0u32, 2, 3, 5, 6, 7, 8, 9, 0xb, 0xd, 0x10, 0x11, 0x13, 0x15]) };
        Some(sf(g.u32() << 8 | ty, g.u32()))
    }
    fn gen_sym(&self, g: &mut Gen, w: &W) -> Symbol {
        let name = sym_name(g);
        let mut kind = g.pickc(&[YK::Text, YK::Data, YK::Tls, YK::Unknown, YK::Section]);
        if self.bad && g.chance(1, 8) {
            kind = YK::Label;
        }
        let weak = g.chance(1, 4);
        let mut section = match g.upto(5) {
            0 => SymbolSection::Undefined,
            1 => SymbolSection::Absolute,
            _ => w.pick_sec(g, |_| true).map_or(SymbolSection::Undefined, |s| SymbolSection::Section(w.secs[s].id)),
        };
        if kind == YK::Section {
            match w.pick_sec(g, |_| true) {
                Some(s) => section = SymbolSection::Section(w.secs[s].id),
                None => kind = YK::Data,
            }
        }
        let scope = if section == SymbolSection::Undefined {
            g.pickc(&[SymbolScope::Unknown, SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        } else {
            g.pickc(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic])
        };
        let flags = if kind != YK::Section && g.chance(1, 6) { self.rand_sym_flags(g, place(section, w), scope) } else { SymbolFlags::None };
        let value = match section {
            // An undefined symbol with a value is a common symbol.
            SymbolSection::Undefined => 0,
            // Room for the section address.
            SymbolSection::Absolute => g.uint(if w.is64 { 64 } else { 32 }),
            _ => g.uint(if w.is64 { 62 } else { 30 }),
        };
        Symbol { name, value, size: g.uint(32), kind, scope, weak, section, flags }
    }
    fn gen_sym_flags(&self, g: &mut Gen, w: &W, y: usize) -> Option<Flags> {
        if g.bool() || matches!(w.syms[y].kind, YK::Section | YK::File) {
            return None;
        }
        Some(self.rand_sym_flags(g, w.syms[y].place, w.syms[y].scope))
    }
    fn reloc(&self, g: &mut Gen, w: &mut W) -> R {
        let emitted = |w: &W, y: &WSym| y.kind != YK::File && (y.kind != YK::Section || arm64(w));
        let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind)) else { return Ok(()) };
        let any = self.bad && g.chance(1, 8);
        let Some(y) = w.pick_sym(g, |y| any || y.kind != YK::File) else { return Ok(()) };
        let n = w.secs[s].data.len() as u64;
        let off = match g.upto(7) {
            0 => g.uint(31),
            1 => g.upto(n),
            _ => g.upto(n.saturating_sub(8)),
        };
        let mut sub = None;
        if (arm64(w) || w.arch == A::X86_64 || self.bad) && g.chance(1, 6) {
            sub = w.pick_sym(g, |y| any || emitted(w, y));
        }
        let small = (g.uint(32) as u32 as i32 / 2) as i64;
        let addend = match g.upto(4) {
            0 => 0,
            4 => g.pickc(&[-0x80_0001i64, -0x80_0000, 0x7f_ffff, 0x80_0000]),
            1 => -(g.upto(10) as i64),
            2 => g.i64() / 4,
            _ => small,
        };
        let fit = |addend: i64, ty: u8, len: u8| {
            if explicit(w, ty) {
                if self.bad && any { addend << 38 >> 38 } else { addend << 40 >> 40 }
            } else if len == 3 {
                addend
            } else {
                addend as i32 as i64 / 2
            }
        };
        // The entry expected, or None if the request must be rejected.
        let (flags, want, ent, addend) = if g.chance(1, 4) {
            // Not the types that modify the next entry.
            let ty = g.pickc(&[0u8, 2, 3, 4, 6, 7, 8, 9, 15]);
            let (pc, len) = (g.bool(), g.upto(3) as u8);
            (rf(ty, pc, len), None, Some((ty, pc, len, false)), fit(addend, ty, len))
        } else {
            let k = g.pickc(&[K::Absolute, K::Relative, K::PltRelative, K::GotRelative, K::Absolute, K::Relative, K::None, K::Got, K::GotBaseRelative, K::GotBaseOffset, K::ImageOffset, K::SectionOffset, K::SectionIndex, K::Unknown]);
            let es: &[E] = if w.arch == A::X86_64 {
                &[E::Generic, E::X86RipRelative, E::X86Branch, E::X86RipRelativeMovq, E::X86Signed]
            } else if arm64(w) {
                &[E::Generic, E::AArch64Call]
            } else {
                &[E::Generic]
            };
            let e = g.pickc(es);
            let z = if e == E::AArch64Call && g.bool() { 26 } else { g.pickc(&[32u8, 64, 32, 64, 32, 16, 8, 12, 7, 0]) };
            let ent = entry(w, k, e, z);
            let (ty, _, len, _) = ent.unwrap_or_default();
            (RelocationFlags::Generic { kind: k, encoding: e, size: z }, Some((k, e, z)), ent, fit(addend, ty, len))
        };
        let before = w.secs[s].data.clone();
        let r = w.add_reloc(s, off, y, sub, addend, flags);
        let Some((ty, pc, len, own)) = ent else {
            ensure!(r.is_err(), "{:?} add_relocation({flags:?}) accepted", w.arch);
            ensure_eq!(w.obj.section(w.secs[s].id).data(), &before[..], "section data after a rejected relocation");
            g.label("relocation rejected");
            return Ok(());
        };
        let mut left = addend + pc_bias(w, ty, pc, len);
        if own {
            sub = Some(w.section_symbol(s)?);
            left -= off as i64;
            g.label("section subtracted");
        }
        if !explicit(w, ty) && left != 0 {
            // Stored in the section, which is done for words and doublewords.
            let ok = len >= 2 && w.store(s, off, 1 << len, left);
            ensure_eq!(r.is_ok(), ok, "{:?} add_relocation({flags:?}, offset {off:#x}, addend {addend}) accepted: {r:?}", w.arch);
            if !ok {
                ensure_eq!(w.obj.section(w.secs[s].id).data(), &before[..], "section data after a rejected relocation");
                return Ok(());
            }
            left = 0;
        }
        must!(r, "{:?} add_relocation({flags:?}, offset {off:#x}, addend {addend})", w.arch);
        g.label_if(left != 0, "explicit addend");
        w.secs[s].rels.push(WRel { off, sym: y, sub, addend: left, flags: rf(ty, pc, len), want, total: addend });
        Ok(())
    }
    fn comdat(&self, _g: &mut Gen, _w: &mut W) -> R {
        Ok(())
    }
    fn special(&self, g: &mut Gen, w: &mut W) -> R {
        match g.upto(4) {
            0 => {
                w.obj.set_subsections_via_symbols();
                w.subsections = true;
            }
            1 => {
                if let Some(y) = w.pick_sym(g, |y| !matches!(y.kind, YK::Section | YK::File) && y.place != Place::Undef) {
                    let (v, z, k) = (g.upto(64), g.upto(64), g.bool());
                    let o = w.obj.symbol_mut(w.syms[y].id);
                    (o.value, o.size, o.weak) = (v, z, k);
                    let m = &mut w.syms[y];
                    (m.value, m.size, m.weak) = (v, z, k);
                }
            }
            _ => {
                if let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind) && !s.data.is_empty()) {
                    let i = g.below(w.secs[s].data.len());
                    let v = g.u8();
                    w.obj.section_mut(w.secs[s].id).data_mut()[i] = v;
                    w.secs[s].data[i] = v;
                }
            }
        }
        Ok(())
    }
    /// A thread variable gets a descriptor of three pointers in `__thread_vars`, which the symbol
    /// refers to; a new local symbol refers to its initial contents.
    fn data_symbol(&self, w: &mut W, y: usize) -> R<usize> {
        if w.syms[y].kind != YK::Tls {
            return Ok(y);
        }
        let p = if w.is64 { 8u64 } else { 4 };
        let local = |name: Vec<u8>, kind, scope, n| WSym { id: nth_symbol_id(n), name, value: 0, size: 0, kind, scope, weak: false, place: Place::Undef, flags: SymbolFlags::None };
        let mut name = w.syms[y].name.clone();
        name.extend_from_slice(b"$tlv$init");
        let n = w.syms.len();
        let init = w.model_symbol(nth_symbol_id(n), local(name, YK::Tls, SymbolScope::Compilation, n))?;
        let tv = w.std_section(self, StandardSection::TlsVariables)?;
        let d = &mut w.secs[tv];
        while d.data.len() as u64 % p != 0 {
            d.data.push(0);
        }
        let off = d.data.len() as u64;
        d.data.resize((off + 3 * p) as usize, 0);
        d.size = d.data.len() as u64;
        d.align = d.align.max(p);
        let boot = match w.tlv_bootstrap {
            Some(b) => b,
            None => {
                let mut name = b"_tlv_bootstrap".to_vec();
                if let Some(p) = w.prefix() {
                    name.insert(0, p);
                }
                let n = w.syms.len();
                let b = w.model_symbol(nth_symbol_id(n), local(name, YK::Text, SymbolScope::Dynamic, n))?;
                w.by_name.insert(b"_tlv_bootstrap".to_vec(), b);
                w.tlv_bootstrap = Some(b);
                b
            }
        };
        for (o, sym) in [(off, boot), (off + 2 * p, init)] {
            w.secs[tv].rels.push(WRel { off: o, sym, sub: None, addend: 0, flags: rf(0, false, if w.is64 { 3 } else { 2 }), want: Some((K::Absolute, E::Generic, p as u8 * 8)), total: 0 });
        }
        let m = &mut w.syms[y];
        (m.value, m.size, m.place) = (off, 3 * p, Place::Sec(tv));
        Ok(init)
    }
    fn standard(&self) -> &'static [StandardSection] {
        STD
    }
}

fn flags_of(f: &Mac, w: &W, y: &WSym) -> Option<(u8, u16)> {
    let fl = if y.flags != SymbolFlags::None { y.flags } else { f.sym_flags(w, y) };
    if let SymbolFlags::MachO { n_type, n_desc } = fl { Some((n_type.0, n_desc.0)) } else { None }
}
fn sflags_of(f: &Mac, w: &W, s: &WSec) -> Option<(u32, u32)> {
    let fl = if s.flags != SectionFlags::None { s.flags } else { f.sec_flags(w, s) };
    if let SectionFlags::MachO { flags, reserved2 } = fl { Some((flags.0, reserved2)) } else { None }
}

/// The order of the symbol table: local symbols as added, then external and undefined ones by name.
fn order(w: &W) -> (Vec<usize>, usize, usize) {
    let all: Vec<usize> = (0..w.syms.len()).filter(|&y| w.syms[y].kind != YK::File && (w.syms[y].kind != YK::Section || arm64(w))).collect();
    let und = |y: &usize| matches!(w.syms[*y].place, Place::Undef | Place::Common);
    let loc = |y: &usize| matches!(w.syms[*y].scope, SymbolScope::Compilation);
    let mut o: Vec<usize> = all.iter().copied().filter(|y| !und(y) && loc(y)).collect();
    let nl = o.len();
    let mut e: Vec<usize> = all.iter().copied().filter(|y| !und(y) && !loc(y)).collect();
    e.sort_by(|a, b| w.syms[*a].name.cmp(&w.syms[*b].name));
    let ne = e.len();
    let mut u: Vec<usize> = all.iter().copied().filter(und).collect();
    u.sort_by(|a, b| w.syms[*a].name.cmp(&w.syms[*b].name));
    o.extend(e);
    o.extend(u);
    (o, nl, ne)
}

fn verify(g: &mut Gen, f: &Mac, w: &W, v: &[u8]) -> R {
    let d = D::new(w.be, w.is64, v);
    let mut h = d;
    let mut word = |what: &str| -> R<u32> { Ok(must_some!(h.u32(), "truncated header: {what}")) };
    ensure_eq!(word("magic")?, if w.is64 { 0xfeed_facf } else { 0xfeed_face }, "magic");
    ensure_eq!((word("cpu")?, word("cpu")?), f.cpu, "cputype, cpusubtype");
    ensure_eq!(word("type")?, 1, "filetype");
    let (ncmds, szcmds) = (word("ncmds")?, word("sizeofcmds")?);
    ensure_eq!(word("flags")?, f.flags | if w.subsections { 0x2000 } else { 0 }, "flags");
    if w.is64 {
        ensure_eq!(word("reserved")?, 0, "reserved");
    }
    let hdr = if w.is64 { 32 } else { 28 };
    let ptr = if w.is64 { 8u64 } else { 4 };
    let mut ranges = vec![(0, hdr as u64 + szcmds as u64, "load commands".to_string())];
    let mut p = hdr;
    let mut seen = vec![];
    let (mut segs, mut symtab, mut dysym) = (vec![], None, None);
    for i in 0..ncmds {
        let mut c = d.at(p);
        let (Some(cmd), Some(size)) = (c.u32(), c.u32()) else { fail!("load command {i} truncated") };
        ensure!(size >= 8 && size as u64 % ptr == 0, "load command {i} size {size}");
        let body = must_some!(c.bytes(size as usize - 8), "load command {i} truncated");
        let mut b = D::new(w.be, w.is64, body);
        seen.push(cmd);
        let words: Vec<u32> = (0..body.len() / 4).map(|i| b.at(i * 4).u32().unwrap()).collect();
        match cmd {
            1 | 0x19 => {
                ensure_eq!(cmd, if w.is64 { 0x19 } else { 1 }, "segment command");
                ensure_eq!(b.bytes(16), Some(&[0u8; 16][..]), "segment name");
                let x: Vec<u64> = (0..4).map(|_| b.w().unwrap()).collect();
                let y: Vec<u32> = (0..4).map(|_| b.u32().unwrap()).collect();
                ensure_eq!((y[0], y[1], y[3]), (7, 7, 0), "segment protection and flags");
                segs.push((x, y[2], b));
            }
            2 => symtab = Some(words),
            0xb => dysym = Some(words),
            0x32 => {
                let Some((a, m, s)) = f.build else { fail!("unrequested build version") };
                ensure_eq!(words, vec![a, m, s, 0], "build version");
            }
            _ => fail!("load command {cmd:#x}"),
        }
        p += size as usize;
    }
    ensure_eq!(p - hdr, szcmds as usize, "sizeofcmds");
    seen.sort();
    let mut want = vec![2, 0xb, if w.is64 { 0x19 } else { 1 }];
    if f.build.is_some() {
        want.push(0x32);
    }
    want.sort();
    ensure_eq!(seen, want, "load commands");
    let (x, nsects, mut b) = segs.pop().unwrap();
    let (vmaddr, vmsize, fileoff, filesize) = (x[0], x[1], x[2], x[3]);
    ensure_eq!(vmaddr, 0, "segment vmaddr");
    ensure!(fileoff + filesize <= v.len() as u64 && filesize <= vmsize, "segment outside the file");
    ensure_eq!(nsects as usize, w.secs.len(), "section count");
    let mut addrs = vec![];
    let mut rels = vec![];
    let mut mem = vec![];
    for (n, s) in w.secs.iter().enumerate() {
        let fixed = |v: &[u8]| {
            let mut v = v.to_vec();
            v.resize(16, 0);
            v
        };
        ensure_eq!(b.bytes(16), Some(&fixed(&s.name)[..]), "section {n} name");
        ensure_eq!(b.bytes(16), Some(&fixed(&s.segment)[..]), "section {n} segment");
        let (addr, size) = (b.w().unwrap(), b.w().unwrap());
        let x: Vec<u32> = (0..7).map(|_| b.u32().unwrap()).collect();
        if w.is64 {
            ensure_eq!(b.u32(), Some(0), "section {n} reserved3");
        }
        let (off, align, reloff, nreloc) = (x[0] as u64, x[1], x[2] as u64, x[3] as u64);
        ensure_eq!((x[4], x[6]), sflags_of(f, w, s).unwrap(), "section {n} flags and reserved2");
        ensure_eq!(x[5], 0, "section {n} reserved1");
        ensure_eq!((size, align), (s.size, s.align.trailing_zeros()), "section {n} size and alignment");
        ensure!(addr % s.align == 0, "section {n} address {addr:#x} not aligned to {}", s.align);
        ensure!(addr + size <= vmsize, "section {n} outside its segment");
        addrs.push(addr);
        if size > 0 {
            mem.push((addr, addr + size, format!("section {n}")));
        }
        if !is_bss(s.kind) {
            ensure_eq!(off.checked_sub(fileoff), addr.checked_sub(vmaddr), "section {n} offset in the segment");
            ensure!(addr + size <= filesize, "section {n} outside the segment's contents");
            ensure_eq!(d.at(off as usize).bytes(size as usize), Some(&s.data[..]), "section {n} contents");
        }
        if nreloc > 0 {
            ensure!(reloff % ptr == 0, "section {n} relocations misaligned");
            ranges.push((reloff, reloff + 8 * nreloc, format!("relocations {n}")));
        }
        rels.push((reloff, nreloc));
    }
    ensure!(b.rest().is_empty(), "segment command has additional contents");
    mem.sort();
    for p in mem.windows(2) {
        ensure!(p[0].1 <= p[1].0, "address of {} overlaps {}", p[0].2, p[1].2);
    }
    if filesize > 0 {
        ranges.push((fileoff, fileoff + filesize, "segment".into()));
    }
    // Symbols.
    let st = symtab.unwrap();
    ensure_eq!(st.len(), 4, "LC_SYMTAB size");
    let (symoff, nsyms, stroff, strsize) = (st[0] as usize, st[1] as usize, st[2] as usize, st[3] as usize);
    ensure!(symoff as u64 % ptr == 0, "symbol table misaligned");
    let nl = if w.is64 { 16 } else { 12 };
    ranges.push((symoff as u64, (symoff + nl * nsyms) as u64, "symbols".into()));
    ranges.push((stroff as u64, (stroff + strsize) as u64, "strings".into()));
    let strs = must_some!(d.at(stroff).bytes(strsize), "string table outside the file");
    ensure!(strs.first() == Some(&0), "string table does not start with an empty string");
    let (ord, nloc, next) = order(w);
    ensure_eq!(nsyms, ord.len(), "symbol count");
    let mut dy = vec![0u32; 18];
    dy[..6].copy_from_slice(&[0, nloc as u32, nloc as u32, next as u32, (nloc + next) as u32, (ord.len() - nloc - next) as u32]);
    ensure_eq!(dysym.unwrap(), dy, "LC_DYSYMTAB");
    let mut pos = vec![None; w.syms.len()];
    for (i, &y) in ord.iter().enumerate() {
        pos[y] = Some(i as u32);
        let m = &w.syms[y];
        let mut e = d.at(symoff + i * nl);
        let mut rd = || Some((e.u32()?, e.u8()?, e.u8()?, e.u16()?, e.w()?));
        let (strx, ty, sect, desc, value) = must_some!(rd(), "symbol {i} outside the file");
        let name = if strx == 0 { &[] } else { must_some!(cstr_at(strs, strx as usize), "symbol {i} name offset {strx}") };
        ensure_eq!(name, m.name, "symbol {i} name");
        ensure_eq!(Some((ty, desc)), flags_of(f, w, m), "symbol {i} n_type and n_desc ({m:?})");
        let want = match m.place {
            Place::Sec(s) => (s as u8 + 1, addrs[s].wrapping_add(m.value)),
            Place::Common => (0, m.size),
            _ => (0, m.value),
        };
        let value = if w.is64 { value } else { value & 0xffff_ffff };
        ensure_eq!((sect, value), want, "symbol {i} section and value ({m:?})");
    }
    // Relocations.
    for (n, s) in w.secs.iter().enumerate() {
        let mut ms: Vec<&WRel> = s.rels.iter().collect();
        // Written in descending order of offset.
        if s.rels.first().zip(s.rels.last()).is_some_and(|(a, b)| a.off < b.off) {
            ms.reverse();
        }
        let mut want = vec![];
        for r in ms {
            let RelocationFlags::MachO { r_type, r_pcrel, r_length } = r.flags else { unreachable!() };
            let (ty, pc, len) = (r_type.0, r_pcrel, r_length);
            if let Some(x) = r.sub {
                want.push((r.off as u32, must_some!(pos[x], "subtractor"), false, len, true, if arm64(w) { 1 } else { 5 }));
            }
            if r.addend != 0 {
                want.push((r.off as u32, r.addend as u32 & 0xff_ffff, false, len, false, 10));
            }
            let y = &w.syms[r.sym];
            match (y.kind, y.place) {
                (YK::Section, Place::Sec(t)) => want.push((r.off as u32, t as u32 + 1, pc, len, false, ty)),
                _ => want.push((r.off as u32, must_some!(pos[r.sym], "target"), pc, len, true, ty)),
            }
            g.label_if(r.want.is_some(), "generic relocation");
        }
        let (off, cnt) = rels[n];
        let mut got = vec![];
        let mut c = d.at(off as usize);
        for j in 0..cnt {
            let (Some(a), Some(x)) = (c.u32(), c.u32()) else { fail!("relocation {j} of section {n} outside the file") };
            got.push(if w.be {
                (a, x >> 8, x >> 7 & 1 != 0, (x >> 5 & 3) as u8, x >> 4 & 1 != 0, (x & 15) as u8)
            } else {
                (a, x & 0xff_ffff, x >> 24 & 1 != 0, (x >> 25 & 3) as u8, x >> 27 & 1 != 0, (x >> 28) as u8)
            });
        }
        ensure_eq!(got, want, "relocations of section {n} (address, symbol, pcrel, length, extern, type)");
    }
    ranges.sort();
    for p in ranges.windows(2) {
        ensure!(p[0].1 <= p[1].0, "{} overlaps {}", p[0].2, p[1].2);
    }
    ensure!(ranges.last().unwrap().1 <= v.len() as u64, "contents beyond the end of the file");
    Ok(())
}

/// The crate's own reader sees the same object.
fn reread(f: &Mac, w: &W, v: &[u8]) -> R {
    let o = must!(object::File::parse(v), "reading back");
    ensure_eq!(o.format(), BinaryFormat::MachO, "format");
    ensure_eq!(o.architecture(), w.arch, "architecture");
    ensure_eq!(o.endianness() == object::Endianness::Big, w.be, "endianness");
    ensure_eq!(o.sections().count(), w.secs.len(), "sections reported by object::File");
    let (ord, _, _) = order(w);
    let mut addrs = vec![];
    for (n, (x, s)) in o.sections().zip(&w.secs).enumerate() {
        ensure_eq!(x.index().0, n + 1, "section index");
        ensure_eq!(x.name_bytes().ok(), Some(&s.name[..]), "section name");
        ensure_eq!(x.segment_name_bytes().ok(), Some(Some(&s.segment[..])), "section segment name");
        ensure_eq!((x.size(), x.align()), (s.size, s.align), "section size and alignment");
        ensure_eq!(x.data().ok(), Some(&s.data[..]), "section data");
        addrs.push(x.address());
    }
    for (x, s) in o.sections().zip(&w.secs) {
        let mut ms: Vec<&WRel> = s.rels.iter().collect();
        if s.rels.first().zip(s.rels.last()).is_some_and(|(a, b)| a.off < b.off) {
            ms.reverse();
        }
        let got: Vec<_> = x.relocations().collect();
        ensure_eq!(got.len(), ms.len(), "relocation count");
        for (a, r) in got.iter().zip(ms) {
            ensure_eq!((a.0, a.1.flags()), (r.off, r.flags), "relocation offset and flags");
            let pos = |y: usize| object::SymbolIndex(ord.iter().position(|&z| z == y).unwrap());
            let y = &w.syms[r.sym];
            let target = match (y.kind, y.place) {
                (YK::Section, Place::Sec(t)) => object::read::RelocationTarget::Section(object::SectionIndex(t + 1)),
                _ => object::read::RelocationTarget::Symbol(pos(r.sym)),
            };
            ensure_eq!(a.1.target(), target, "relocation target");
            ensure_eq!(a.1.subtractor(), r.sub.map(pos), "relocation subtractor");
            // The addend requested: what is in the entry (and in the section) and what it implies.
            let RelocationFlags::MachO { r_type, r_pcrel, r_length } = r.flags else { unreachable!() };
            ensure_eq!(a.1.addend(), r.addend - pc_bias(w, r_type.0, r_pcrel, r_length), "relocation addend");
            ensure_eq!(a.1.has_implicit_addend(), r.addend == 0, "relocation addend is implicit");
            if let Some((k, e, z)) = r.want {
                // A difference with the section's own symbol is how PC relative values are expressed.
                let (k2, e2) = match (k, e) {
                    (K::Relative, E::Generic) if arm64(w) => (K::Absolute, E::Generic),
                    (K::Relative, E::AArch64Call) => (K::PltRelative, E::AArch64Call),
                    (K::PltRelative, _) if arm64(w) => (K::PltRelative, E::AArch64Call),
                    (K::Relative, E::Generic) => (K::Relative, E::X86RipRelative),
                    (K::Relative, E::X86Branch) | (K::PltRelative, _) => (K::PltRelative, E::X86Branch),
                    _ => (k, e),
                };
                ensure_eq!((a.1.kind(), a.1.encoding()), (k2, e2), "relocation kind and encoding");
                if !matches!(z, 12 | 21 | 26) && e2 != E::AArch64Call {
                    ensure_eq!(a.1.size(), z, "relocation size");
                }
            }
        }
    }
    let got: Vec<_> = o.symbols().collect();
    ensure_eq!(got.len(), ord.len(), "symbols reported by object::File");
    for (x, &y) in got.iter().zip(&ord) {
        let m = &w.syms[y];
        ensure_eq!(x.name_bytes().ok(), Some(&m.name[..]), "symbol name");
        if m.flags != SymbolFlags::None {
            continue;
        }
        ensure_eq!(x.is_undefined(), m.place == Place::Undef || m.place == Place::Common && m.size == 0, "symbol is_undefined ({m:?})");
        ensure_eq!(x.is_weak(), m.weak, "symbol is_weak ({m:?})");
        match m.place {
            Place::Sec(s) => {
                ensure_eq!(x.section_index().map(|i| i.0), Some(s + 1), "symbol section");
                ensure_eq!(x.address(), addrs[s].wrapping_add(m.value), "symbol address");
                ensure_eq!(x.scope(), m.scope, "symbol scope ({m:?})");
            }
            Place::Common if m.size != 0 => ensure!(x.is_common() && x.size() == m.size, "common symbol ({m:?})"),
            Place::Abs => ensure_eq!((x.address(), x.section()), (m.value, object::read::SymbolSection::Absolute), "absolute symbol"),
            _ => {}
        }
    }
    if let Some((a, _, _)) = f.build {
        let _ = a;
    }
    Ok(())
}

fn setup(g: &mut Gen, bad: bool) -> (Mac, W) {
    let (arch, sub, is64, cpu, mut cpusub) = if g.bool() { ARCHS[g.below(4)] } else { g.pickc(ARCHS) };
    let mut w = W::new(BinaryFormat::MachO, arch, g.bool(), is64);
    w.obj.set_sub_architecture(sub);
    let mut flags = 0;
    if g.chance(1, 3) {
        flags = g.u32();
        w.obj.flags = FileFlags::MachO { flags: m::FileFlags(flags) };
    }
    if g.chance(1, 4) {
        cpusub = g.u32();
        w.obj.set_macho_cpu_subtype(m::CpuSubtype(cpusub));
    }
    let mut build = None;
    if g.chance(1, 4) {
        let (a, b, c) = (g.u32(), g.u32(), g.u32());
        let mut v = MachOBuildVersion::default();
        v.platform = m::Platform(a);
        v.minos = m::Version(b);
        v.sdk = m::Version(c);
        w.obj.set_macho_build_version(v);
        build = Some((a, b, c));
    }
    if g.chance(1, 5) {
        w.mangling = g.pickc(&[Mangling::None, Mangling::MachO]);
        w.obj.set_mangling(w.mangling);
    }
    (Mac { bad, cpu: (cpu, cpusub), flags, build }, w)
}

fn finish(g: &mut Gen, f: &Mac, w: &W) -> R {
    g.sample(|| {
        format!("{:?} be={} secs={} syms={} rels={} ops={:?}", w.arch, w.be, w.secs.len(), w.syms.len(), w.secs.iter().map(|s| s.rels.len()).sum::<usize>(), w.hist.log)
    });
    let null = |n: &[u8]| n.contains(&0);
    let hidden = |y: usize| w.syms[y].kind == YK::File || w.syms[y].kind == YK::Section && !arm64(w);
    let rels = || w.secs.iter().flat_map(|s| &s.rels);
    let why = if w.secs.len() > 255 {
        Some("there are too many sections")
    } else if f.cpu.0 == 0 {
        Some("the architecture is unsupported")
    } else if w.syms.iter().any(|y| y.kind == YK::Label) {
        Some("a label is unsupported")
    } else if w.secs.iter().any(|s| sflags_of(f, w, s).is_none()) {
        Some("a section kind is unsupported")
    } else if w.secs.iter().any(|s| s.name.len() > 16 || s.segment.len() > 16) {
        Some("a name is too long")
    } else if w.syms.iter().any(|y| y.kind != YK::File && null(&y.name)) {
        Some("a name contains a null byte")
    } else if rels().any(|r| r.addend != r.addend << 40 >> 40) {
        Some("an addend is too large")
    } else if rels().any(|r| r.sub.is_some()) && !arm64(w) && w.arch != A::X86_64 {
        Some("subtractors are unsupported")
    } else if rels().any(|r| r.sub.is_some_and(hidden) || w.syms[r.sym].kind == YK::File) {
        Some("a relocation refers to a symbol that is not written")
    } else if !w.is64 && w.secs.iter().map(|s| s.size).sum::<u64>() > u32::MAX as u64 {
        Some("the sections are too large")
    } else {
        None
    };
    if let Some(v) = write_out(w, why)? {
        verify(g, f, w, &v)?;
        reread(f, w, &v)?;
        g.nontrivial_if(!w.secs.is_empty() && !w.syms.is_empty() && rels().count() > 0);
        g.label_if(w.tlv_bootstrap.is_some(), "thread variable");
        g.label_if(rels().any(|r| r.sub.is_some()), "subtractor");
    } else {
        g.label(why.unwrap());
        g.nontrivial();
    }
    Ok(())
}

/// A random object of this format.
pub fn random(g: &mut Gen, max: usize) -> R<W> {
    let (f, mut w) = setup(g, false);
    history(g, &f, &mut w, max)?;
    Ok(w)
}

fn objects(g: &mut Gen) -> R {
    let (f, mut w) = setup(g, false);
    history(g, &f, &mut w, 60)?;
    finish(g, &f, &w)
}

/// Content the format cannot express is rejected.
fn reject(g: &mut Gen) -> R {
    let (mut f, mut w) = setup(g, true);
    match g.upto(11) {
        0 => {
            w.obj = Object::new(BinaryFormat::MachO, g.pickc(&[A::Mips, A::Riscv32, A::M68k]), object::Endianness::Little);
            w.be = false;
            w.is64 = false;
            f.cpu.0 = 0;
            w.mangling = w.obj.mangling();
            for _ in 0..3 {
                let (s, n, k) = (f.gen_seg(g), f.gen_sec_name(g), f.gen_kind(g));
                w.add_section(&f, s, n, k)?;
            }
            return finish(g, &f, &w);
        }
        1 => {
            let n = g.range(253, 258);
            for i in 0..n {
                w.add_section(&f, b"__D".to_vec(), format!("s{i}").into_bytes(), SK::Data)?;
            }
        }
        2 => {
            let s = w.std_section(&f, StandardSection::UninitializedData)?;
            let size = if g.bool() { 1 << 32 } else { (1 << 32) - g.upto(4096) };
            w.append_bss(s, size, 1)?;
            if w.is64 || size == 1 << 32 {
                return finish(g, &f, &w);
            }
            // Close to the limit, alignment decides.
            let s = w.std_section(&f, StandardSection::Data)?;
            let d = vec![1; g.range(0, 4096)];
            w.append(s, &d, 1)?;
            return finish(g, &f, &w);
        }
        _ => {}
    }
    history(g, &f, &mut w, 30)?;
    if g.chance(1, 6) {
        let mut n = sym_name(g);
        n.truncate(15);
        let p = g.range(0, n.len());
        n.insert(p, 0);
        w.add_symbol(Symbol { name: n, value: 0, size: 0, kind: YK::Data, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None })?;
    }
    finish(g, &f, &w)
}

/// Counts beyond 16 bits.
fn many(g: &mut Gen) -> R {
    let (f, mut w) = setup(g, false);
    let s = w.std_section(&f, StandardSection::Data)?;
    w.append(s, &[0; 64], 8)?;
    let mut n = [g.range(0, 40), g.range(0, 40), g.range(0, 40)];
    n[g.below(3)] = g.pickc(&[0xfffeusize, 0xffff, 0x10000, 0x10001, 0x10100]);
    if g.chance(1, 4) {
        n[g.below(3)] = 0x10002;
    }
    let sec = w.secs[s].id;
    let mut last = vec![];
    for (k, &n) in n.iter().enumerate() {
        for _ in 0..n {
            let (section, scope) = match k {
                0 => (SymbolSection::Section(sec), SymbolScope::Compilation),
                1 => (SymbolSection::Section(sec), SymbolScope::Dynamic),
                _ => (SymbolSection::Undefined, SymbolScope::Dynamic),
            };
            let y = w.add_symbol(Symbol { name: vec![b'a' + k as u8], value: if k == 2 { 0 } else { 7 }, size: 0, kind: YK::Data, scope, weak: false, section, flags: SymbolFlags::None })?;
            last.push(y);
        }
    }
    let rels = if last.is_empty() { 0 } else { g.pickc(&[0usize, 3, 0xffff, 0x10000, 0x10001]) };
    for i in 0..rels {
        let y = if i < 40 { last[g.below(last.len())] } else { last[last.len() - 1] };
        let off = i as u64 % 8 * 8;
        let flags = RelocationFlags::MachO { r_type: m::RelocationType(0), r_pcrel: false, r_length: 2 };
        must!(w.obj.add_relocation(sec, Relocation { offset: off, symbol: w.syms[y].id, addend: 0, flags }), "add_relocation");
        w.secs[s].rels.push(WRel { off, sym: y, sub: None, addend: 0, flags, want: None, total: 0 });
    }
    g.label_if(rels > 0xffff, "relocations");
    finish(g, &f, &w)
}

#[allow(dead_code)]
fn main() {
    run(
        "C23",
        "the object has sections, symbols and relocations (or is one that must be rejected)",
        &["values passed in fit the fields of the chosen class; alignments are powers of two; explicit symbol flags agree with the symbol's scope and section"],
        &[sub("objects", 1_200_000, 20_000_000, objects), sub("reject", 200_000, 4_000_000, reject), sub("many", 40, 1000, many)],
    );
}
