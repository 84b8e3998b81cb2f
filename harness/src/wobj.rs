//! Lock-step driver for the unified write API: every operation is applied to `object::write::Object`
//! and to a plain model, and the values the API returns are compared with the model's.
use crate::engine::*;
use crate::{ensure, ensure_eq, must};
use object::write::*;
use object::{Architecture, BinaryFormat, Endianness, SectionKind, SymbolKind, SymbolScope};
use std::collections::HashMap;

pub type Flags = object::SymbolFlags<SectionId, SymbolId>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    None,
    Undef,
    Abs,
    Common,
    Sec(usize),
}
#[derive(Clone, Debug)]
pub struct WRel {
    pub off: u64,
    pub sym: usize,
    pub sub: Option<usize>,
    /// The addend left for the relocation entry.
    pub addend: i64,
    pub flags: object::RelocationFlags,
    /// The generic meaning requested, if any, and the whole addend.
    pub want: Option<(object::RelocationKind, object::RelocationEncoding, u8)>,
    pub total: i64,
}
#[derive(Clone, Debug)]
pub struct WSec {
    pub id: SectionId,
    pub segment: Vec<u8>,
    pub name: Vec<u8>,
    pub kind: SectionKind,
    pub flags: object::SectionFlags,
    pub size: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub rels: Vec<WRel>,
    pub sym: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct WSym {
    pub id: SymbolId,
    pub name: Vec<u8>,
    pub value: u64,
    pub size: u64,
    pub kind: SymbolKind,
    pub scope: SymbolScope,
    pub weak: bool,
    pub place: Place,
    pub flags: Flags,
}
#[derive(Clone, Debug)]
pub struct WComdat {
    pub kind: object::ComdatKind,
    pub sym: usize,
    pub secs: Vec<usize>,
}

#[derive(Default)]
pub struct Hist {
    pub ops: usize,
    pub log: Vec<&'static str>,
}

pub struct W {
    pub obj: Object<'static>,
    pub fmt: BinaryFormat,
    pub arch: Architecture,
    pub be: bool,
    pub is64: bool,
    pub mangling: Mangling,
    pub secs: Vec<WSec>,
    pub syms: Vec<WSym>,
    pub comdats: Vec<WComdat>,
    pub std: HashMap<StandardSection, usize>,
    pub by_name: HashMap<Vec<u8>, usize>,
    pub subsections: bool,
    /// Mach-O only.
    pub tlv_bootstrap: Option<usize>,
    /// COFF only: symbol -> stub symbol.
    pub stubs: HashMap<usize, usize>,
    pub hist: Hist,
}

/// What the format is documented to do.
pub trait Fmt {
    fn std(&self, w: &W, s: StandardSection) -> (Vec<u8>, Vec<u8>, SectionKind, object::SectionFlags);
    fn subname(&self, base: &[u8], v: &[u8]) -> Vec<u8>;
    /// `SectionFlags::None` when the kind is not supported.
    fn sec_flags(&self, w: &W, s: &WSec) -> object::SectionFlags;
    fn sym_flags(&self, w: &W, s: &WSym) -> Flags;
    fn gen_seg(&self, g: &mut Gen) -> Vec<u8>;
    fn gen_sec_name(&self, g: &mut Gen) -> Vec<u8>;
    fn gen_kind(&self, g: &mut Gen) -> SectionKind;
    fn gen_align(&self, g: &mut Gen) -> u64;
    fn gen_sec_flags(&self, g: &mut Gen, w: &W, s: usize) -> Option<object::SectionFlags>;
    fn gen_sym(&self, g: &mut Gen, w: &W) -> Symbol;
    fn gen_sym_flags(&self, g: &mut Gen, w: &W, s: usize) -> Option<Flags>;
    fn reloc(&self, g: &mut Gen, w: &mut W) -> R;
    fn comdat(&self, g: &mut Gen, w: &mut W) -> R;
    fn special(&self, g: &mut Gen, w: &mut W) -> R;
    /// Lets Mach-O model its thread variable handling; returns the symbol that receives the data.
    fn data_symbol(&self, _w: &mut W, s: usize) -> R<usize> {
        Ok(s)
    }
    fn standard(&self) -> &'static [StandardSection];
}

const ALL_STD: &[StandardSection] = &[
    StandardSection::Text,
    StandardSection::Data,
    StandardSection::ReadOnlyData,
    StandardSection::ReadOnlyDataWithRel,
    StandardSection::ReadOnlyString,
    StandardSection::UninitializedData,
    StandardSection::Tls,
    StandardSection::UninitializedTls,
    StandardSection::TlsVariables,
    StandardSection::GnuProperty,
    StandardSection::EhFrame,
];

pub fn is_bss(k: SectionKind) -> bool {
    matches!(k, SectionKind::UninitializedData | SectionKind::UninitializedTls)
}
fn up(x: u64, a: u64) -> u64 {
    if a <= 1 { x } else { x.div_ceil(a) * a }
}
pub fn place(s: SymbolSection, w: &W) -> Place {
    match s {
        SymbolSection::Undefined => Place::Undef,
        SymbolSection::Absolute => Place::Abs,
        SymbolSection::Common => Place::Common,
        SymbolSection::Section(id) => Place::Sec(w.secs.iter().position(|s| s.id == id).unwrap()),
        _ => Place::None,
    }
}

impl W {
    pub fn new(fmt: BinaryFormat, arch: Architecture, be: bool, is64: bool) -> W {
        let obj = Object::new(fmt, arch, if be { Endianness::Big } else { Endianness::Little });
        let mangling = match fmt {
            BinaryFormat::Coff if arch == Architecture::I386 => Mangling::CoffI386,
            BinaryFormat::Coff => Mangling::Coff,
            BinaryFormat::Elf => Mangling::Elf,
            BinaryFormat::MachO => Mangling::MachO,
            _ => Mangling::Xcoff,
        };
        assert_eq!(obj.mangling(), mangling, "default mangling");
        W {
            mangling,
            obj,
            fmt,
            arch,
            be,
            is64,
            secs: vec![],
            syms: vec![],
            comdats: vec![],
            std: HashMap::new(),
            by_name: HashMap::new(),
            subsections: false,
            tlv_bootstrap: None,
            stubs: HashMap::new(),
            hist: Hist::default(),
        }
    }
    fn log(&mut self, s: &'static str) {
        self.hist.ops += 1;
        if self.hist.log.len() < 60 {
            self.hist.log.push(s);
        }
    }
    pub fn model_section(&mut self, f: &dyn Fmt, id: SectionId, segment: Vec<u8>, name: Vec<u8>, kind: SectionKind) -> R<usize> {
        ensure!(self.secs.iter().all(|s| s.id != id), "section id {id:?} returned twice");
        let n = self.secs.len();
        self.secs.push(WSec {
            id,
            segment,
            name,
            kind,
            flags: object::SectionFlags::None,
            size: 0,
            align: 1,
            data: vec![],
            rels: vec![],
            sym: None,
        });
        for &st in ALL_STD {
            if self.std.contains_key(&st) {
                continue;
            }
            let (a, b, c, _) = f.std(self, st);
            let s = &self.secs[n];
            if a == s.segment && b == s.name && c == s.kind {
                self.std.insert(st, n);
            }
        }
        Ok(n)
    }
    pub fn add_section(&mut self, f: &dyn Fmt, segment: Vec<u8>, name: Vec<u8>, kind: SectionKind) -> R<usize> {
        self.log("add_section");
        let id = self.obj.add_section(segment.clone(), name.clone(), kind);
        self.model_section(f, id, segment, name, kind)
    }
    pub fn std_section(&mut self, f: &dyn Fmt, st: StandardSection) -> R<usize> {
        self.log("section_id");
        let id = self.obj.section_id(st);
        if let Some(&i) = self.std.get(&st) {
            ensure_eq!(id, self.secs[i].id, "section_id({st:?})");
            return Ok(i);
        }
        let (seg, name, kind, flags) = f.std(self, st);
        let i = self.model_section(f, id, seg, name, kind)?;
        self.secs[i].flags = flags;
        Ok(i)
    }
    pub fn subsection(&mut self, f: &dyn Fmt, st: StandardSection, value: &[u8]) -> R<usize> {
        if self.fmt == BinaryFormat::MachO {
            let id = self.obj.add_subsection(st, value);
            let i = self.std_section(f, st)?;
            ensure_eq!(id, self.secs[i].id, "add_subsection({st:?})");
            return Ok(i);
        }
        self.log("add_subsection");
        let (seg, base, kind, flags) = f.std(self, st);
        let name = f.subname(&base, value);
        let id = self.obj.add_subsection(st, value);
        let i = self.model_section(f, id, seg, name, kind)?;
        self.secs[i].flags = flags;
        Ok(i)
    }
    pub fn append(&mut self, s: usize, data: &[u8], align: u64) -> R<u64> {
        self.log("append_data");
        let off = self.obj.append_section_data(self.secs[s].id, data, align);
        let m = &mut self.secs[s];
        m.align = m.align.max(align);
        let at = up(m.data.len() as u64, align);
        ensure_eq!(off, at, "append_section_data offset (align {align})");
        m.data.resize(at as usize, 0);
        m.data.extend_from_slice(data);
        m.size = m.data.len() as u64;
        Ok(off)
    }
    pub fn append_bss(&mut self, s: usize, size: u64, align: u64) -> R<u64> {
        self.log("append_bss");
        let off = self.obj.append_section_bss(self.secs[s].id, size, align);
        let m = &mut self.secs[s];
        m.align = m.align.max(align);
        let at = up(m.size, align);
        ensure_eq!(off, at, "append_section_bss offset (align {align})");
        m.size = at + size;
        Ok(off)
    }
    pub fn set_data(&mut self, s: usize, data: Vec<u8>, align: u64) {
        self.log("set_data");
        self.obj.set_section_data(self.secs[s].id, data.clone(), align);
        let m = &mut self.secs[s];
        m.size = data.len() as u64;
        m.data = data;
        m.align = align;
    }
    pub fn model_symbol(&mut self, id: SymbolId, y: WSym) -> R<usize> {
        ensure!(self.syms.iter().rev().take(200).all(|s| s.id != id), "symbol id {id:?} returned twice");
        self.syms.push(y);
        Ok(self.syms.len() - 1)
    }
    pub fn section_symbol_name(&self, s: usize) -> Vec<u8> {
        match self.fmt {
            BinaryFormat::Coff => self.secs[s].name.clone(),
            BinaryFormat::MachO => format!("ltmp{s}").into_bytes(),
            _ => vec![],
        }
    }
    pub fn section_symbol(&mut self, s: usize) -> R<usize> {
        self.log("section_symbol");
        let id = self.obj.section_symbol(self.secs[s].id);
        self.note_section_symbol(s, id)
    }
    pub fn note_section_symbol(&mut self, s: usize, id: SymbolId) -> R<usize> {
        if let Some(y) = self.secs[s].sym {
            ensure_eq!(id, self.syms[y].id, "section symbol of section {s}");
            return Ok(y);
        }
        let name = self.section_symbol_name(s);
        let y = WSym {
            id,
            name,
            value: 0,
            size: 0,
            kind: SymbolKind::Section,
            scope: SymbolScope::Compilation,
            weak: false,
            place: Place::Sec(s),
            flags: object::SymbolFlags::None,
        };
        let y = self.model_symbol(id, y)?;
        self.secs[s].sym = Some(y);
        Ok(y)
    }
    pub fn prefix(&self) -> Option<u8> {
        matches!(self.mangling, Mangling::MachO | Mangling::CoffI386).then_some(b'_')
    }
    fn wsym(&self, id: SymbolId, s: &Symbol) -> WSym {
        WSym {
            id,
            name: s.name.clone(),
            value: s.value,
            size: s.size,
            kind: s.kind,
            scope: s.scope,
            weak: s.weak,
            place: place(s.section, self),
            flags: s.flags,
        }
    }
    pub fn copy(s: &Symbol) -> Symbol {
        Symbol { name: s.name.clone(), flags: s.flags, ..*s }
    }
    /// Model of `Object::add_symbol`.
    pub fn note_symbol(&mut self, id: SymbolId, s: &Symbol) -> R<usize> {
        if s.kind == SymbolKind::Section {
            let Place::Sec(sec) = place(s.section, self) else { unreachable!() };
            let y = self.note_section_symbol(sec, id)?;
            if s.flags != object::SymbolFlags::None {
                self.syms[y].flags = s.flags;
            }
            return Ok(y);
        }
        let mut y = self.wsym(id, s);
        let named = !s.name.is_empty() && matches!(s.kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls);
        if named {
            if let Some(p) = self.prefix() {
                y.name.insert(0, p);
            }
        }
        let i = self.model_symbol(id, y)?;
        if named {
            self.by_name.insert(s.name.clone(), i);
        }
        Ok(i)
    }
    pub fn add_symbol(&mut self, s: Symbol) -> R<usize> {
        self.log("add_symbol");
        let id = self.obj.add_symbol(Self::copy(&s));
        self.note_symbol(id, &s)
    }
    pub fn add_common(&mut self, mut s: Symbol, size: u64, align: u64) -> R<usize> {
        self.log("add_common");
        let id = self.obj.add_common_symbol(Self::copy(&s), size, align);
        s.section = SymbolSection::Common;
        s.size = size;
        s.value = align;
        self.note_symbol(id, &s)
    }
    pub fn add_file(&mut self, name: Vec<u8>) -> R<usize> {
        self.log("add_file");
        let id = self.obj.add_file_symbol(name.clone());
        let y = WSym {
            id,
            name,
            value: 0,
            size: 0,
            kind: SymbolKind::File,
            scope: SymbolScope::Compilation,
            weak: false,
            place: Place::None,
            flags: object::SymbolFlags::None,
        };
        self.model_symbol(id, y)
    }
    pub fn note_symbol_data(&mut self, f: &dyn Fmt, y: usize, s: usize, off: u64, size: u64) -> R {
        let y = f.data_symbol(self, y)?;
        let y = &mut self.syms[y];
        y.value = off;
        y.size = size;
        y.place = Place::Sec(s);
        Ok(())
    }
    /// Compare the model with what the object reports about itself.
    pub fn check_self(&self) -> R {
        for (i, s) in self.secs.iter().enumerate() {
            let o = self.obj.section(s.id);
            ensure_eq!(o.name().map(|n| n.as_bytes().to_vec()), std::str::from_utf8(&s.name).ok().map(|_| s.name.clone()), "section {i} name()");
            ensure_eq!(o.segment().map(|n| n.as_bytes().to_vec()), std::str::from_utf8(&s.segment).ok().map(|_| s.segment.clone()), "section {i} segment()");
            ensure_eq!(o.is_bss(), is_bss(s.kind), "section {i} is_bss");
            if !is_bss(s.kind) {
                ensure_eq!(o.data(), &s.data[..], "section {i} data()");
            }
        }
        for (i, y) in self.syms.iter().enumerate() {
            let o = self.obj.symbol(y.id);
            ensure_eq!(o.name, y.name, "symbol {i} name");
            ensure_eq!((o.value, o.size, o.kind, o.scope, o.weak), (y.value, y.size, y.kind, y.scope, y.weak), "symbol {i} fields");
            ensure_eq!(place(o.section, self), y.place, "symbol {i} section");
            ensure_eq!(o.flags, y.flags, "symbol {i} flags");
            ensure_eq!(o.is_undefined(), y.place == Place::Undef, "symbol {i} is_undefined");
            ensure_eq!(o.is_common(), y.place == Place::Common, "symbol {i} is_common");
        }
        Ok(())
    }
    /// Add a relocation that must be accepted with the given result, or rejected.
    pub fn add_reloc(
        &mut self,
        s: usize,
        off: u64,
        sym: usize,
        sub: Option<usize>,
        addend: i64,
        flags: object::RelocationFlags,
    ) -> Result<()> {
        self.log("add_relocation");
        let r = Relocation { offset: off, symbol: self.syms[sym].id, addend, flags };
        match sub {
            None => self.obj.add_relocation(self.secs[s].id, r),
            Some(x) => {
                let x = self.syms[x].id;
                self.obj.add_relocation_with_subtractor(self.secs[s].id, r, Some(x))
            }
        }
    }
    /// Store an implicit addend in the model's section data; false if it does not fit.
    pub fn store(&mut self, s: usize, off: u64, bytes: usize, addend: i64) -> bool {
        let d = &mut self.secs[s].data;
        let end = off.checked_add(bytes as u64).filter(|&e| e <= d.len() as u64);
        let Some(end) = end else { return false };
        let v = addend as u64;
        let mut b = v.to_le_bytes()[..bytes].to_vec();
        if self.be {
            b.reverse();
        }
        d[off as usize..end as usize].copy_from_slice(&b);
        true
    }
    pub fn pick_sec(&self, g: &mut Gen, p: impl Fn(&WSec) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.secs.len()).filter(|&i| p(&self.secs[i])).collect();
        if v.is_empty() { None } else { Some(g.pickc(&v)) }
    }
    pub fn pick_sym(&self, g: &mut Gen, p: impl Fn(&WSym) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.syms.len()).filter(|&i| p(&self.syms[i])).collect();
        if v.is_empty() { None } else { Some(g.pickc(&v)) }
    }
    pub fn section_of(&self, y: usize) -> Option<usize> {
        if let Place::Sec(s) = self.syms[y].place { Some(s) } else { None }
    }
}

thread_local! {
    static IDS: std::cell::RefCell<(Vec<SectionId>, Vec<SymbolId>)> = const { std::cell::RefCell::new((vec![], vec![])) };
}
fn with_ids<T>(n: usize, f: impl Fn(&(Vec<SectionId>, Vec<SymbolId>)) -> T) -> T {
    IDS.with(|v| {
        let mut v = v.borrow_mut();
        if v.0.len() <= n {
            let mut o = Object::new(BinaryFormat::Elf, Architecture::X86_64, Endianness::Little);
            *v = (vec![], vec![]);
            for _ in 0..(n + 1) * 2 {
                v.0.push(o.add_section(vec![], vec![], SectionKind::Data));
                v.1.push(o.add_file_symbol(vec![]));
            }
        }
        f(&v)
    })
}
/// The identifier of the section or symbol added `n`th: the API does not return those it adds itself.
pub fn nth_section_id(n: usize) -> SectionId {
    with_ids(n, |v| v.0[n])
}
pub fn nth_symbol_id(n: usize) -> SymbolId {
    with_ids(n, |v| v.1[n])
}

/// Symbol names that collide, share suffixes or straddle the short-name limits.
pub fn sym_name(g: &mut Gen) -> Vec<u8> {
    match g.upto(6) {
        0 => vec![],
        1 => g.pickc(&["main", "foo", "a", "b", "printf", "barfoo", "foo2"]).as_bytes().to_vec(),
        2 => {
            let n = g.range(6, 10);
            g.bytes(n).iter().map(|b| b'a' + b % 26).collect()
        }
        3 => {
            let mut v = g.name(24);
            v.extend(b"_suffix");
            v
        }
        _ => g.name(12),
    }
    .into_iter()
    .map(|c| if c == 0 { b'z' } else { c })
    .collect()
}

/// A random history of operations.
pub fn history(g: &mut Gen, f: &dyn Fmt, w: &mut W, max: usize) -> R {
    let n = if g.chance(1, 2) { g.len(max) } else { g.range(0, max) };
    for _ in 0..n {
        step(g, f, w)?;
    }
    Ok(())
}

pub fn step(g: &mut Gen, f: &dyn Fmt, w: &mut W) -> R {
    match g.upto(27) {
        0..=2 => {
            let (seg, name, kind) = (f.gen_seg(g), f.gen_sec_name(g), f.gen_kind(g));
            w.add_section(f, seg, name, kind)?;
        }
        3 | 4 => {
            let st = g.pickc(f.standard());
            w.std_section(f, st)?;
        }
        5 => {
            let st = g.pickc(f.standard());
            if w.fmt == BinaryFormat::Xcoff {
                // Not supported.
                w.std_section(f, st)?;
                return Ok(());
            }
            let v = if g.chance(1, 4) { vec![] } else { f.gen_sec_name(g) };
            w.subsection(f, st, &v)?;
        }
        6..=8 => {
            let align = f.gen_align(g);
            if let Some(s) = w.pick_sec(g, |s| !is_bss(s.kind)) {
                let mut d = g.blob(40);
                if g.chance(1, 600) {
                    d.resize(65_400 + g.upto(300) as usize, g.u8());
                    g.label("large data");
                }
                if w.secs[s].data.is_empty() && g.chance(1, 3) {
                    w.set_data(s, d, align);
                } else {
                    w.append(s, &d, align)?;
                }
            }
        }
        9 => {
            let align = f.gen_align(g);
            if let Some(s) = w.pick_sec(g, |s| is_bss(s.kind)) {
                let mut size = if g.bool() { g.upto(40) } else { g.bits(20) };
                // Addresses and sizes above 31 or 32 bits; once, so that 32-bit files stay valid.
                if w.secs.iter().all(|s| s.size < 1 << 30) && g.chance(1, 20) {
                    size += if w.is64 && w.fmt != BinaryFormat::Coff { g.pickc(&[1 << 31, 1 << 32, 1 << 40]) } else { 1 << 31 };
                    g.label("huge section");
                }
                w.append_bss(s, size, align)?;
            }
        }
        10..=14 => {
            let s = f.gen_sym(g, w);
            w.add_symbol(s)?;
        }
        15 => {
            let mut s = f.gen_sym(g, w);
            if matches!(s.kind, SymbolKind::Section) {
                s.kind = SymbolKind::Data;
            }
            if s.scope == SymbolScope::Unknown {
                s.scope = SymbolScope::Dynamic;
            }
            s.weak = false;
            let (size, align) = (g.bits(16), 1 << if g.chance(1, 4) { g.upto(20) } else { g.upto(6) });
            if s.kind == SymbolKind::Data || w.fmt != BinaryFormat::Elf {
                w.add_common(s, size, align)?;
            }
        }
        16 => {
            let n = sym_name(g);
            if w.fmt != BinaryFormat::Coff || !n.is_empty() {
                w.add_file(n)?;
            }
        }
        17 => {
            if let Some(s) = w.pick_sec(g, |_| true) {
                w.section_symbol(s)?;
            }
        }
        18 | 19 => {
            // Define a symbol at new data.
            let align = f.gen_align(g);
            let y = w.pick_sym(g, |y| {
                matches!(y.kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls | SymbolKind::Label)
                    && y.scope != SymbolScope::Unknown
            });
            let s = w.pick_sec(g, |_| true);
            if let (Some(y), Some(s)) = (y, s) {
                let (yid, sid) = (w.syms[y].id, w.secs[s].id);
                if is_bss(w.secs[s].kind) {
                    let mut size = g.upto(64);
                    if w.is64 && w.fmt != BinaryFormat::Coff && w.secs.iter().all(|s| s.size < 1 << 30) && g.chance(1, 20) {
                        size += g.pickc(&[1 << 31, 1 << 32, 1 << 40]);
                    }
                    let off = w.obj.add_symbol_bss(yid, sid, size, align);
                    w.log("add_symbol_bss");
                    if size == 0 && w.subsections {
                        size = 1;
                    }
                    let m = &mut w.secs[s];
                    m.align = m.align.max(align);
                    let at = up(m.size, align);
                    ensure_eq!(off, at, "add_symbol_bss offset");
                    m.size = at + size;
                    w.note_symbol_data(f, y, s, off, size)?;
                } else {
                    let mut d = g.blob(24);
                    let off = w.obj.add_symbol_data(yid, sid, &d, align);
                    w.log("add_symbol_data");
                    if d.is_empty() && w.subsections {
                        d = vec![0];
                    }
                    let m = &mut w.secs[s];
                    m.align = m.align.max(align);
                    let at = up(m.data.len() as u64, align);
                    ensure_eq!(off, at, "add_symbol_data offset");
                    m.data.resize(at as usize, 0);
                    m.data.extend_from_slice(&d);
                    m.size = m.data.len() as u64;
                    w.note_symbol_data(f, y, s, off, d.len() as u64)?;
                }
            }
        }
        20 => {
            let y = w.pick_sym(g, |y| {
                matches!(y.kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls) && y.scope != SymbolScope::Unknown
            });
            let s = w.pick_sec(g, |_| true);
            if let (Some(y), Some(s)) = (y, s) {
                let (off, size) = (g.upto(w.secs[s].size), g.upto(64));
                w.log("set_symbol_data");
                w.obj.set_symbol_data(w.syms[y].id, w.secs[s].id, off, size);
                w.note_symbol_data(f, y, s, off, size)?;
            }
        }
        21 => {
            if let Some(s) = w.pick_sec(g, |_| true) {
                if let Some(fl) = f.gen_sec_flags(g, w, s) {
                    w.log("section flags");
                    w.secs[s].flags = fl;
                    w.obj.section_mut(w.secs[s].id).flags = fl;
                } else {
                    w.log("section_flags_mut");
                    let dflt = f.sec_flags(w, &w.secs[s]);
                    let id = w.secs[s].id;
                    ensure_eq!(w.obj.default_section_flags(w.obj.section(id)), dflt, "default_section_flags of {:?}", w.secs[s]);
                    let want = if w.secs[s].flags == object::SectionFlags::None { dflt } else { w.secs[s].flags };
                    ensure_eq!(w.obj.section_flags(w.obj.section(id)), want, "section_flags of {:?}", w.secs[s]);
                    ensure_eq!(*w.obj.section_flags_mut(id), want, "section_flags_mut of {:?}", w.secs[s]);
                    ensure_eq!(w.obj.section(id).flags, want, "section flags after section_flags_mut");
                    w.secs[s].flags = want;
                }
            }
        }
        22 => {
            if let Some(y) = w.pick_sym(g, |_| true) {
                let id = w.syms[y].id;
                if let Some(fl) = f.gen_sym_flags(g, w, y) {
                    w.log("symbol flags");
                    w.syms[y].flags = fl;
                    w.obj.symbol_mut(id).flags = fl;
                } else {
                    w.log("symbol_flags");
                    let dflt = f.sym_flags(w, &w.syms[y]);
                    ensure_eq!(w.obj.default_symbol_flags(w.obj.symbol(id)), dflt, "default_symbol_flags of {:?}", w.syms[y]);
                    let want = if w.syms[y].flags == object::SymbolFlags::None { dflt } else { w.syms[y].flags };
                    ensure_eq!(w.obj.symbol_flags(w.obj.symbol(id)), want, "symbol_flags of {:?}", w.syms[y]);
                    if g.chance(1, 3) {
                        ensure_eq!(*w.obj.symbol_flags_mut(id), want, "symbol_flags_mut of {:?}", w.syms[y]);
                        w.syms[y].flags = want;
                    }
                }
            }
        }
        23 => {
            // Queries.
            if let Some(y) = w.pick_sym(g, |_| true) {
                let id = w.syms[y].id;
                let (kind, value, sec) = (w.syms[y].kind, w.syms[y].value, w.section_of(y));
                w.log("symbol_section_and_offset");
                let got = w.obj.symbol_section_and_offset(id);
                match (kind, sec) {
                    (SymbolKind::Section, _) => ensure_eq!(got, Some((id, 0)), "symbol_section_and_offset of section symbol"),
                    (_, None) => ensure_eq!(got, None, "symbol_section_and_offset of {:?}", w.syms[y]),
                    (_, Some(s)) => {
                        let Some((sy, off)) = got else { crate::fail!("symbol_section_and_offset is None") };
                        ensure_eq!(off, value, "symbol_section_and_offset offset");
                        w.note_section_symbol(s, sy)?;
                    }
                }
            }
            let names: Vec<Vec<u8>> = w.syms.iter().map(|y| y.name.clone()).collect();
            let mut n = if names.is_empty() { sym_name(g) } else { g.pick(&names).clone() };
            if let Some(p) = w.prefix() {
                if n.first() == Some(&p) && g.bool() {
                    n.remove(0);
                }
            }
            ensure_eq!(w.obj.symbol_id(&n), w.by_name.get(&n).map(|&i| w.syms[i].id), "symbol_id({n:?})");
        }
        24 => f.comdat(g, w)?,
        25 => f.special(g, w)?,
        _ => {
            let k = g.range(1, 3);
            for _ in 0..k {
                f.reloc(g, w)?;
            }
        }
    }
    Ok(())
}

/// Write the object twice; both results must agree.
pub fn write_out(w: &W, expect_err: Option<&str>) -> R<Option<Vec<u8>>> {
    w.check_self()?;
    let r = w.obj.write();
    match expect_err {
        Some(why) => {
            ensure!(r.is_err(), "write succeeded although {why}");
            Ok(None)
        }
        None => {
            let v = must!(r, "write");
            let v2 = must!(w.obj.write(), "second write");
            ensure!(v == v2, "second write differs");
            Ok(Some(v))
        }
    }
}
