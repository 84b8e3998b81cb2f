//! Expected answers for COFF symbols and sections.
use crate::coff::*;
use crate::engine::*;
use crate::ensure_eq;
use object::pe;
use object::read::*;

pub fn arch(m: u16) -> Architecture {
    match m {
        0x8664 => Architecture::X86_64,
        0x14c => Architecture::I386,
        0x1c4 => Architecture::Arm,
        0xaa64 | 0xa641 => Architecture::Aarch64,
        0x1f0 | 0x1f1 | 0x1f2 => Architecture::PowerPc,
        _ => Architecture::Unknown,
    }
}

pub fn sec_kind(c: u32) -> SectionKind {
    if c & (SCN_CODE | SCN_EXECUTE) != 0 {
        SectionKind::Text
    } else if c & SCN_INIT != 0 {
        if c & SCN_DISCARDABLE != 0 {
            SectionKind::Other
        } else if c & SCN_WRITE != 0 {
            SectionKind::Data
        } else {
            SectionKind::ReadOnlyData
        }
    } else if c & SCN_UNINIT != 0 {
        SectionKind::UninitializedData
    } else if c & SCN_INFO != 0 {
        SectionKind::Linker
    } else {
        SectionKind::Unknown
    }
}

/// The name a symbol is reported with.
pub fn sym_name(y: &CSym) -> Vec<u8> {
    if y.class == C_FILE && !y.aux.is_empty() {
        let v = y.aux.concat();
        let n = v.iter().position(|&b| b == 0).unwrap_or(v.len());
        v[..n].to_vec()
    } else {
        y.name.clone()
    }
}

pub fn check_symbol<'a>(vaddrs: &[u32], big: bool, base: u64, y: &CSym, s: &impl ObjectSymbol<'a>) -> R {
    let i = y.index;
    ensure_eq!(s.index().0, i, "symbol index");
    let name = sym_name(y);
    ensure_eq!(s.name_bytes(), Ok(&name[..]), "symbol {i} name_bytes");
    ensure_eq!(s.name().ok(), std::str::from_utf8(&name).ok(), "symbol {i} name");
    let global = y.class == C_EXTERNAL || y.class == C_WEAK;
    let addressed = matches!(y.class, C_EXTERNAL | C_WEAK | C_STATIC | C_LABEL);
    let sec = if y.sec > 0 { vaddrs.get(y.sec as usize - 1) } else { None };
    let addr = match sec {
        Some(&x) if addressed => base.wrapping_add(x as u64 + y.value as u64),
        _ => 0,
    };
    ensure_eq!(s.address(), addr, "symbol {i} address");
    let size = if y.class == C_STATIC && y.has_aux_section() {
        y.d().u32().unwrap() as u64
    } else if y.class == C_EXTERNAL && y.sec == 0 {
        y.value as u64
    } else if y.class == C_EXTERNAL && y.has_aux_function() {
        y.d().at(4).u32().unwrap() as u64
    } else {
        0
    };
    ensure_eq!(s.size(), size, "symbol {i} size");
    let derived = if y.ty >> 4 & 3 == 2 { SymbolKind::Text } else { SymbolKind::Data };
    let kind = match y.class {
        C_STATIC if y.has_aux_section() => SymbolKind::Section,
        C_STATIC | C_EXTERNAL | C_WEAK => derived,
        C_SECTION => SymbolKind::Section,
        C_FILE => SymbolKind::File,
        C_LABEL => SymbolKind::Label,
        _ => SymbolKind::Unknown,
    };
    ensure_eq!(s.kind(), kind, "symbol {i} kind");
    let section = match y.sec {
        0 if y.class == C_EXTERNAL => if y.value == 0 { SymbolSection::Undefined } else { SymbolSection::Common },
        0 if y.class == C_SECTION => SymbolSection::Undefined,
        -1 => SymbolSection::Absolute,
        -2 if y.class == C_FILE => SymbolSection::None,
        n if n > 0 => SymbolSection::Section(SectionIndex(n as usize)),
        _ => SymbolSection::Unknown,
    };
    ensure_eq!(s.section(), section, "symbol {i} section");
    ensure_eq!(s.section_index(), if y.sec > 0 { Some(SectionIndex(y.sec as usize)) } else { None }, "symbol {i} section_index");
    ensure_eq!(s.is_undefined(), y.class == C_EXTERNAL && y.sec == 0 && y.value == 0, "symbol {i} is_undefined");
    ensure_eq!(s.is_common(), y.class == C_EXTERNAL && y.sec == 0 && y.value != 0, "symbol {i} is_common");
    ensure_eq!(s.is_definition(), y.sec > 0 && (global || y.class == C_STATIC && !y.has_aux_section()), "symbol {i} is_definition");
    ensure_eq!(s.is_weak(), y.class == C_WEAK, "symbol {i} is_weak");
    ensure_eq!((s.is_global(), s.is_local()), (global, !global), "symbol {i} is_global");
    ensure_eq!(s.scope(), if global { SymbolScope::Linkage } else { SymbolScope::Compilation }, "symbol {i} scope");
    let flags = if y.has_aux_section() {
        let mut d = y.d().at(12);
        let lo = d.u16().unwrap() as u32;
        let sel = d.u8().unwrap();
        let hi = if big { d.at(16).u16().unwrap() as u32 } else { 0 };
        let n = (hi << 16 | lo) as usize;
        SymbolFlags::CoffSection {
            typ: pe::SymbolType(y.ty),
            storage_class: pe::SymbolClass(y.class),
            selection: pe::ComdatSelection(sel),
            associative_section: if n == 0 { None } else { Some(SectionIndex(n)) },
        }
    } else {
        SymbolFlags::Coff { typ: pe::SymbolType(y.ty), storage_class: pe::SymbolClass(y.class) }
    };
    ensure_eq!(s.flags(), flags, "symbol {i} flags");
    Ok(())
}

