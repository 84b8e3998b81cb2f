//! C16: Wasm modules are read exactly.
use object::read::wasm::WasmFile;
use object::read::{ObjectSection as _, ObjectSymbol as _, ObjectSymbolTable as _, RelocationTarget};
use object::{Architecture, BinaryFormat, RelocationEncoding, RelocationFlags, RelocationKind, SectionIndex, SectionKind as SK, SymbolIndex, SymbolKind as YK, SymbolScope, SymbolSection};
use vh::wasm::{self, Init, Wasm, EXPLICIT, UNDEFINED};
use vh::*;

#[derive(Clone, Debug, PartialEq)]
struct Sym {
    name: String,
    address: u64,
    size: u64,
    kind: YK,
    section: SymbolSection,
    scope: SymbolScope,
    weak: bool,
}
const CODE: SymbolSection = SymbolSection::Section(SectionIndex(10));
const DATA: SymbolSection = SymbolSection::Section(SectionIndex(11));

fn body(w: &Wasm, index: u32) -> (u64, u64) {
    (index as usize).checked_sub(w.nimports(0)).and_then(|i| w.bodies.get(i)).copied().unwrap_or((0, 0))
}

/// The symbols a module is documented to have.
fn symbols(w: &Wasm) -> Vec<Sym> {
    let file = |name: &str, scope| Sym { name: name.into(), address: 0, size: 0, kind: YK::File, section: SymbolSection::None, scope, weak: false };
    let mut v = vec![];
    let import = |kind: u8, i: u32| w.imports.iter().flatten().filter(|x| x.kind == kind).nth(i as usize).map(|x| x.name.clone());
    if let Some(l) = &w.linking {
        // The symbol table has everything.
        for s in l {
            let f = |b: u32| s.flags & b != 0;
            let (mut address, mut size) = (0, 0);
            if s.kind == 0 {
                (address, size) = body(w, s.index);
            }
            if s.kind == 1 {
                (address, size) = (s.offset as u64, s.size as u64);
            }
            let kind = if f(0x100) { YK::Tls } else { [YK::Text, YK::Data, YK::Data, YK::Section, YK::Unknown, YK::Data][s.kind as usize] };
            let section = if f(UNDEFINED) {
                SymbolSection::Undefined
            } else if f(0x200) {
                SymbolSection::Absolute
            } else if s.kind == 0 {
                CODE
            } else {
                SymbolSection::Unknown
            };
            let scope = if f(2) {
                SymbolScope::Compilation
            } else if f(4) {
                SymbolScope::Linkage
            } else {
                SymbolScope::Dynamic
            };
            // Undefined symbols without a name of their own have the name of the import.
            let name = match (&s.name, s.kind) {
                (Some(n), _) => n.clone(),
                (None, 3) => String::new(),
                (None, k) => {
                    assert!(f(UNDEFINED) && !f(EXPLICIT));
                    import([0, 9, 3, 9, 4, 1][k as usize], s.index).unwrap()
                }
            };
            v.push(Sym { name, address, size, kind, section, scope, weak: f(1) });
        }
        return v;
    }
    let mut module = None;
    for i in w.imports.iter().flatten() {
        if module != Some(&i.module) {
            v.push(file(&i.module, SymbolScope::Dynamic));
            module = Some(&i.module);
        }
        let kind = match i.kind {
            0 => YK::Text,
            4 => YK::Unknown,
            _ => YK::Data,
        };
        v.push(Sym { name: i.name.clone(), address: 0, size: 0, kind, section: SymbolSection::Undefined, scope: SymbolScope::Dynamic, weak: false });
    }
    if w.exports.is_some() || w.names.is_some() {
        v.push(file("", SymbolScope::Compilation));
    }
    for e in w.exports.iter().flatten() {
        let (mut address, mut size) = (0, 0);
        let (kind, section) = match e.kind {
            0 => {
                (address, size) = body(w, e.index);
                (YK::Text, CODE)
            }
            3 => {
                if let Some(x) = (e.index as usize).checked_sub(w.nimports(3)).and_then(|i| w.globals.get(i)) {
                    // An address in linear memory.
                    match (x.mutable, &x.init) {
                        (false, Init::I32(x)) => address = *x as u32 as u64,
                        (false, Init::I64(x)) => address = *x as u64,
                        _ => {}
                    }
                }
                (YK::Data, DATA)
            }
            4 => continue,
            _ => (YK::Data, DATA),
        };
        v.push(Sym { name: e.name.clone(), address, size, kind, section, scope: SymbolScope::Dynamic, weak: false });
    }
    for (i, n) in w.names.iter().flatten() {
        let exported = w.exports.iter().flatten().any(|e| e.kind == 0 && e.index == *i);
        let local = (*i as usize).checked_sub(w.nimports(0)).is_some_and(|i| i < w.nfuncs);
        if local && !exported {
            let (address, size) = body(w, *i);
            v.push(Sym { name: n.clone(), address, size, kind: YK::Text, section: CODE, scope: SymbolScope::Compilation, weak: false });
        }
    }
    v
}

fn sec_name(id: u8) -> &'static str {
    ["", "<type>", "<import>", "<function>", "<table>", "<memory>", "<global>", "<export>", "<start>", "<element>", "<code>", "<data>", "<data_count>", "<tag>"][id as usize]
}
fn sec_kind(id: u8, name: &str) -> SK {
    match id {
        0 if name == "linking" || name.starts_with("reloc.") => SK::Linker,
        0 => SK::Other,
        1 | 3 => SK::Metadata,
        2 | 7 | 8 => SK::Linker,
        4 | 5 | 12 => SK::UninitializedData,
        10 => SK::Text,
        _ => SK::Data,
    }
}
fn reloc_bits(ty: u8) -> u8 {
    match ty {
        0 | 1 | 3 | 4 | 6 | 7 | 10 | 11 | 12 | 20 | 21 => 40,
        14 | 15 | 17 | 18 | 24 | 25 => 80,
        16 | 19 | 22 => 64,
        _ => 32,
    }
}

pub fn modules(g: &mut Gen) -> R {
    let (w, v) = wasm::generate(g);
    g.file(&v)?;
    g.sample(|| format!("{:?}", w.secs.iter().map(|s| if s.id == 0 { s.name.clone() } else { sec_name(s.id).into() }).collect::<Vec<_>>()));
    let f = must!(WasmFile::<'_, &[u8]>::parse(&v[..]), "WasmFile::parse of {w:?}");
    check(g, &w, &f, &v)?;
    if v.len() < 16 {
        // Too short for file kind detection.
        return Ok(());
    }
    let o = must!(object::File::parse(&v[..]), "File::parse");
    ensure_eq!(o.format(), BinaryFormat::Wasm, "format");
    check(g, &w, &o, &v)?;
    ensure!(matches!(o, object::File::Wasm(_)), "File variant");
    g.nontrivial_if(w.secs.len() > 3 && !symbols(&w).is_empty());
    g.label_if(w.linking.is_some(), "linking section");
    g.label_if(w.relocs.iter().any(|r| !r.1.is_empty()), "relocations");
    g.label_if(w.mem64, "64-bit memory");
    g.label_if(w.start.is_some(), "start function");
    g.label_if(w.names.is_some() && w.linking.is_none(), "name section");
    Ok(())
}

fn check<'d, O: object::read::Object<'d>>(g: &mut Gen, w: &Wasm, f: &O, v: &'d [u8]) -> R {
    ensure_eq!(f.architecture(), if w.mem64 { Architecture::Wasm64 } else { Architecture::Wasm32 }, "architecture");
    ensure_eq!(f.is_64(), w.mem64, "is_64");
    ensure!(f.is_little_endian(), "endianness");
    ensure_eq!(f.has_debug_symbols(), w.secs.iter().any(|s| s.id == 0 && s.name.starts_with(".debug_")), "has_debug_symbols");
    ensure_eq!(f.entry(), w.start.map_or(0, |s| body(w, s).0), "entry (start function {:?} of {} imported)", w.start, w.nimports(0));
    // Sections.
    let secs: Vec<_> = f.sections().collect();
    ensure_eq!(secs.len(), w.secs.len(), "section count");
    for (n, (s, m)) in secs.iter().zip(&w.secs).enumerate() {
        ensure_eq!(s.index().0, m.id as usize, "section {n} index");
        let name = if m.id == 0 { &m.name[..] } else { sec_name(m.id) };
        ensure_eq!(s.name().ok(), Some(name), "section {n} name");
        ensure_eq!(s.name_bytes().ok(), Some(name.as_bytes()), "section {n} name_bytes");
        ensure_eq!(s.file_range(), Some((m.start as u64, (m.end - m.start) as u64)), "section {n} file range");
        ensure_eq!((s.size(), s.address(), s.align()), ((m.end - m.start) as u64, 0, 1), "section {n} size, address, alignment");
        ensure_eq!(s.data().ok(), Some(&m.data[..]), "section {n} data");
        ensure_eq!(s.kind(), sec_kind(m.id, &m.name), "section {n} kind");
        let (a, z) = (g.upto(m.data.len() as u64 + 2), g.upto(m.data.len() as u64 + 2));
        let want = (a + z <= m.data.len() as u64).then(|| &v[m.start + a as usize..][..z as usize]);
        ensure_eq!(must!(s.data_range(a, z), "data_range"), want, "section {n} data_range({a}, {z})");
        let want: Vec<_> = w.relocs.iter().filter(|r| r.0 as usize == n).flat_map(|r| &r.1).collect();
        let got: Vec<_> = s.relocations().collect();
        ensure_eq!(got.len(), want.len(), "section {n} relocation count");
        for ((off, r), m) in got.iter().zip(want) {
            ensure_eq!(*off, m.offset as u64, "relocation offset");
            ensure_eq!(r.flags(), RelocationFlags::Wasm { r_type: m.ty }, "relocation type");
            ensure_eq!((r.kind(), r.encoding(), r.size()), (RelocationKind::Unknown, RelocationEncoding::Generic, reloc_bits(m.ty)), "relocation kind, encoding, size (type {})", m.ty);
            ensure!(!r.has_implicit_addend(), "relocation addend is explicit");
            let (t, a) = if m.ty == 6 { (RelocationTarget::Section(SectionIndex(1)), m.index as i64) } else { (RelocationTarget::Symbol(SymbolIndex(m.index as usize)), m.addend) };
            ensure_eq!((r.target(), r.addend()), (t, a), "relocation target and addend (type {})", m.ty);
        }
        if m.id != 0 {
            let x = must!(f.section_by_index(SectionIndex(m.id as usize)), "section_by_index");
            ensure_eq!(x.file_range(), s.file_range(), "section_by_index({})", m.id);
        }
        let first = w.secs.iter().find(|y| (if y.id == 0 { &y.name[..] } else { sec_name(y.id) }) == name).unwrap();
        let x = must_some!(f.section_by_name(name), "section_by_name({name})");
        ensure_eq!(x.file_range().map(|r| r.0), Some(first.start as u64), "section_by_name({name})");
    }
    for id in 1..20 {
        ensure_eq!(f.section_by_index(SectionIndex(id)).is_ok(), w.secs.iter().any(|s| s.id as usize == id), "section_by_index({id}) exists");
    }
    // Symbols.
    let want = symbols(w);
    let table = must_some!(f.symbol_table(), "symbol table");
    let got: Vec<_> = f.symbols().collect();
    ensure_eq!(got.len(), want.len(), "symbol count");
    ensure_eq!(table.symbols().count(), want.len(), "symbol table count");
    for (i, (y, m)) in got.iter().zip(&want).enumerate() {
        let x = Sym { name: must!(y.name(), "symbol name").into(), address: y.address(), size: y.size(), kind: y.kind(), section: y.section(), scope: y.scope(), weak: y.is_weak() };
        ensure_eq!(x, *m, "symbol {i}");
        ensure_eq!(y.index().0, i, "symbol index");
        ensure_eq!(y.is_undefined(), m.section == SymbolSection::Undefined, "symbol {i} is_undefined");
        ensure_eq!(y.is_local(), m.scope == SymbolScope::Compilation, "symbol {i} is_local");
        ensure_eq!(y.is_global(), m.scope != SymbolScope::Compilation, "symbol {i} is_global");
        ensure!(!y.is_common(), "symbol {i} is_common");
        ensure_eq!(y.is_definition(), matches!(m.kind, YK::Text | YK::Data) && m.section != SymbolSection::Undefined, "symbol {i} is_definition");
        let z = must!(table.symbol_by_index(SymbolIndex(i)), "symbol_by_index");
        ensure_eq!((z.name().ok(), z.address()), (y.name().ok(), y.address()), "symbol_by_index({i})");
    }
    ensure!(f.symbol_by_index(SymbolIndex(want.len())).is_err(), "symbol_by_index beyond the end");
    ensure_eq!(f.dynamic_symbols().count(), 0, "dynamic symbols");
    Ok(())
}

/// Files that are not modules, or are cut short.
fn invalid(g: &mut Gen) -> R {
    let (w, mut v) = wasm::generate(g);
    match g.upto(3) {
        0 => {
            // A component, or another version.
            let (a, b) = (g.u16(), g.u16());
            v[4..6].copy_from_slice(&a.to_le_bytes());
            v[6..8].copy_from_slice(&b.to_le_bytes());
            if (a, b) == (1, 0) {
                return Ok(());
            }
        }
        1 => {
            v[4..8].copy_from_slice(&[0x0d, 0, 1, 0]);
        }
        _ => {
            let n = g.range(8, v.len() - 1);
            // Not between sections.
            if n == 8 || w.secs.iter().any(|s| s.end == n) {
                return Ok(());
            }
            v.truncate(n);
        }
    }
    g.nontrivial();
    ensure!(WasmFile::<'_, &[u8]>::parse(&v[..]).is_err(), "parse of an invalid module succeeded");
    ensure!(object::File::parse(&v[..]).is_err(), "File::parse of an invalid module succeeded");
    Ok(())
}

fn main() {
    run(
        "C16",
        "the module has more than three sections, and symbols (or it is invalid)",
        &["modules are valid up to function bodies; compact imports are not generated; modules of less than 16 bytes are read with WasmFile only; the name of a section symbol and the section of data symbols are not reported by the crate"],
        &[sub("modules", 400000, 6000000, modules), sub("invalid", 60000, 1000000, invalid)],
    );
}
