//! Everything the unified read API says about a file, as text.
use object::read::{Object, ObjectComdat, ObjectSection, ObjectSegment, ObjectSymbol, ObjectSymbolTable};
use std::fmt::Debug;

/// Items of one iteration that are listed.
pub const MAX: usize = 3000;

pub fn hash(v: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ v.len() as u64;
    for c in v.chunks(8) {
        let mut x = [0; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9e3779b97f4a7c15);
        h ^= h >> 29;
    }
    h
}
fn short(v: &[u8]) -> String {
    if v.len() <= 24 { format!("{v:x?}") } else { format!("{} bytes {:x}", v.len(), hash(v)) }
}
fn res<T: AsRef<[u8]>, E>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => short(v.as_ref()),
        Err(_) => "error".into(),
    }
}
fn opt<T: AsRef<[u8]>, E>(r: Result<Option<T>, E>) -> String {
    match r {
        Ok(Some(v)) => short(v.as_ref()),
        Ok(None) => "none".into(),
        Err(_) => "error".into(),
    }
}
fn dbg<T: Debug, E>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(_) => "error".into(),
    }
}

pub fn symbol<'d>(y: &impl ObjectSymbol<'d>) -> String {
    format!(
        "{} {} {} {:#x} {:#x} {:?} {:?} {:?} {}{}{}{}{}{} {:?} {:?}",
        y.index().0,
        res(y.name_bytes()),
        dbg(y.name()),
        y.address(),
        y.size(),
        y.kind(),
        y.section(),
        y.section_index(),
        y.is_undefined() as u8,
        y.is_definition() as u8,
        y.is_common() as u8,
        y.is_weak() as u8,
        y.is_global() as u8,
        y.is_local() as u8,
        y.scope(),
        y.flags()
    )
}

pub fn section_head<'d>(s: &impl ObjectSection<'d>) -> String {
    let mut t = format!(
        "{} {} {} {} {} {:#x} {:#x} {:#x} {:?} {:?} {:?} ",
        s.index().0,
        res(s.name_bytes()),
        dbg(s.name()),
        opt(s.segment_name_bytes()),
        dbg(s.segment_name()),
        s.address(),
        s.size(),
        s.align(),
        s.file_range(),
        s.kind(),
        s.flags()
    );
    t += &res(s.data());
    t += &match s.compressed_file_range() {
        Ok(r) => format!(" {:?} {:#x} {:#x} {:#x}", r.format, r.offset, r.compressed_size, r.uncompressed_size),
        Err(_) => " error".into(),
    };
    t += &match s.compressed_data() {
        Ok(r) => {
            let mut t = format!(" {:?} {} {:#x} ", r.format, short(r.data), r.uncompressed_size);
            if r.uncompressed_size < 1 << 20 {
                t += &res(s.uncompressed_data());
            }
            t
        }
        Err(_) => " error".into(),
    };
    let (a, n) = (s.address(), s.size());
    for (a, n) in [(a, n), (a, 1), (a.wrapping_add(n / 2), n / 2), (a.wrapping_add(n), 0), (a.wrapping_add(n), 1), (a.wrapping_sub(1), 2), (a, n.wrapping_add(1)), (0, u64::MAX)] {
        t += &format!(" {}", opt(s.data_range(a, n)));
    }
    t
}

pub fn section<'d>(s: &impl ObjectSection<'d>, out: &mut Vec<String>) {
    out.push(format!("section {}", section_head(s)));
    let mut offs = vec![];
    for (o, r) in s.relocations().take(MAX) {
        out.push(format!("reloc {o:#x} {:?} {:?} {} {:?} {:?} {:#x} {} {:?}", r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.has_implicit_addend() as u8, r.flags()));
        offs.push(o);
    }
    match s.relocation_map() {
        Ok(m) => offs.iter().for_each(|o| out.push(format!("map {o:#x} {:#x}", m.relocate(*o, 0x1234)))),
        Err(_) => out.push("map error".into()),
    }
}

pub fn dump<'d, O: Object<'d>>(f: &O) -> Vec<String> {
    let mut out = vec![];
    out.push(format!("{:?} {:?} {:?} {} {} {:?} {:#x} {:#x} {:?} {}", f.architecture(), f.sub_architecture(), f.endianness(), f.is_little_endian(), f.is_64(), f.kind(), f.relative_address_base(), f.entry(), f.flags(), f.has_debug_symbols()));
    out.push(format!("uuid {}", dbg(f.mach_uuid())));
    out.push(format!("build id {}", opt(f.build_id())));
    out.push(match f.gnu_debuglink() {
        Ok(x) => format!("link {x:x?}"),
        Err(_) => "link error".into(),
    });
    out.push(match f.gnu_debugaltlink() {
        Ok(x) => format!("altlink {x:x?}"),
        Err(_) => "altlink error".into(),
    });
    out.push(match f.pdb_info() {
        Ok(x) => format!("pdb {:?}", x.map(|x| (x.path().to_vec(), x.age(), x.guid()))),
        Err(_) => "pdb error".into(),
    });
    for s in f.segments().take(MAX) {
        let (a, n) = (s.address(), s.size());
        let mut t = format!("segment {:#x} {:#x} {:#x} {:?} {} {} {} {:?} {:?}", a, n, s.align(), s.file_range(), opt(s.name_bytes()), dbg(s.name()), res(s.data()), s.flags(), s.permissions());
        for (a, n) in [(a, n), (a, 1), (a.wrapping_add(n / 2), n / 2), (a.wrapping_add(n), 0), (a.wrapping_add(n), 1), (a.wrapping_sub(1), 2), (0, u64::MAX)] {
            t += &format!(" {}", opt(s.data_range(a, n)));
        }
        out.push(t);
    }
    for s in f.sections().take(MAX) {
        section(&s, &mut out);
    }
    for c in f.comdats().take(MAX) {
        out.push(format!("comdat {:?} {} {} {} {:?}", c.kind(), c.symbol().0, res(c.name_bytes()), dbg(c.name()), c.sections().take(MAX).map(|s| s.0).collect::<Vec<_>>()));
    }
    for y in f.symbols().take(MAX) {
        out.push(format!("symbol {}", symbol(&y)));
    }
    out.push(format!("table {:?}", f.symbol_table().map(|t| t.symbols().take(MAX).count())));
    for y in f.dynamic_symbols().take(MAX) {
        out.push(format!("dynsym {}", symbol(&y)));
    }
    out.push(format!("dynamic table {:?}", f.dynamic_symbol_table().map(|t| t.symbols().take(MAX).count())));
    // Lookups.
    use object::{SectionIndex, SymbolIndex};
    let (ns, ny, nd) = (f.sections().take(40).count(), f.symbols().take(40).count(), f.dynamic_symbols().take(40).count());
    for i in (0..ns + 3).chain([usize::MAX]) {
        out.push(format!("section {i}: {}", f.section_by_index(SectionIndex(i)).map_or("error".into(), |s| section_head(&s))));
    }
    let mut names: Vec<Vec<u8>> = f.sections().take(40).filter_map(|s| s.name_bytes().ok().map(|n| n.to_vec())).collect();
    names.extend([&b".debug_info"[..], b".text", b"__text", b"nothing", b""].map(|x| x.to_vec()));
    for n in &names {
        out.push(format!("section {}: {:?}", short(n), f.section_by_name_bytes(n).map(|s| (s.index(), s.file_range()))));
        if let Ok(n) = std::str::from_utf8(n) {
            out.push(format!("section {n:?}: {:?}", f.section_by_name(n).map(|s| (s.index(), s.file_range()))));
        }
    }
    for i in (0..ny + 3).chain([usize::MAX]) {
        out.push(format!("symbol {i}: {}", f.symbol_by_index(SymbolIndex(i)).map_or("error".into(), |s| symbol(&s))));
        if let Some(t) = f.symbol_table() {
            out.push(format!("symbol {i}: {}", t.symbol_by_index(SymbolIndex(i)).map_or("error".into(), |s| symbol(&s))));
        }
    }
    for i in 0..nd + 2 {
        if let Some(t) = f.dynamic_symbol_table() {
            out.push(format!("dynsym {i}: {}", t.symbol_by_index(SymbolIndex(i)).map_or("error".into(), |s| symbol(&s))));
        }
    }
    names.clear();
    names.extend(f.symbols().take(10).filter_map(|s| s.name_bytes().ok().map(|n| n.to_vec())));
    names.extend(f.dynamic_symbols().take(10).filter_map(|s| s.name_bytes().ok().map(|n| n.to_vec())));
    for n in &names {
        out.push(format!("symbol {}: {:?}", short(n), f.symbol_by_name_bytes(n).map(|s| (s.index(), s.address()))));
        if let Ok(n) = std::str::from_utf8(n) {
            out.push(format!("symbol {n:?}: {:?}", f.symbol_by_name(n).map(|s| (s.index(), s.address()))));
        }
    }
    match f.dynamic_relocations() {
        None => out.push("no dynamic relocations".into()),
        Some(it) => {
            for (o, r) in it.take(MAX) {
                out.push(format!("dynrel {o:#x} {r:?} {:?}", r.flags()));
            }
        }
    }
    match f.import_libraries() {
        Err(_) => out.push("libraries error".into()),
        Ok(it) => it.take(MAX).for_each(|x| out.push(format!("library {}", dbg(x)))),
    }
    match f.imports() {
        Err(_) => out.push("imports error".into()),
        Ok(it) => it.take(MAX).for_each(|x| out.push(format!("import {}", dbg(x)))),
    }
    match f.exports() {
        Err(_) => out.push("exports error".into()),
        Ok(it) => it.take(MAX).for_each(|x| out.push(format!("export {}", dbg(x)))),
    }
    for m in f.symbol_map().symbols().iter().take(MAX) {
        out.push(format!("map {m:?}"));
    }
    let m = f.object_map();
    for y in m.symbols().iter().take(MAX) {
        out.push(format!("object map {y:x?} {:x?}", y.object(&m)));
    }
    out.push(format!("objects {:x?}", m.objects()));
    out
}

/// The first difference between two descriptions.
pub fn differ(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return Some(format!("line {i}: {x:?} against {y:?}"));
        }
    }
    Some(format!("{} lines against {}: {:?}", a.len(), b.len(), a.get(b.len()).or(b.get(a.len()))))
}
