//! Built by C36 with different features of the library: answers requests on standard input.
use std::io::{Read, Write};

#[cfg(feature = "r")]
#[allow(dead_code)]
mod dump;

#[cfg(feature = "r")]
fn read(v: &[u8]) -> Vec<u8> {
    match object::File::parse(v) {
        Ok(f) => dump::dump(&f).join("\n").into_bytes(),
        Err(_) => b"error".to_vec(),
    }
}
#[cfg(not(feature = "r"))]
fn read(_: &[u8]) -> Vec<u8> {
    vec![]
}

/// Describe an object file by the bytes of a request, and write it.
#[cfg(feature = "w")]
fn write(v: &[u8]) -> Vec<u8> {
    use object::write::*;
    use object::{Architecture, BinaryFormat, Endianness, RelocationEncoding, RelocationFlags, RelocationKind, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
    let mut at = 0;
    let mut next = |n: usize| -> usize {
        let x = v.get(at).copied().unwrap_or(0) as usize;
        at += 1;
        x % n
    };
    let (format, arch, endian) = [
        (BinaryFormat::Elf, Architecture::X86_64, Endianness::Little),
        (BinaryFormat::Elf, Architecture::PowerPc, Endianness::Big),
        (BinaryFormat::Coff, Architecture::X86_64, Endianness::Little),
        (BinaryFormat::MachO, Architecture::X86_64, Endianness::Little),
        (BinaryFormat::Xcoff, Architecture::PowerPc, Endianness::Big),
    ][next(5)];
    let mut o = Object::new(format, arch, endian);
    let name = |k: usize| -> Vec<u8> { format!("{}{}", ["a", "long_name_of_something_", ".text", "_tail", "x_tail", "name"][k % 6], k / 6).into_bytes() };
    let mut secs = vec![];
    for _ in 0..next(6) {
        let kind = [SectionKind::Text, SectionKind::Data, SectionKind::ReadOnlyData, SectionKind::UninitializedData][next(4)];
        let segment = if format == BinaryFormat::MachO { o.segment_name(StandardSegment::Data).to_vec() } else { vec![] };
        let s = o.add_section(segment, name(next(60)), kind);
        let len = 16 + next(40);
        if kind == SectionKind::UninitializedData {
            o.append_section_bss(s, len as u64, 1 << next(4));
        } else {
            let b: Vec<u8> = (0..len).map(|_| next(256) as u8).collect();
            o.append_section_data(s, &b, 1 << next(4));
        }
        secs.push((s, kind));
    }
    for k in 0..if format == BinaryFormat::Xcoff { 0 } else { next(4) } {
        o.section_id([StandardSection::Text, StandardSection::Data, StandardSection::ReadOnlyData, StandardSection::UninitializedData][(next(4) + k) % 4]);
    }
    let mut syms = vec![];
    for _ in 0..next(12) {
        let section = match next(3) {
            0 => SymbolSection::Undefined,
            _ if secs.is_empty() => SymbolSection::Undefined,
            _ => SymbolSection::Section(secs[next(secs.len())].0),
        };
        let undefined = section == SymbolSection::Undefined;
        syms.push(o.add_symbol(Symbol {
            name: name(next(60)),
            value: if undefined { 0 } else { next(16) as u64 },
            size: next(4) as u64,
            kind: [SymbolKind::Text, SymbolKind::Data][next(2)],
            scope: if undefined { SymbolScope::Unknown } else { [SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][next(3)] },
            weak: next(5) == 0,
            section,
            flags: SymbolFlags::None,
        }));
    }
    if next(3) == 0 && !secs.is_empty() {
        syms.push(o.section_symbol(secs[0].0));
    }
    for _ in 0..next(8) {
        let with: Vec<_> = secs.iter().filter(|x| x.1 != SectionKind::UninitializedData).collect();
        if with.is_empty() || syms.is_empty() {
            break;
        }
        let flags = RelocationFlags::Generic { kind: RelocationKind::Absolute, encoding: RelocationEncoding::Generic, size: [32, 64][next(2)] };
        let r = Relocation { offset: next(3) as u64 * 4, symbol: syms[next(syms.len())], addend: next(9) as i64 - 4, flags };
        let _ = o.add_relocation(with[next(with.len())].0, r);
    }
    match o.write() {
        Ok(v) => v,
        Err(_) => b"error".to_vec(),
    }
}
#[cfg(not(feature = "w"))]
fn write(_: &[u8]) -> Vec<u8> {
    vec![]
}

/// Read a file into a builder and write it.
#[cfg(feature = "b")]
fn rebuild(v: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    match object::build::elf::Builder::read(v).map(|mut b| {
        b.set_section_sizes();
        b.write(&mut out)
    }) {
        Ok(Ok(())) => out,
        _ => b"error".to_vec(),
    }
}
#[cfg(not(feature = "b"))]
fn rebuild(_: &[u8]) -> Vec<u8> {
    vec![]
}

fn main() {
    if std::env::var_os("VH_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0; 5];
    while i.read_exact(&mut head).is_ok() {
        let mut v = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        i.read_exact(&mut v).unwrap();
        let out = std::panic::catch_unwind(|| match head[0] {
            0 => read(&v),
            1 => write(&v),
            _ => rebuild(&v),
        })
        .unwrap_or_else(|_| b"panic".to_vec());
        o.write_all(&(out.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&out).unwrap();
        o.flush().unwrap();
    }
}
