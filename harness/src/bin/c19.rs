//! C19: Lookups, ranges and iterations over one file are mutually consistent.
#[path = "../images.rs"]
mod images;
use object::read::{Object, ObjectComdat as _, ObjectSection as _, ObjectSegment as _, ObjectSymbol as _, ObjectSymbolTable as _};
use object::{BinaryFormat, CompressionFormat, Endianness, File, SectionIndex, SymbolIndex, SymbolSection};
use vh::dump::{section_head, symbol};
use vh::*;

const MAX: usize = 2000;

/// Sections that a query matches directly (rank 0) or by the conventions of the format.
fn rank(format: BinaryFormat, query: &[u8], name: &[u8]) -> Option<u8> {
    if query == name {
        return Some(0);
    }
    let other = |prefix: &[u8], to: &[u8], max: usize| {
        query.strip_prefix(prefix).is_some_and(|r| {
            let mut x = to.to_vec();
            x.extend(r);
            x.truncate(max);
            x == name
        })
    };
    match format {
        // The GNU spelling of compressed sections is a second choice.
        BinaryFormat::Elf if other(b".debug_", b".zdebug_", usize::MAX) => Some(1),
        // ELF spellings find the Mach-O spelling.
        BinaryFormat::MachO if other(b".", b"__", 16) || other(b".debug_", b"__zdebug_", 16) => Some(0),
        _ => None,
    }
}

/// Bytes at a file range: None if outside of the file.
fn bytes(v: &[u8], r: (u64, u64)) -> Option<&[u8]> {
    v.get(usize::try_from(r.0).ok()?..)?.get(..usize::try_from(r.1).ok()?)
}

fn range_of<'a>(data: &'a [u8], base: u64, a: u64, n: u64) -> Option<&'a [u8]> {
    bytes(data, (a.checked_sub(base)?, n))
}

fn probe(g: &mut Gen, addr: u64, len: u64) -> (u64, u64) {
    let a = match g.upto(5) {
        0 => addr,
        1 => addr.wrapping_sub(1),
        2 => addr.wrapping_add(len),
        3 => g.u64(),
        _ => addr.wrapping_add(g.upto(len)),
    };
    let left = addr.wrapping_add(len).wrapping_sub(a);
    let n = match g.upto(5) {
        0 => 0,
        1 => left,
        2 => left.wrapping_add(1),
        3 => u64::MAX - g.upto(2),
        4 => 0u64.wrapping_sub(a),
        _ => g.upto(len),
    };
    (a, n)
}

fn text(name: &Result<&[u8], object::Error>, s: Result<&str, object::Error>, what: &str) -> R {
    match (name, s) {
        (Ok(b), Ok(s)) => ensure_eq!(s.as_bytes(), *b, "{what}: string and bytes"),
        (Ok(b), Err(_)) => ensure!(std::str::from_utf8(b).is_err(), "{what}: no string for {b:x?}"),
        (Err(_), Err(_)) => {}
        (Err(_), Ok(s)) => fail!("{what}: string {s:?} but no bytes"),
    }
    Ok(())
}
fn text_opt(name: Result<Option<&[u8]>, object::Error>, s: Result<Option<&str>, object::Error>, what: &str) -> R {
    match (name, s) {
        (Ok(b), Ok(s)) => ensure_eq!(s.map(str::as_bytes), b, "{what}: string and bytes"),
        (Ok(b), Err(_)) => ensure!(b.is_some_and(|b| std::str::from_utf8(b).is_err()), "{what}: no string for {b:x?}"),
        (Err(_), Err(_)) => {}
        (Err(_), Ok(s)) => fail!("{what}: string {s:?} but no bytes"),
    }
    Ok(())
}

fn check<'d>(g: &mut Gen, f: &File<'d>, v: &'d [u8]) -> R {
    let format = f.format();
    ensure_eq!(f.endianness(), if f.is_little_endian() { Endianness::Little } else { Endianness::Big }, "endianness");

    // Segments.
    let mut again = f.segments();
    for (i, s) in f.segments().take(MAX).enumerate() {
        let t = must_some!(again.next(), "second iteration of segments");
        ensure_eq!((s.address(), s.size(), s.file_range()), (t.address(), t.size(), t.file_range()), "segment {i} in the second iteration");
        let want = bytes(v, s.file_range());
        match (s.data(), want) {
            (Ok(d), Some(w)) => ensure!(d == w, "segment {i}: data differs from the file range"),
            (Ok(d), None) => ensure!(d.is_empty() && s.file_range().1 == 0, "segment {i}: {} bytes of data for file range {:x?} in {:#x} bytes", d.len(), s.file_range(), v.len()),
            (Err(_), Some(w)) => ensure!(w.is_empty(), "segment {i}: no data for file range {:x?}", s.file_range()),
            (Err(_), None) => {}
        }
        let name = s.name_bytes();
        text_opt(name, s.name(), "segment name")?;
        for _ in 0..3 {
            let (a, n) = probe(g, s.address(), s.data().map_or(9, |d| d.len() as u64));
            match (s.data_range(a, n), s.data()) {
                (Ok(got), Ok(d)) => ensure_eq!(got, range_of(d, s.address(), a, n), "segment {i} at {:#x}: data_range({a:#x}, {n:#x})", s.address()),
                (Err(_), Err(_)) => {}
                (r, d) => fail!("segment {i}: data_range succeeds: {}, data succeeds: {}", r.is_ok(), d.is_ok()),
            }
        }
    }

    // Sections.
    let secs: Vec<_> = f.sections().take(MAX).collect();
    let mut again = f.sections();
    for (i, s) in secs.iter().enumerate() {
        let what = section_head(s);
        ensure_eq!(again.next().map(|t| section_head(&t)), Some(what.clone()), "section {i} in the second iteration");
        // Custom sections of Wasm modules share an index.
        if !(format == BinaryFormat::Wasm && s.index().0 == 0) {
            let t = must!(f.section_by_index(s.index()), "section {i} by its index");
            ensure_eq!(section_head(&t), what, "section {i} by its index");
            ensure_eq!(t.relocations().take(MAX).map(|r| (r.0, r.1.flags())).collect::<Vec<_>>(), s.relocations().take(MAX).map(|r| (r.0, r.1.flags())).collect::<Vec<_>>(), "relocations of section {i} by its index");
        }
        let name = s.name_bytes();
        text(&name, s.name(), "section name")?;
        text_opt(s.segment_name_bytes(), s.segment_name(), "segment name of a section")?;
        match (s.file_range(), s.data()) {
            (None, Ok(d)) => ensure!(d.is_empty(), "section {i}: {} bytes of data without a file range", d.len()),
            (None, Err(_)) => {}
            (Some(r), d) => match (d, bytes(v, r)) {
                (Ok(d), Some(w)) => ensure!(d == w, "section {i}: data differs from the file range"),
                (Ok(d), None) => ensure!(d.is_empty() && r.1 == 0, "section {i}: {} bytes of data for file range {r:x?} in {:#x} bytes", d.len(), v.len()),
                (Err(_), Some(w)) => ensure!(w.is_empty(), "section {i}: no data for file range {r:x?}"),
                (Err(_), None) => {}
            },
        }
        for _ in 0..3 {
            let (a, n) = probe(g, s.address(), s.data().map_or(9, |d| d.len() as u64));
            match (s.data_range(a, n), s.data()) {
                (Ok(got), Ok(d)) => ensure_eq!(got, range_of(d, s.address(), a, n), "section {i} at {:#x}: data_range({a:#x}, {n:#x})", s.address()),
                (Err(_), Err(_)) => {}
                (r, d) => fail!("section {i}: data_range succeeds: {}, data succeeds: {}", r.is_ok(), d.is_ok()),
            }
        }
        // Compression.
        let (r, d) = (s.compressed_file_range(), s.compressed_data());
        if let (Ok(r), Ok(d)) = (&r, &d) {
            ensure_eq!((r.format, r.uncompressed_size), (d.format, d.uncompressed_size), "section {i}: compressed range and data");
            ensure!(bytes(v, (r.offset, r.compressed_size)).unwrap_or(b"") == d.data, "section {i}: compressed data differs from its file range");
            let x = must!(r.data(v), "section {i}: data of the compressed range");
            ensure_eq!((x.format, x.data, x.uncompressed_size), (d.format, d.data, d.uncompressed_size), "section {i}: CompressedFileRange::data");
            if r.format == CompressionFormat::None {
                let (u, d) = (s.uncompressed_data(), s.data());
                ensure!(u.is_ok() == d.is_ok() && u.map_or(true, |u| Ok(&u[..]) == d), "section {i}: uncompressed data of a plain section");
            } else if r.uncompressed_size < 1 << 20 {
                let (u, x) = (s.uncompressed_data(), d.decompress());
                ensure_eq!(u.as_ref().ok(), x.as_ref().ok(), "section {i}: uncompressed_data and decompress");
            }
        } else {
            ensure!(r.is_err() && d.is_err() || s.data().is_err(), "section {i}: compressed_file_range succeeds: {}, compressed_data: {}", r.is_ok(), d.is_ok());
            ensure!(s.uncompressed_data().is_err(), "section {i}: uncompressed data without compressed data");
        }
    }
    let mut queries: Vec<Vec<u8>> = vec![];
    for s in secs.iter().take(12) {
        if let Ok(n) = s.name_bytes() {
            queries.push(n.to_vec());
            for (from, to) in [(&b"__"[..], &b"."[..]), (b".zdebug_", b".debug_"), (b"__zdebug_", b".debug_"), (b".debug_", b".zdebug_")] {
                if let Some(r) = n.strip_prefix(from) {
                    queries.push([to, r].concat());
                    queries.push([to, r, b"xyz"].concat());
                }
            }
        }
    }
    queries.extend([&b".text"[..], b"__text", b".debug_info", b".debug_str_offsets", b"", b"no such section"].map(|x| x.to_vec()));
    for q in queries {
        let mut want = None;
        for k in 0..2 {
            want = want.or_else(|| f.sections().position(|s| s.name_bytes().is_ok_and(|n| rank(format, &q, n) == Some(k))));
        }
        let want = want.map(|i| (f.sections().nth(i).unwrap().index(), f.sections().nth(i).unwrap().file_range()));
        ensure_eq!(f.section_by_name_bytes(&q).map(|s| (s.index(), s.file_range())), want, "section_by_name_bytes({:?})", String::from_utf8_lossy(&q));
        if let Ok(q) = std::str::from_utf8(&q) {
            ensure_eq!(f.section_by_name(q).map(|s| (s.index(), s.file_range())), want, "section_by_name({q:?})");
        }
    }
    // Indices that no section has.
    let all: std::collections::HashSet<usize> = f.sections().map(|s| s.index().0).collect();
    if format != BinaryFormat::Wasm {
        ensure_eq!(all.len(), f.sections().count(), "section indices are distinct");
    }
    for _ in 0..3 {
        let i = if g.bool() { g.upto(all.len() as u64 + 3) as usize } else { g.u64() as usize };
        if !all.contains(&i) {
            ensure!(f.section_by_index(SectionIndex(i)).is_err(), "section index {i} is not one of the {} iterated", all.len());
        }
    }

    // Symbols.
    for dynamic in [false, true] {
        let table = if dynamic { f.dynamic_symbol_table() } else { f.symbol_table() };
        let list = || if dynamic { f.dynamic_symbols() } else { f.symbols() };
        let Some(table) = table else {
            ensure!(list().next().is_none(), "symbols without a table (dynamic: {dynamic})");
            continue;
        };
        let (mut again, mut third) = (list(), table.symbols());
        let mut last = None;
        let mut names: Vec<Vec<u8>> = vec![];
        for (i, y) in list().take(MAX).enumerate() {
            let what = symbol(&y);
            ensure_eq!(again.next().map(|t| symbol(&t)), Some(what.clone()), "symbol {i} in the second iteration");
            ensure_eq!(third.next().map(|t| symbol(&t)), Some(what.clone()), "symbol {i} of the table");
            ensure!(last.is_none_or(|l| l < y.index().0), "symbol indices are not ascending");
            last = Some(y.index().0);
            let t = must!(table.symbol_by_index(y.index()), "symbol {i} by its index");
            ensure_eq!(symbol(&t), what, "symbol {i} of the table by its index");
            if !dynamic {
                let t = must!(f.symbol_by_index(y.index()), "symbol {i} by its index");
                ensure_eq!(symbol(&t), what, "symbol {i} by its index");
            }
            let name = y.name_bytes();
            text(&name, y.name(), "symbol name")?;
            if names.len() < 12 {
                if let Ok(n) = name {
                    names.push(n.to_vec());
                }
            }
            let index = match y.section() {
                SymbolSection::Section(x) => Some(x),
                _ => None,
            };
            ensure_eq!(y.section_index(), index, "section index of symbol {i}");
            ensure!(!(y.is_definition() && y.is_undefined()), "symbol {i} is undefined and defined");
            ensure!(y.is_local() != y.is_global() || format == BinaryFormat::Elf && !y.is_local(), "symbol {i} is local: {}, global: {}", y.is_local(), y.is_global());
        }
        if list().take(MAX + 1).count() <= MAX {
            ensure!(again.next().is_none() && third.next().is_none(), "number of symbols");
            for _ in 0..2 {
                let i = last.map_or(0, |l| l as u64 + 1) as usize;
                let i = if g.bool() { i + g.upto(3) as usize + 20 } else { (g.u64() as usize).max(i + 20) };
                ensure!(table.symbol_by_index(SymbolIndex(i)).is_err() || format == BinaryFormat::Coff || format == BinaryFormat::Pe || format == BinaryFormat::Xcoff || format == BinaryFormat::MachO, "symbol {i} exists");
            }
        }
        if !dynamic {
            names.push(b"no such symbol".to_vec());
            for n in names {
                // The first of the symbol table.
                let want = f.symbols().find(|y| y.name_bytes() == Ok(&n[..])).map(|y| symbol(&y));
                ensure_eq!(f.symbol_by_name_bytes(&n).map(|y| symbol(&y)), want, "symbol_by_name_bytes({:?})", String::from_utf8_lossy(&n));
                if let Ok(n) = std::str::from_utf8(&n) {
                    ensure_eq!(f.symbol_by_name(n).map(|y| symbol(&y)), want, "symbol_by_name({n:?})");
                }
            }
        }
    }
    // Groups.
    let mut again = f.comdats();
    for c in f.comdats().take(MAX) {
        let t = must_some!(again.next(), "second iteration of groups");
        let name = c.name_bytes();
        text(&name, c.name(), "group name")?;
        ensure_eq!((t.symbol(), t.name_bytes().ok(), t.sections().take(MAX).collect::<Vec<_>>()), (c.symbol(), name.ok(), c.sections().take(MAX).collect::<Vec<_>>()), "group in the second iteration");
    }
    Ok(())
}

fn files(g: &mut Gen) -> R {
    let mut v = images::object(g);
    if g.chance(1, 2) {
        let n = g.range(1, 4);
        images::mutate(g, &mut v, n);
        g.label("damaged");
    }
    g.sample(|| format!("{} bytes {:x?}", v.len(), &v[..v.len().min(64)]));
    let Ok(f) = File::parse(&v[..]) else { return Ok(()) };
    g.nontrivial_if(f.sections().next().is_some() || f.symbols().next().is_some());
    check(g, &f, &v)
}

fn main() {
    run(
        "C19",
        "the file parses and has a section or symbol",
        &["Wasm custom sections share index 0; COFF, XCOFF and Mach-O symbol lookups accept indices that iteration skips"],
        &[sub("files", 400000, 8000000, files)],
    );
}
