//! C28: what the low-level COFF and PE writers emit, against an independent encoding of what was requested.
use object::write::{coff as wc, pe as wp};
use object::{endian::LittleEndian as LE, pe};
use vh::b::*;
use vh::sink::Recorder;
use vh::*;

fn le() -> B {
    B::new(false, false)
}

/// Compares the whole file except for some ranges.
fn compare(v: &[u8], e: &[u8], skip: &[(usize, usize)], parts: &[(String, u64)]) -> R {
    ensure_eq!(v.len(), e.len(), "length of the file, parts {:?}", parts);
    if v == e {
        return Ok(());
    }
    for i in 0..v.len() {
        if v[i] != e[i] && !skip.iter().any(|s| (s.0..s.0 + s.1).contains(&i)) {
            let w = parts.iter().rev().find(|x| x.1 <= i as u64);
            let at = w.map_or(0, |w| w.1 as usize).max(i.saturating_sub(60));
            fail!("byte {i:#x} is {:#x} instead of {:#x}, in {:?}: {:x?} instead of {:x?}", v[i], e[i], w, &v[at..v.len().min(at + 90)], &e[at..v.len().min(at + 90)]);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Add,
    Long,
    Short,
}
#[derive(Clone, Debug)]
enum Data {
    None,
    Zeros(usize),
    Bytes(Vec<u8>),
}
impl Data {
    fn len(&self) -> usize {
        match self {
            Data::None => 0,
            Data::Zeros(n) => *n,
            Data::Bytes(v) => v.len(),
        }
    }
}
#[derive(Clone, Debug)]
struct Sec {
    name: Vec<u8>,
    how: How,
    flags: u32,
    data: Data,
    relocs: Vec<(u32, u32, u16)>,
    lines: (u32, u16),
}
#[derive(Clone, Debug)]
enum Aux {
    None,
    File(Vec<u8>),
    Section(u32, u32, u16, u32, u32, u8),
    Weak(u32, u32),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Sy {
    name: Vec<u8>,
    how: How,
    value: u32,
    section: i32,
    ty: u16,
    class: u8,
    aux: Aux,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Data(usize),
    Relocs(usize),
    Blob(usize),
    Until(u64),
    Tables,
}

fn name(g: &mut Gen, tables: bool) -> (Vec<u8>, How) {
    let mut how = g.pickc(&[How::Add, How::Add, How::Long, How::Short]);
    let mut v = if how == How::Short {
        let mut v = g.name(8);
        v.truncate(8);
        v
    } else {
        match g.upto(5) {
            0 => {
                let n = g.pickc(&[7, 8, 9, 16, 17, 18, 19]);
                (0..n).map(|_| g.pickc(b"abcXYZ/0.$")).collect()
            }
            1 => g.pickc(&["/4", "/", "//AAAA", ".debug_info", ".text", ".text$mn", "/12345678"]).into(),
            _ => g.name(14),
        }
    };
    v.retain(|b| *b != 0);
    if !tables {
        how = How::Short;
        v.truncate(8);
    }
    (v, how)
}
fn raw_name(v: &[u8]) -> [u8; 8] {
    let mut r = [0; 8];
    r[..v.len()].copy_from_slice(v);
    r
}

fn coff(g: &mut Gen) -> R {
    let tables = g.chance(7, 8);
    let mut secs = vec![];
    for _ in 0..g.len(5) {
        let (name, how) = name(g, tables);
        let data = match g.upto(4) {
            0 => Data::None,
            1 => Data::Zeros(g.len(40)),
            _ => Data::Bytes(g.blob(24)),
        };
        let n = if g.chance(1, 600) { g.range(65534, 65539) } else { g.len(5) };
        let base = (g.u32(), g.u32(), g.u16());
        let mut relocs = vec![];
        for i in 0..n {
            relocs.push(if i < 8 { (g.u32(), g.u32(), g.u16()) } else { (base.0.wrapping_add(i as u32), base.1 ^ i as u32, base.2) });
        }
        secs.push(Sec { name, how, flags: g.u32(), data, relocs, lines: (g.u32(), g.u16()) });
    }
    let mut syms = vec![];
    if tables {
        for _ in 0..g.len(8) {
            let (name, how) = name(g, true);
            let aux = match g.upto(7) {
                0 | 1 => {
                    let n = g.pickc(&[0usize, 1, 17, 18, 19, 36, 37, 100]);
                    let n = if g.chance(1, 100) { 255 * 18 - g.upto(19) as usize } else { n };
                    Aux::File((0..n).map(|i| b'a' + (i % 23) as u8).collect())
                }
                2 | 3 => {
                    let relocs = if g.bool() { g.pickc(&[0u32, 1, 0xfffe, 0xffff, 0x10000, 0xffff_ffff]) } else { g.u32() };
                    Aux::Section(g.u32(), relocs, g.u16(), g.u32(), g.u32(), g.u8())
                }
                4 => Aux::Weak(g.u32(), g.u32()),
                5 => {
                    let n = g.range(1, 3);
                    Aux::Raw(g.bytes(18 * n))
                }
                _ => Aux::None,
            };
            let section = if g.chance(1, 3) { g.pickc(&[0i32, -1, -2]) } else { g.range(0, 0xfeff) as i32 };
            syms.push(Sy { name, how, value: g.u32(), section, ty: g.u16(), class: g.u8(), aux });
        }
    }
    let mut blobs = vec![];
    let mut items = vec![];
    for i in 0..secs.len() {
        items.push(Item::Data(i));
        items.push(Item::Relocs(i));
    }
    for i in 0..g.len(2) {
        let (v, a) = (g.blob(9), g.pickc(&[0u64, 1, 2, 4, 8, 16, 512]));
        blobs.push((v, a));
        items.push(Item::Blob(i));
    }
    if g.chance(1, 4) {
        items.push(Item::Until(g.upto(50)));
    }
    if g.chance(1, 2) {
        for i in (1..items.len()).rev() {
            let j = g.below(i + 1);
            items.swap(i, j);
        }
    }
    if tables {
        let at = if g.chance(3, 4) { items.len() } else { g.below(items.len() + 1) };
        items.insert(at, Item::Tables);
    }
    let huge = tables && g.chance(1, 3000);
    let filler: Vec<u8> = if huge {
        let n = match g.below(4) {
            0 => 9_999_990 + g.upto(30),
            1 => g.pickc(&[999_990, 1_000_000, 3_000_000]) + g.upto(30),
            _ => 9_999_990 + g.upto(7_000_000),
        };
        vec![g.pickc(b"A~z"); n as usize]
    } else {
        vec![]
    };
    let header = (g.u16(), g.u32(), g.u16());
    let mut rec = Recorder::new();
    rec.default_zeros = g.bool();
    let mut e = le();
    let mut parts: Vec<(String, u64)> = vec![];
    // Position, wanted name, how, whether it is a section's.
    let mut names: Vec<(usize, Vec<u8>, How, bool)> = vec![];
    let mut strtab = (0, 0);
    let sec_hows: Vec<_> = secs.iter().map(|s| (s.name.clone(), s.how)).collect();
    let sym_hows: Vec<_> = syms.iter().map(|s| (s.name.clone(), s.how)).collect();
    {
        let mut w = wc::Writer::new(&mut rec);
        let add = |w: &mut wc::Writer<'_>, v: &[u8], how: How, long: &dyn Fn(&mut wc::Writer<'_>) -> wc::Name| match how {
            How::Short => {
                let n = raw_name(v);
                (&n).into()
            }
            _ => long(w),
        };
        let _ = add;
        if huge {
            w.add_string(&filler);
        }
        let mut sec_names = vec![];
        for (v, how) in &sec_hows {
            sec_names.push(match how {
                How::Short => (&raw_name(v)).into(),
                How::Long => wc::Name::Long(w.add_string(v)),
                How::Add => w.add_name(v),
            });
        }
        let mut sym_names = vec![];
        let mut auxs = vec![];
        let mut total = 0u32;
        for (i, (v, how)) in sym_hows.iter().enumerate() {
            sym_names.push(match how {
                How::Short => (&raw_name(v)).into(),
                How::Long => wc::Name::Long(w.add_string(v)),
                How::Add => w.add_name(v),
            });
            ensure_eq!(w.reserve_symbol_index(), total, "index of symbol {}", i);
            let (got, n) = match &syms[i].aux {
                Aux::None => (0, 0),
                Aux::File(f) => (w.reserve_aux_file_name(f), f.len().div_ceil(18) as u8),
                Aux::Section(..) => (w.reserve_aux_section(), 1),
                Aux::Weak(..) => (w.reserve_aux_weak_external(), 1),
                Aux::Raw(v) => {
                    let n = (v.len() / 18) as u8;
                    w.reserve_symbol_indices(n.into());
                    (n, n)
                }
            };
            ensure_eq!(got, n, "number of auxiliary symbols of {:?}", syms[i].aux);
            auxs.push(n);
            total += 1 + u32::from(n);
            ensure_eq!(w.symbol_count(), total, "number of symbols");
        }
        // Reserve.
        w.reserve_file_header();
        w.reserve_section_headers(secs.len() as u16);
        let mut pos = 20 + 40 * secs.len() as u64;
        ensure_eq!(w.reserved_len(), pos, "reserved length of the headers");
        let mut data_at = vec![0u64; secs.len()];
        let mut rel_at = vec![0u64; secs.len()];
        let mut sym_at = 0;
        let mut ends = vec![];
        for it in &items {
            let start = pos;
            match *it {
                Item::Data(i) => {
                    let n = secs[i].data.len() as u64;
                    let want = if n == 0 { 0 } else { pos.next_multiple_of(4) };
                    ensure_eq!(u64::from(w.reserve_section(n as usize)), want, "offset of {} bytes of section data after {:#x}", n, pos);
                    if n > 0 {
                        pos = want + n;
                    }
                    data_at[i] = want;
                }
                Item::Relocs(i) => {
                    let n = secs[i].relocs.len() as u64;
                    let want = if n == 0 { 0 } else { pos };
                    ensure_eq!(u64::from(w.reserve_relocations(n as usize)), want, "offset of {} relocations after {:#x}", n, pos);
                    pos += 10 * if n > 0xffff { n + 1 } else { n };
                    rel_at[i] = want;
                }
                Item::Blob(i) => {
                    let (v, a) = &blobs[i];
                    let want = if *a > 1 { pos.next_multiple_of(*a) } else { pos };
                    ensure_eq!(u64::from(w.reserve(v.len() as u64, *a)), want, "offset of a range aligned to {}", a);
                    pos = want + v.len() as u64;
                }
                Item::Until(n) => {
                    pos += n;
                    w.reserve_until(pos);
                }
                Item::Tables => {
                    must!(w.reserve_symtab_strtab(), "reserve_symtab_strtab");
                    sym_at = pos;
                    strtab.0 = (pos + 18 * u64::from(total)) as usize;
                    strtab.1 = (w.reserved_len() as usize).saturating_sub(strtab.0);
                    ensure!(strtab.1 >= 4, "no room for the size of the string table");
                    pos = w.reserved_len();
                }
            }
            ensure_eq!(w.reserved_len(), pos, "reserved length after {:?}", it);
            ends.push(pos);
            parts.push((format!("{it:?}"), start));
        }
        // Write.
        must!(
            w.write_file_header(wc::FileHeader { machine: pe::Machine(header.0), time_date_stamp: header.1, characteristics: pe::FileFlags(header.2) }),
            "write_file_header"
        );
        e.u16(header.0).u16(secs.len() as u16).u32(header.1).u32(sym_at as u32).u32(total).u16(0).u16(header.2);
        for (i, s) in secs.iter().enumerate() {
            w.write_section_header(wc::SectionHeader {
                name: sec_names[i],
                size_of_raw_data: s.data.len() as u32,
                pointer_to_raw_data: data_at[i] as u32,
                pointer_to_relocations: rel_at[i] as u32,
                pointer_to_linenumbers: s.lines.0,
                number_of_relocations: s.relocs.len() as u32,
                number_of_linenumbers: s.lines.1,
                characteristics: pe::SectionFlags(s.flags),
            });
            names.push((e.len(), s.name.clone(), s.how, true));
            e.zeros(8).u32(0).u32(0).u32(s.data.len() as u32).u32(data_at[i] as u32).u32(rel_at[i] as u32).u32(s.lines.0);
            e.u16(s.relocs.len().min(0xffff) as u16).u16(s.lines.1).u32(s.flags);
        }
        for (it, end) in items.iter().zip(ends) {
            match *it {
                Item::Data(i) => match &secs[i].data {
                    Data::Bytes(v) => {
                        if !v.is_empty() {
                            e.align(4).bytes(v);
                            if g.chance(1, 4) {
                                w.write_section_align();
                                w.write(v);
                                ensure_eq!(w.len(), end, "length after {:?}", it);
                                continue;
                            }
                        }
                        w.write_section(v);
                    }
                    Data::Zeros(n) => {
                        if *n > 0 {
                            e.align(4).zeros(*n);
                        }
                        w.write_section_zeroes(*n);
                    }
                    Data::None => w.write_section(&[]),
                },
                Item::Relocs(i) => {
                    let r = &secs[i].relocs;
                    w.write_relocations_count(r.len());
                    if r.len() > 0xffff {
                        e.u32(r.len() as u32 + 1).u32(0).u16(0);
                    }
                    for r in r {
                        w.write_relocation(wc::Relocation { virtual_address: r.0, symbol: r.1, typ: pe::RelocationType(r.2) });
                        e.u32(r.0).u32(r.1).u16(r.2);
                    }
                }
                Item::Blob(i) => {
                    let (v, a) = &blobs[i];
                    w.write_align(*a);
                    w.write(v);
                    e.align((*a).max(1) as usize).bytes(v);
                }
                Item::Until(n) => {
                    w.pad_until(end);
                    e.zeros(n as usize);
                }
                Item::Tables => {
                    for (i, s) in syms.iter().enumerate() {
                        w.write_symbol(wc::Symbol {
                            name: sym_names[i],
                            value: s.value,
                            section_number: pe::SymbolSection(s.section),
                            typ: pe::SymbolType(s.ty),
                            storage_class: pe::SymbolClass(s.class),
                            number_of_aux_symbols: auxs[i],
                        });
                        names.push((e.len(), s.name.clone(), s.how, false));
                        e.zeros(8).u32(s.value).u16(s.section as u16).u16(s.ty).u8(s.class).u8(auxs[i]);
                        match &s.aux {
                            Aux::None => {}
                            Aux::File(f) => {
                                w.write_aux_file_name(f, auxs[i]);
                                e.fixed(f, 18 * usize::from(auxs[i]));
                            }
                            Aux::Section(len, relocs, lines, sum, number, sel) => {
                                w.write_aux_section(wc::AuxSymbolSection {
                                    length: *len,
                                    number_of_relocations: *relocs,
                                    number_of_linenumbers: *lines,
                                    check_sum: *sum,
                                    number: *number,
                                    selection: pe::ComdatSelection(*sel),
                                });
                                e.u32(*len).u16((*relocs).min(0xffff) as u16).u16(*lines).u32(*sum).u16(*number as u16).u8(*sel).u8(0).u16((*number >> 16) as u16);
                            }
                            Aux::Weak(index, kind) => {
                                w.write_aux_weak_external(wc::AuxSymbolWeak { weak_default_sym_index: *index, weak_search_type: pe::WeakExternSearch(*kind) });
                                e.u32(*index).u32(*kind).zeros(10);
                            }
                            Aux::Raw(v) => {
                                w.write(v);
                                e.bytes(v);
                            }
                        }
                    }
                    w.write_strtab();
                    e.u32(strtab.1 as u32).zeros(strtab.1 - 4);
                }
            }
            ensure_eq!(w.len(), end, "length after {:?}", it);
            ensure_eq!(e.len() as u64, end, "encoded length after {:?}", it);
        }
    }
    rec.check()?;
    let v = &rec.data;
    if !huge {
        g.file(v)?;
    }
    let mut skip: Vec<_> = names.iter().map(|n| (n.0, 8)).collect();
    if tables {
        skip.push((strtab.0 + 4, strtab.1 - 4));
    }
    compare(v, &e.v, &skip, &parts)?;
    let table = &v[strtab.0..strtab.0 + strtab.1];
    let mut long = false;
    for (at, want, how, section) in &names {
        let field = &v[*at..*at + 8];
        if *how == How::Short {
            ensure_eq!(field, raw_name(want), "inline name");
            continue;
        }
        let off = if *section && field[0] == b'/' { Some(section_offset(field)?) } else if !*section && field[..4] == [0; 4] { Some(u32::from_le_bytes(field[4..].try_into().unwrap()) as usize) } else { None };
        match off {
            Some(o) => {
                ensure!(o >= 4, "name at offset {o}");
                ensure_eq!(cstr_at(table, o), Some(&want[..]), "name at offset {} of the string table", o);
                long |= o > 9_999_999 && *section;
                ensure!(!*section || (field[1] == b'/') == (o > 9_999_999), "name at offset {o} as {field:x?}");
            }
            None => {
                ensure!(*how == How::Add, "name {want:?} is not in the string table: {field:?}");
                ensure_eq!(field, raw_name(&want[..want.len().min(8)]), "inline name");
                ensure!(want.len() <= 8, "name {want:?} is cut");
            }
        }
    }
    ensure!(!tables || table.len() == 4 || table.last() == Some(&0), "the string table does not end");
    g.label_if(secs.iter().any(|s| s.relocs.len() > 0xffff), "relocation overflow");
    g.label_if(huge, "huge string table");
    g.label_if(long, "base64 name");
    g.label_if(!tables, "no tables");
    g.nontrivial_if(secs.len() + syms.len() >= 4);
    g.sample(|| format!("{} bytes: {} sections, {} symbols, {:?}", rec.data.len(), secs.len(), syms.len(), items));
    Ok(())
}
/// `/123` or `//AAAAAA`.
fn section_offset(f: &[u8]) -> R<usize> {
    let mut o = 0usize;
    if f[1] == b'/' {
        for c in &f[2..] {
            let d = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => fail!("name {f:?}"),
            };
            o = o * 64 + usize::from(d);
        }
    } else {
        let end = f.iter().position(|c| *c == 0).unwrap_or(8);
        ensure!(end > 1 && f[end..].iter().all(|c| *c == 0), "name {f:?}");
        for c in &f[1..end] {
            ensure!(c.is_ascii_digit(), "name {f:?}");
            o = o * 10 + usize::from(c - b'0');
        }
    }
    Ok(o)
}

#[derive(Clone, Debug)]
enum Op {
    /// Name, flags, virtual size, data; 0 is custom, others the predefined kinds.
    Section(u8, [u8; 8], u32, u32, Vec<u8>),
    Reloc,
    VirtualUntil(u32),
    Virtual(u32),
    Blob(Vec<u8>, u32),
    File(Vec<u8>),
    Until(u32),
    Align(u32),
    Cert(Vec<u8>),
}
const IDATA: u8 = 6;
const KINDS: [(&[u8; 8], u32, Option<usize>); 10] = [
    (b"\0\0\0\0\0\0\0\0", 0, None),
    (b".text\0\0\0", 0x6000_0020, None),
    (b".data\0\0\0", 0xc000_0040, None),
    (b".rdata\0\0", 0x4000_0040, None),
    (b".bss\0\0\0\0", 0xc000_0080, None),
    (b".xdata\0\0", 0x4000_0040, None),
    (b".idata\0\0", 0xc000_0040, Some(1)),
    (b".edata\0\0", 0x4000_0040, Some(0)),
    (b".pdata\0\0", 0x4000_0040, Some(3)),
    (b".rsrc\0\0\0", 0x4000_0040, Some(2)),
];
const DOS: [u8; 64] = [
    0x0e, 0x1f, 0xba, 0x0e, 0x00, 0xb4, 0x09, 0xcd, 0x21, 0xb8, 0x01, 0x4c, 0xcd, 0x21, b'T', b'h', b'i', b's', b' ', b'p', b'r', b'o', b'g', b'r', b'a', b'm', b' ', b'c', b'a',
    b'n', b'n', b'o', b't', b' ', b'b', b'e', b' ', b'r', b'u', b'n', b' ', b'i', b'n', b' ', b'D', b'O', b'S', b' ', b'm', b'o', b'd', b'e', b'.', 0x0d, 0x0d, 0x0a, 0x24, 0, 0, 0, 0, 0,
    0, 0,
];

fn image(g: &mut Gen) -> R {
    let is64 = g.bool();
    let (fa, sa) = if g.chance(3, 4) { (g.pickc(&[512u32, 4096, 0x200, 1024]), g.pickc(&[4096u32, 0x2000, 0x10000])) } else { (1 << g.upto(13), 1 << g.upto(16)) };
    let mut ndirs = g.pickc(&[16usize, 16, 16, 20, 0, 1, 2, 4, 6]);
    // Sections and other things in file order.
    let mut ops: Vec<Op> = vec![];
    let mut used = [false; 10];
    let mut v32 = || 0;
    let _ = &mut v32;
    for _ in 0..g.len(8) {
        let op = match g.upto(12) {
            0..=3 => {
                let data = g.blob(40);
                let vs = if g.bool() { data.len() as u32 } else { g.upto(0x3000) as u32 };
                let mut n = [0; 8];
                for b in &mut n {
                    *b = g.u8();
                }
                let cnt = g.pickc(&[0u32, 0x20, 0x40, 0x80, 0x60, 0xc0, 0xe0]);
                let flags = g.u32() & !0xe0 | cnt;
                Op::Section(0, n, flags, vs, data)
            }
            4..=7 => {
                let k = 1 + g.upto(8) as u8;
                if used[k as usize] && k >= IDATA || KINDS[k as usize].2.is_some_and(|d| d >= ndirs) {
                    continue;
                }
                used[k as usize] = true;
                let data = if k == 4 { vec![] } else { g.blob(60) };
                let vs = match k {
                    2 | 4 => g.upto(0x2000) as u32,
                    _ => data.len() as u32,
                };
                let (n, f, _) = KINDS[k as usize];
                Op::Section(k, *n, f, vs, data)
            }
            8 => Op::VirtualUntil(g.upto(0x5000) as u32),
            9 => Op::Virtual(g.upto(0x5000) as u32),
            10 => {
                let a = g.pickc(&[1u32, 2, 4, 16, 4096]);
                Op::Blob(g.blob(20), a)
            }
            11 => {
                if g.bool() {
                    Op::File(g.blob(20))
                } else {
                    Op::Align(1 << g.upto(9))
                }
            }
            _ => Op::Until(g.upto(700) as u32),
        };
        ops.push(op);
    }
    let mut relocs: Vec<(u32, u16)> = vec![];
    if g.chance(1, 2) && ndirs > 5 {
        let mut page = 0u32;
        for _ in 0..g.len(4) {
            page = page.saturating_add(g.pickc(&[0x1000u32, 0x2000, 0x1000, 0x10_0000]) + if g.chance(1, 20) { 0x7000_0000 } else { 0 }) & !0xfff;
            let n = if g.chance(1, 200) { g.range(1000, 5000) } else { g.range(1, 5) };
            for _ in 0..n {
                let a = page.wrapping_sub(0x1000) | g.upto(0xfff) as u32;
                relocs.push((a, g.upto(15) as u16));
            }
        }
        // Pages have to ascend.
        relocs.sort_by_key(|r| r.0 >> 12);
        ops.push(Op::Reloc);
    }
    if g.chance(1, 4) {
        if ndirs <= 4 {
            ndirs = 5;
        }
        let n = g.range(1, 40);
        ops.push(Op::Cert(g.bytes(n)));
    }
    let sections = ops.iter().filter(|o| matches!(o, Op::Section(..) | Op::Reloc)).count();
    // 0: empty header, 1: header with the standard stub, 2: custom.
    let dos = g.upto(2);
    let stub = if dos == 1 { vec![] } else { g.blob(60) };
    let gap = if g.chance(1, 4) { g.upto(100) as u32 } else { 0 };
    let image_base = if is64 { g.uint(64) } else { g.uint(32) };
    let mut big = || if is64 { g.uint(64) } else { g.uint(32) };
    let sizes = [big(), big(), big(), big()];
    let nt = wp::NtHeaders {
        machine: pe::Machine(g.u16()),
        time_date_stamp: g.u32(),
        characteristics: pe::FileFlags(g.u16()),
        major_linker_version: g.u8(),
        minor_linker_version: g.u8(),
        address_of_entry_point: g.u32(),
        image_base,
        major_operating_system_version: g.u16(),
        minor_operating_system_version: g.u16(),
        major_image_version: g.u16(),
        minor_image_version: g.u16(),
        major_subsystem_version: g.u16(),
        minor_subsystem_version: g.u16(),
        subsystem: pe::Subsystem(g.u16()),
        dll_characteristics: pe::DllFlags(g.u16()),
        size_of_stack_reserve: sizes[0],
        size_of_stack_commit: sizes[1],
        size_of_heap_reserve: sizes[2],
        size_of_heap_commit: sizes[3],
    };
    let mut rec = Recorder::new();
    rec.default_zeros = g.bool();
    let mut e = le();
    let mut parts: Vec<(String, u64)> = vec![];
    {
        let mut w = wp::Writer::new(is64, sa, fa, &mut rec);
        let up = |x: u64, a: u32| x.next_multiple_of(u64::from(a));
        let mut pos = 64;
        match dos {
            1 => {
                w.reserve_dos_header_and_stub();
                pos = 128;
            }
            _ => {
                w.reserve_dos_header();
                ensure_eq!(w.reserve(stub.len() as u32, 1), 64, "offset of the stub");
                pos += stub.len() as u64;
            }
        }
        if gap > 0 {
            pos += u64::from(gap);
            w.reserve_until(pos as u32);
        }
        ensure_eq!(w.reserved_len(), pos, "reserved length");
        w.reserve_nt_headers(ndirs);
        let nt_at = pos.next_multiple_of(8);
        ensure_eq!(u64::from(w.nt_headers_offset()), nt_at, "offset of the NT headers");
        let opt = if is64 { 112 } else { 96 } + 8 * ndirs as u64;
        pos = nt_at + 24 + opt;
        ensure_eq!(w.reserved_len(), pos, "reserved length after {} directories", ndirs);
        w.reserve_section_headers(sections as u16);
        pos = up(pos + 40 * sections as u64, fa);
        let headers = pos;
        ensure_eq!(w.reserved_len(), pos, "reserved length of the headers");
        let mut vpos = up(pos, sa);
        ensure_eq!(u64::from(w.virtual_len()), vpos, "virtual size of the headers");
        ensure_eq!(w.has_relocs(), false, "base relocations");
        for r in &relocs {
            w.add_reloc(r.0, pe::BaseRelocationType(r.1));
        }
        ensure_eq!(w.has_relocs(), !relocs.is_empty(), "base relocations");
        // Base relocation blocks.
        let mut blocks = le();
        let mut i = 0;
        while i < relocs.len() {
            let page = relocs[i].0 & !0xfff;
            let n = relocs[i..].iter().take_while(|r| r.0 & !0xfff == page).count();
            blocks.u32(page).u32(8 + 2 * (n + n % 2) as u32);
            for r in &relocs[i..i + n] {
                blocks.u16(r.1 << 12 | (r.0 & 0xfff) as u16);
            }
            if n % 2 == 1 {
                blocks.u16(0);
            }
            i += n;
        }
        let mut dirs = vec![(0u32, 0u32); ndirs];
        let (mut code, mut data, mut bss) = ((0u64, 0u64), (0u64, 0u64), 0u64);
        let mut heads = le();
        let mut at = vec![];
        for op in &ops {
            let start = pos;
            let mut here = 0;
            match op {
                Op::Section(..) | Op::Reloc => {
                    let (k, name, flags, vs, contents) = match op {
                        Op::Section(k, name, flags, vs, contents) => (*k, *name, *flags, *vs, contents.clone()),
                        _ => (255, *b".reloc\0\0", 0x4200_0040, blocks.len() as u32, blocks.v.clone()),
                    };
                    let n = contents.len() as u32;
                    let r = match k {
                        0 => w.reserve_section(name, pe::SectionFlags(flags), vs, n),
                        1 => w.reserve_text_section(n),
                        2 => w.reserve_data_section(vs, n),
                        3 => w.reserve_rdata_section(n),
                        4 => w.reserve_bss_section(vs),
                        5 => w.reserve_xdata_section(n),
                        6 => w.reserve_idata_section(n),
                        7 => w.reserve_edata_section(n),
                        8 => w.reserve_pdata_section(n),
                        9 => w.reserve_rsrc_section(n),
                        _ => w.reserve_reloc_section(),
                    };
                    let dir = if k == 255 { Some(5) } else { KINDS[k as usize].2 };
                    if let Some(d) = dir {
                        dirs[d] = (vpos as u32, n);
                    }
                    let size = up(n.into(), fa);
                    here = if size == 0 { 0 } else { up(pos, fa) };
                    let want = (vpos as u32, vs, here as u32, size as u32);
                    ensure_eq!((r.virtual_address, r.virtual_size, r.file_offset, r.file_size), want, "range of {:?} after {:#x}", op, pos);
                    heads.bytes(&name).u32(vs).u32(vpos as u32).u32(size as u32).u32(here as u32).u32(0).u32(0).u16(0).u16(0).u32(flags);
                    let t = up(vs.into(), fa);
                    let c = if flags & 0x20 != 0 {
                        code.1 += t;
                        Some(&mut code.0)
                    } else if flags & 0x40 != 0 {
                        data.1 += t;
                        Some(&mut data.0)
                    } else if flags & 0x80 != 0 {
                        bss += t;
                        Some(&mut data.0)
                    } else {
                        None
                    };
                    if let Some(c) = c {
                        if *c == 0 {
                            *c = vpos;
                        }
                    }
                    if size > 0 {
                        pos = here + size;
                    }
                    vpos = up(vpos + u64::from(vs), sa);
                }
                Op::VirtualUntil(n) => {
                    let a = vpos + u64::from(*n);
                    w.reserve_virtual_until(a as u32);
                    vpos = up(a, sa);
                }
                Op::Virtual(n) => {
                    ensure_eq!(u64::from(w.reserve_virtual(*n)), vpos, "reserved address");
                    vpos = up(vpos + u64::from(*n), sa);
                }
                Op::Blob(v, a) => {
                    let got = w.reserve(v.len() as u32, *a);
                    if !v.is_empty() {
                        here = up(pos, *a);
                        ensure_eq!(u64::from(got), here, "offset of a range aligned to {}", a);
                        pos = here + v.len() as u64;
                    }
                }
                Op::File(v) => {
                    let got = w.reserve_file(v.len() as u32);
                    if !v.is_empty() {
                        here = up(pos, fa);
                        ensure_eq!(u64::from(got), here, "offset of a file range");
                        pos = here + v.len() as u64;
                    }
                }
                Op::Until(n) => {
                    pos += u64::from(*n);
                    w.reserve_until(pos as u32);
                }
                Op::Align(a) => {
                    pos = up(pos, *a);
                    w.reserve_align(*a);
                }
                Op::Cert(v) => {
                    w.reserve_certificate_table(v.len() as u32);
                    here = pos.next_multiple_of(8);
                    let n = v.len().next_multiple_of(8) as u32;
                    dirs[4] = (here as u32, n);
                    pos = here + u64::from(n);
                }
            }
            ensure_eq!(w.reserved_len(), pos, "reserved length after {:?}", op);
            ensure_eq!(u64::from(w.virtual_len()), vpos, "virtual length after {:?}", op);
            at.push((here, pos));
            parts.push((format!("{op:.60?}"), start));
        }
        for _ in 0..g.len(3) {
            if ndirs > 0 {
                let i = g.below(ndirs);
                if i != 4 {
                    dirs[i] = (g.u32(), g.u32());
                    w.set_data_directory(i, dirs[i].0, dirs[i].1);
                }
            }
        }
        // Write.
        let mut words = [0u16; 29];
        match dos {
            0 => {
                must!(w.write_empty_dos_header(), "write_empty_dos_header");
            }
            1 => {
                must!(w.write_dos_header_and_stub(), "write_dos_header_and_stub");
                words = [0x90, 3, 0, 4, 0, 0xffff, 0, 0xb8, 0, 0, 0, 0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            }
            _ => {
                words = words.map(|_| g.u16());
                let h = pe::ImageDosHeader {
                    e_magic: 0x5a4d.into(),
                    e_cblp: words[0].into(),
                    e_cp: words[1].into(),
                    e_crlc: words[2].into(),
                    e_cparhdr: words[3].into(),
                    e_minalloc: words[4].into(),
                    e_maxalloc: words[5].into(),
                    e_ss: words[6].into(),
                    e_sp: words[7].into(),
                    e_csum: words[8].into(),
                    e_ip: words[9].into(),
                    e_cs: words[10].into(),
                    e_lfarlc: words[11].into(),
                    e_ovno: words[12].into(),
                    e_res: [13, 14, 15, 16].map(|i| words[i].into()),
                    e_oemid: words[17].into(),
                    e_oeminfo: words[18].into(),
                    e_res2: [19, 20, 21, 22, 23, 24, 25, 26, 27, 28].map(|i| words[i].into()),
                    e_lfanew: object::endian::U32::new(LE, nt_at as u32),
                };
                must!(w.write_custom_dos_header(&h), "write_custom_dos_header");
            }
        }
        e.u16(0x5a4d);
        words.iter().for_each(|x| {
            e.u16(*x);
        });
        e.u32(nt_at as u32);
        ensure_eq!(e.len(), 64, "size of the encoded DOS header");
        if dos == 1 {
            e.bytes(&DOS);
        } else {
            w.write(&stub);
            e.bytes(&stub);
        }
        e.zeros(nt_at as usize - e.len());
        w.write_nt_headers(nt.clone());
        e.bytes(b"PE\0\0").u16(nt.machine.0).u16(sections as u16).u32(nt.time_date_stamp).u32(0).u32(0).u16(opt as u16).u16(nt.characteristics.0);
        e.u16(if is64 { 0x20b } else { 0x10b }).u8(nt.major_linker_version).u8(nt.minor_linker_version);
        e.u32(code.1 as u32).u32(data.1 as u32).u32(bss as u32).u32(nt.address_of_entry_point).u32(code.0 as u32);
        if !is64 {
            e.u32(data.0 as u32);
        }
        let n = if is64 { 8 } else { 4 };
        e.int(n, nt.image_base).u32(sa).u32(fa);
        e.u16(nt.major_operating_system_version).u16(nt.minor_operating_system_version).u16(nt.major_image_version).u16(nt.minor_image_version);
        e.u16(nt.major_subsystem_version).u16(nt.minor_subsystem_version).u32(0).u32(vpos as u32).u32(headers as u32).u32(0);
        e.u16(nt.subsystem.0).u16(nt.dll_characteristics.0);
        sizes.iter().for_each(|x| {
            e.int(n, *x);
        });
        e.u32(0).u32(ndirs as u32);
        dirs.iter().for_each(|d| {
            e.u32(d.0).u32(d.1);
        });
        w.write_section_headers();
        e.bytes(&heads.v);
        ensure_eq!(w.len(), e.len() as u64, "length of the headers");
        if g.bool() {
            w.write_file_align();
        } else {
            w.pad_until(headers as u32);
        }
        e.zeros(headers as usize - e.len());
        ensure_eq!(w.len(), headers, "length of the padded headers");
        for (op, (here, end)) in ops.iter().zip(at) {
            match op {
                Op::Section(_, _, _, _, v) => {
                    if !v.is_empty() {
                        e.zeros(here as usize - e.len()).bytes(v);
                        if g.chance(1, 4) {
                            w.pad_until(here as u32);
                            w.write(v);
                            w.write_file_align();
                        } else {
                            w.write_section(here as u32, v);
                        }
                    } else {
                        w.write_section(here as u32, v);
                    }
                }
                Op::Reloc => {
                    if here > 0 {
                        e.zeros(here as usize - e.len()).bytes(&blocks.v);
                    }
                    w.write_reloc_section();
                }
                Op::Blob(v, a) => {
                    if !v.is_empty() {
                        e.zeros(here as usize - e.len()).bytes(v);
                        w.write_align(*a);
                        w.write(v);
                    }
                }
                Op::File(v) => {
                    if !v.is_empty() {
                        e.zeros(here as usize - e.len()).bytes(v);
                        w.write_file_align();
                        w.write(v);
                    }
                }
                Op::Align(a) => w.write_align(*a),
                Op::Until(_) => w.pad_until(end as u32),
                Op::Cert(v) => {
                    w.write_certificate_table(v);
                    e.zeros(here as usize - e.len()).bytes(v);
                }
                Op::Virtual(_) | Op::VirtualUntil(_) => {}
            }
            e.zeros(end as usize - e.len());
            ensure_eq!(w.len(), end, "length after {:?}", op);
        }
    }
    rec.check()?;
    g.file(&rec.data)?;
    compare(&rec.data, &e.v, &[], &parts)?;
    g.label_if(!relocs.is_empty(), "base relocations");
    g.label_if(ops.iter().any(|o| matches!(o, Op::Cert(_))), "certificates");
    g.label_if(ndirs != 16, "other number of directories");
    g.nontrivial_if(sections >= 2);
    g.sample(|| format!("{} bytes: 64-bit {is64}, alignments {sa:#x} {fa:#x}, {} operations, {} base relocations", rec.data.len(), ops.len(), relocs.len()));
    Ok(())
}

/// Files that are too large, and sinks that refuse.
fn limits(g: &mut Gen) -> R {
    let n = if g.bool() { g.pickc(&[0xffff_fff0u64, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x7_0000_0000, 1000, 5000]) } else { 200 + g.uint(36) };
    let mut rec = Recorder::new();
    rec.limit = g.pickc(&[u64::MAX, 4096, 0xffff_ffff, n, n - 1]);
    let limit = rec.limit;
    let is_coff = g.bool();
    let size;
    let got = if is_coff {
        let mut w = wc::Writer::new(&mut rec);
        w.reserve_file_header();
        if g.bool() {
            w.reserve_until(n);
        } else {
            w.reserve(n - 20, 1);
        }
        if g.bool() {
            must!(w.reserve_symtab_strtab(), "reserve_symtab_strtab");
        }
        size = w.reserved_len();
        w.write_file_header(wc::FileHeader::default())
    } else {
        let mut w = wp::Writer::new(g.bool(), 4096, 512, &mut rec);
        w.reserve_dos_header();
        let mut left = n - 64;
        while left > 0 {
            let k = left.min(0x8000_0000);
            w.reserve(k as u32, 1);
            left -= k;
        }
        size = w.reserved_len();
        if g.bool() { w.write_empty_dos_header() } else { w.write_dos_header_and_stub() }
    };
    ensure!(size >= n, "reserved length {size:#x} for {n:#x}");
    let fails = size > limit || size > 0xffff_ffff;
    ensure_eq!(got.is_err(), fails, "header of a file of {:#x} bytes, limit {:#x}: {:?}", size, limit, got);
    ensure!(got.is_ok() || rec.data.is_empty(), "bytes written after an error");
    g.label_if(size > 0xffff_ffff, "too large");
    g.label_if(size > limit, "refused");
    g.nontrivial();
    g.sample(|| format!("COFF {is_coff} {size:#x} bytes: {:?}", got.is_ok()));
    Ok(())
}

fn main() {
    run(
        "C28",
        "a case is non-trivial when a COFF file has at least four sections and symbols, or an image at least two sections",
        &[
            "the documented preconditions hold: ranges are written in the order in which they were reserved, base relocations are added by ascending page, directories exist, alignments are powers of two",
            "sizes of code and data in the optional header add up virtual sizes with the file alignment",
            "a file that does not fit 32-bit file offsets is an error",
        ],
        &[sub("coff", 500_000, 15_000_000, coff), sub("pe", 1_500_000, 40_000_000, image), sub("limits", 50_000, 1_000_000, limits)],
    )
}
