//! C30: an ELF file read into the builder and written again is the same file to its users.
use object::build::elf as be;
use object::build::elf::Builder;
use object::elf as c;
use vh::elfmodel::*;
use vh::sink::*;
use vh::*;

/// Read and write without changes.
pub fn rewrite(g: &mut Gen, v: &[u8]) -> R<Vec<u8>> {
    let b = must!(Builder::read(v), "Builder::read");
    let mut r = Recorder { default_zeros: g.bool(), ..Recorder::new() };
    must!(b.write(&mut r), "Builder::write");
    r.check()?;
    Ok(r.data)
}

/// What the builder says about the file that it has read.
fn views(g: &mut Gen, v: &[u8], m: &Model) -> R {
    let mut b = must!(Builder::read(v), "Builder::read");
    let ids: Vec<_> = b.sections.iter().map(|s| s.id()).collect();
    ensure_eq!(ids.len(), m.secs.len(), "sections");
    for (x, s) in b.sections.iter().zip(&m.secs) {
        ensure_eq!(x.is_alloc(), s.flags & 2 != 0, "is_alloc of section {:?}", x.name);
        let p = 4 | if s.flags & 1 != 0 { 2 } else { 0 } | if s.flags & 4 != 0 { 1 } else { 0 };
        ensure_eq!(x.p_flags().0, p, "p_flags of section {:?} with flags {:#x}", x.name, s.flags);
    }
    for (ty, got) in [(2u32, b.dynamic_section()), (3, b.interp_section())] {
        let want = m.segs.iter().find(|p| p.s.ty == ty).and_then(|p| p.secs.first()).map(|i| ids[*i]);
        ensure_eq!(got, want, "section for the segment of type {ty}");
    }
    let data = |id: Option<be::SectionId>| id.and_then(|id| ids.iter().position(|x| *x == id)).map(|i| &m.secs[i]);
    let want = match data(b.interp_section()) {
        // Notes are kept apart from other contents.
        Some(MSec { data: Data::Bytes(d), ty, .. }) if *ty != 7 => Some(&d[..]),
        _ => None,
    };
    ensure_eq!(b.interp_data(), want, "interp_data");
    let want = match data(b.dynamic_section()) {
        Some(MSec { data: Data::Dynamic(d), .. }) => Some(d.iter().map(|x| x.0).collect::<Vec<_>>()),
        _ => None,
    };
    ensure_eq!(b.dynamic_data().map(|d| d.iter().map(|x| x.tag().0).collect::<Vec<_>>()), want, "tags of dynamic_data");
    ensure_eq!(b.interp_data_mut().map(|d| d.len()), b.interp_data().map(|d| d.len()), "interp_data_mut");
    ensure_eq!(b.dynamic_data_mut().map(|d| d.len()), b.dynamic_data().map(|d| d.len()), "dynamic_data_mut");
    macro_rules! syms {
        ($syms:expr, $want:expr) => {
            ensure_eq!($syms.iter().count(), $want.len(), "symbols");
            ensure_eq!($syms.count_defined(), $want.iter().filter(|y| y.sec.is_some() || y.shndx != 0).count(), "count_defined");
            for (x, y) in $syms.iter_mut().zip($want) {
                ensure_eq!((x.st_bind().0, x.st_type().0), (y.info >> 4, y.info & 15), "st_bind and st_type of {:#x}", y.info);
                let (bind, ty) = (g.upto(15) as u8, g.upto(15) as u8);
                x.set_st_info(c::SymbolBind(bind), c::SymbolType(ty));
                ensure_eq!(x.st_info.0, bind << 4 | ty, "set_st_info({bind}, {ty})");
            }
        };
    }
    syms!(b.symbols, &m.syms);
    syms!(b.dynamic_symbols, &m.dsyms);
    Ok(())
}

fn roundtrip(g: &mut Gen) -> R {
    let mut m = gen_model(g);
    let v = m.encode(g);
    g.file(&v)?;
    // The generator and the decoder agree.
    let own = decode(&v).map_err(|e| Failure::from(format!("generated file: {}", e.msg)))?;
    same(&own, &m).map_err(|e| Failure::from(format!("generated file: {}", e.msg)))?;
    if g.chance(1, 4) {
        views(g, &v, &own)?;
    }
    let mut want = m.clone();
    want.delete_orphans();
    want.delete_unused_versions();
    let want = want.compact()?;
    let out = rewrite(g, &v)?;
    let got = decode(&out)?;
    same(&got, &want)?;
    mapped(&got, &out)?;
    if want.segs.is_empty() {
        // Only contents take space in the file.
        let img = elf::parse(&out)?;
        let room: u64 = img.secs.iter().map(|s| 80 + s.align + if s.ty == 8 { 0 } else { s.data.len() as u64 }).sum();
        ensure!(out.len() as u64 <= 128 + room, "{} bytes written for at most {room} bytes of contents", out.len());
    }
    // Dropping unused versions leaves gaps in the numbers that the second pass closes.
    let again = rewrite(g, &out)?;
    same(&decode(&again)?, &want).map_err(|e| Failure::from(format!("second pass: {}", e.msg)))?;
    let third = rewrite(g, &again)?;
    let diff = |a: &[u8], b: &[u8]| a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
    ensure!(third == again, "the third pass differs from the second at {:#x} of {:#x} bytes", diff(&again, &third), again.len());
    if want.vers.len() == m.vers.len() {
        ensure!(again == out, "the second pass differs from the first at {:#x} of {:#x} bytes", diff(&again, &out), out.len());
    }
    g.nontrivial_if(m.secs.len() > 3 && m.syms.len() + m.dsyms.len() > 1);
    g.label(if m.segs.is_empty() { "relocatable" } else { "linked" });
    g.label_if(m.secs.iter().any(|s| matches!(&s.data, Data::Rel(r) if r.len() > 1)), "relocations");
    g.label_if(m.secs.iter().any(|s| matches!(&s.data, Data::DRel(r) if r.len() > 1)), "dynamic relocations");
    g.label_if(m.secs.iter().any(|s| matches!(&s.data, Data::Attrs(_))), "attributes");
    g.label_if(m.secs.iter().any(|s| matches!(&s.data, Data::Dynamic(d) if d.len() > 1)), "dynamic entries");
    g.label_if(!want.vers.is_empty(), "versions");
    g.label_if(m.find(&Data::Shndx).is_some(), "extended symbol indices");
    g.label_if(m.secs.is_empty(), "no sections");
    g.sample(|| format!("{} sections, {} segments, {} + {} symbols, {} bytes", m.secs.len(), m.segs.len(), m.syms.len(), m.dsyms.len(), v.len()));
    Ok(())
}

/// What the builder does not support is rejected when reading or writing, not dropped or damaged.
fn rejects(g: &mut Gen) -> R {
    let mut m = gen_model(g);
    let n = m.secs.len();
    if m.vbase.is_some() && g.chance(1, 4) {
        return base_version(g, &mut m);
    }
    if m.find(&Data::Versym).is_some() && g.chance(1, 6) {
        // The table of symbol versions must have an entry for every symbol.
        let mut v = m.encode(g);
        let img = elf::parse(&v)?;
        let i = must_some!(img.secs.iter().position(|s| s.ty == 0x6fff_ffff), "no symbol versions");
        let (be, size) = (m.be, img.secs[i].data.len() as u64);
        let (at, w) = if m.is64 { (get(&v, 40, 8, be) as usize + 64 * i + 32, 8) } else { (get(&v, 32, 4, be) as usize + 40 * i + 20, 4) };
        ensure_eq!(get(&v, at, w, be), size, "sh_size");
        let size = if g.bool() || size < 2 { size + 2 * g.range64(1, 3) } else { size - 2 };
        let x = if be { size.to_be_bytes()[8 - w..].to_vec() } else { size.to_le_bytes()[..w].to_vec() };
        v[at..at + w].copy_from_slice(&x);
        g.file(&v)?;
        if size != 0 {
            if let Ok(b) = Builder::read(&v[..]) {
                ensure!(b.write(&mut vec![]).is_err(), "accepted: {size} bytes of versions for {} symbols", m.dsyms.len());
            }
        }
        g.label("version table size");
        g.nontrivial();
        return Ok(());
    }
    let what = match g.upto(5) {
        0 => {
            let ty = g.pickc(&[10u32, 12, 13, 17, 20, 0x60000000, 0x6ffffff7, 0x6ffffffb, 0x7fffffff, 0x80000000, 0x70000002, 0x70000010]);
            let s = MSec::new(b".odd", ty, g.pickc(&[0u64, 2]), 1, Data::Bytes(vec![0; 8 * g.range(1, 4)]));
            m.secs.push(s);
            "unknown section type"
        }
        1 => {
            m.secs.push(MSec::new(b".strings", 3, 0, 1, Data::Bytes(b"\0abc\0".to_vec())));
            "string table of unknown use"
        }
        2 if m.find(&Data::Sym).is_some() => {
            let mut s = MSec::new(b".symtab2", 2, 0, m.word(), Data::Bytes(vec![0; if m.is64 { 24 } else { 16 }]));
            s.entsize = if m.is64 { 24 } else { 16 };
            s.link = m.find(&Data::Str);
            s.info = 1;
            m.secs.push(s);
            "second symbol table"
        }
        3 if m.find(&Data::Sym).is_some() && !m.syms.is_empty() && !m.segs.is_empty() => {
            let mut s = MSec::new(b".rela.a", 4, 2, m.word(), Data::Rel(vec![MRel { off: 0, sym: Some(g.below(m.syms.len())), ty: 1, addend: 0 }]));
            s.entsize = 3 * m.word();
            s.link = m.find(&Data::Sym);
            m.secs.push(s);
            "loaded relocations that refer to static symbols"
        }
        4 if m.find(&Data::DSym).is_some() && m.find(&Data::Sym).is_none() => {
            // One string table for two purposes.
            let (a, b) = (m.find(&Data::DStr).unwrap(), m.find(&Data::ShStr).unwrap());
            let v = m.encode(g);
            let mut img = elf::parse(&v)?;
            img.shstrndx = a + 1;
            img.secs[b + 1].ty = 1;
            img.secs.iter_mut().skip(1).for_each(|s| s.name_off = 0);
            let v = img.emit();
            g.file(&v)?;
            if let Ok(b) = Builder::read(&v[..]) {
                ensure!(b.write(&mut vec![]).is_err(), "sections named in the dynamic string table were accepted");
            }
            g.nontrivial();
            return Ok(());
        }
        _ => {
            m.secs.push(MSec::new(b".symtab_shndx2", 18, 0, 4, Data::Bytes(vec![0; 4 * g.range(1, 3)])));
            "section indices for no symbol table"
        }
    };
    if m.segs.is_empty() {
        m.secs[n].flags = 0;
    } else if m.secs[n].alloc() && !m.segs.iter().any(|p| p.s.ty == 1) {
        m.segs.push(MSeg { s: elf::Seg { ty: 1, ..Default::default() }, ..Default::default() });
    }
    let v = m.encode(g);
    g.file(&v)?;
    if let Ok(b) = Builder::read(&v[..]) {
        ensure!(b.write(&mut vec![]).is_err(), "accepted: {what} (type {:#x}, machine {})", m.secs[n].ty, m.h.machine);
    }
    g.label(what);
    g.nontrivial();
    Ok(())
}

/// Base versions that the builder can't represent.
fn base_version(g: &mut Gen, m: &mut Model) -> R {
    let mut v = m.encode(g);
    let img = elf::parse(&v)?;
    let sec = must_some!(img.secs.iter().find(|s| s.ty == 0x6fff_fffd), "no version definitions");
    let (be, mut at, mut defs) = (m.be, sec.off as usize, vec![]);
    for _ in 0..sec.info {
        defs.push(at);
        at += get(&v, at + 16, 4, be) as usize;
    }
    let base = *must_some!(defs.iter().find(|d| get(&v, **d + 2, 2, be) & 1 != 0), "no base version");
    let other = defs.iter().find(|d| get(&v, **d + 2, 2, be) & 1 == 0);
    let mut set = |at: usize, x: u16| v[at..at + 2].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
    let what = match (g.upto(3), other) {
        (0, _) => {
            set(base + 2, 1 | g.range(1, 7) as u16 * 2);
            "base version with other flags"
        }
        (1, _) => {
            set(base + 4, g.range(2, 9) as u16);
            "base version with another index"
        }
        (2, Some(o)) => {
            set(*o + 2, 1);
            set(*o + 4, 1);
            set(*o + 6, 1);
            "two base versions"
        }
        _ => {
            set(base + 6, g.pickc(&[0u16, 2, 3]));
            "base version with another number of names"
        }
    };
    g.file(&v)?;
    if let Ok(b) = Builder::read(&v[..]) {
        ensure!(b.write(&mut vec![]).is_err(), "accepted: {what}");
    }
    g.label(what);
    g.nontrivial();
    Ok(())
}

/// Damaged files are rejected, or give something that can be read again; never a panic.
fn damaged(g: &mut Gen) -> R {
    let mut m = gen_model(g);
    let mut v = m.encode(g);
    let be = m.be;
    let shoff = if m.is64 { get(&v, 40, 8, be) } else { get(&v, 32, 4, be) } as usize;
    for _ in 0..g.range(1, 3) {
        if v.is_empty() {
            break;
        }
        // Header and section headers are more likely.
        let at = match g.upto(4) {
            0 => g.below(v.len().min(if m.is64 { 120 } else { 84 })),
            1 | 2 if shoff != 0 && shoff < v.len() => shoff + g.below(v.len() - shoff),
            _ => g.below(v.len()),
        };
        match g.upto(7) {
            0 => v.truncate(at),
            1 => v[at] ^= 1 << g.upto(7),
            2 => v[at] = g.u8(),
            _ => {
                let w = g.pickc(&[2usize, 4, 4, 8]);
                let at = at / w * w;
                let x = match g.upto(4) {
                    0 => g.pickc(&[0u64, 1, 0x7fff_ffff, 0xffff_ffff, !0, 0xfff0, 0xff00, 1 << 63]),
                    1 => v.len() as u64,
                    2 => g.upto(v.len() as u64),
                    3 => g.upto(m.secs.len() as u64 + 2),
                    _ => g.uint(64),
                };
                for k in 0..w {
                    if let Some(y) = v.get_mut(at + k) {
                        *y = (x >> (8 * if be { w - 1 - k } else { k })) as u8;
                    }
                }
            }
        }
    }
    g.file(&v)?;
    g.sample(|| format!("{} bytes", v.len()));
    let Ok(mut b) = Builder::read(&v[..]) else {
        g.label("rejected");
        return Ok(());
    };
    g.nontrivial();
    let edit = g.upto(3);
    // An edit may remove what the result needs to be read again.
    let edited = edit < 2;
    match edit {
        0 => {
            let ids: Vec<_> = b.sections.iter().map(|x| x.id()).collect();
            if !ids.is_empty() {
                b.sections.get_mut(*g.pick(&ids)).delete = true;
            }
        }
        1 => {
            let ids: Vec<_> = b.dynamic_symbols.iter().map(|x| x.id()).collect();
            if !ids.is_empty() {
                b.dynamic_symbols.get_mut(*g.pick(&ids)).delete = true;
            }
        }
        _ => {}
    }
    let mut r = Recorder { default_zeros: false, limit: 1 << 22, ..Recorder::new() };
    if b.write(&mut r).is_ok() {
        g.label("written");
        r.check()?;
        // A file without section headers can be written, but not read.
        let shnum = get(&r.data, if v[4] == 2 { 60 } else { 48 }, 2, v[5] == 2);
        if !edited && shnum != 0 {
            must!(Builder::read(&r.data[..]), "reading what was written from a damaged file");
        }
    }
    Ok(())
}

/// Numbers of sections around the limit of the 16-bit fields.
fn many(g: &mut Gen) -> R {
    use object::build::elf as be;
    let (is64, big) = (g.bool(), g.bool());
    let mut b = Builder::new(if big { object::Endianness::Big } else { object::Endianness::Little }, is64);
    b.header.e_type = object::elf::ET_REL;
    b.header.e_machine = object::elf::EM_X86_64;
    // With the null section, .symtab, .strtab, .shstrtab and maybe .symtab_shndx.
    let n = 0xff03 - g.range(0, 6);
    let ids: Vec<_> = (0..n)
        .map(|i| {
            let s = b.sections.add();
            s.name = b".s".to_vec().into();
            s.sh_type = object::elf::SHT_PROGBITS;
            s.sh_addralign = 1;
            s.data = be::SectionData::Data(if i % 1000 == 0 { vec![i as u8; 3] } else { vec![] }.into());
            s.id()
        })
        .collect();
    let mut tables = vec![(b".symtab".to_vec(), object::elf::SHT_SYMTAB, be::SectionData::Symbol), (b".strtab".to_vec(), object::elf::SHT_STRTAB, be::SectionData::String), (b".shstrtab".to_vec(), object::elf::SHT_STRTAB, be::SectionData::SectionString)];
    if g.bool() {
        tables.push((b".symtab_shndx".to_vec(), object::elf::SHT_SYMTAB_SHNDX, be::SectionData::SymbolSectionIndex));
    }
    let shndx = tables.len() > 3;
    for (name, ty, data) in tables {
        let s = b.sections.add();
        s.name = name.into();
        s.sh_type = ty;
        s.data = data;
    }
    let mut want = vec![];
    for k in 0..g.range(1, 4) {
        let i = if g.chance(3, 4) { n - 1 - g.range(0, 5) } else { g.below(n) };
        let y = b.symbols.add();
        y.name = format!("s{k}").into_bytes().into();
        y.section = Some(ids[i]);
        y.st_info = object::elf::SymbolInfo(0x11);
        want.push(i + 1);
    }
    let over = want.iter().any(|i| *i >= 0xff00);
    g.nontrivial();
    g.label(if over { "over the limit" } else { "below the limit" });
    g.sample(|| format!("{n} sections, symbols in {want:?}"));
    let mut v = vec![];
    match b.write(&mut v) {
        Ok(()) => {}
        Err(e) => {
            ensure!(over && !shndx, "unexpected error {e:?}");
            return Ok(());
        }
    }
    let img = elf::parse(&v)?;
    let first = must_some!(img.secs.iter().position(|s| s.data == [0; 3]), "first section");
    let at = must_some!(img.secs.iter().position(|s| s.ty == 2), "symbol table");
    let syms = img.symbols(at)?;
    ensure_eq!(syms.len(), want.len() + 1, "number of symbols");
    for (i, w) in want.iter().enumerate() {
        let y = &syms[i + 1];
        let x = if y.shndx == 0xffff { y.xshndx as usize } else { y.shndx as usize };
        ensure!(y.shndx < 0xff00 || y.shndx == 0xffff, "section of symbol {i}: st_shndx {:#x}", y.shndx);
        ensure_eq!(x, w - 1 + first, "section of symbol {i} (st_shndx {:#x})", y.shndx);
    }
    let own = must!(Builder::read(&v[..]), "Builder::read");
    for (i, (y, w)) in own.symbols.iter().zip(&want).enumerate() {
        let x = must_some!(y.section, "section of symbol {i} in the builder");
        ensure_eq!(own.sections.iter().position(|s| s.id() == x), Some(w - 1), "section of symbol {i} in the builder");
    }
    Ok(())
}

fn get(v: &[u8], at: usize, n: usize, be: bool) -> u64 {
    let b = &v[at.min(v.len())..(at + n).min(v.len())];
    let f = |a, x: &u8| a << 8 | *x as u64;
    if be { b.iter().fold(0, f) } else { b.iter().rev().fold(0, f) }
}

fn main() {
    run(
        "C30",
        "a case is non-trivial when the file has more than three sections and more than one symbol, or something unsupported",
        &[
            "sections are of the kinds the builder supports; section names, symbol names and dynamic names are in separate string tables",
            "program headers follow the file header and loaded contents are in sections, as the documentation demands",
            "the flags, alignment and entry size of generated tables are the conventional ones",
        ],
        &[sub("roundtrip", 300_000, 20_000_000, roundtrip), sub("rejects", 60_000, 2_000_000, rejects), sub("damaged", 300_000, 30_000_000, damaged), sub("many", 60, 2000, many)],
    )
}
