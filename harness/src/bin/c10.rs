//! C10: COFF objects and short import files are read exactly.
use object::read::coff::{CoffFile, CoffHeader, ImportFile, ImportName, ImportType, Symbol as _};
use object::read::*;
use object::{LittleEndian as LE, pe};
use vh::b::*;
use vh::coff::*;
use vh::coffchk::*;
use vh::*;


fn assoc(c: &Coff, y: &CSym) -> (u8, u32) {
    let mut d = y.d().at(12);
    let lo = d.u16().unwrap() as u32;
    let sel = d.u8().unwrap();
    let hi = if c.big { d.at(16).u16().unwrap() as u32 } else { 0 };
    (sel, hi << 16 | lo)
}

fn check_object<'a>(g: &mut Gen, c: &Coff, v: &'a [u8], f: &impl Object<'a>) -> R {
    ensure_eq!(f.architecture(), arch(c.machine), "architecture");
    ensure_eq!(f.sub_architecture(), if c.machine == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }, "sub_architecture");
    ensure_eq!((f.is_little_endian(), f.is_64(), f.kind()), (c.machine != 0x1f2, false, ObjectKind::Relocatable), "file properties");
    ensure_eq!((f.entry(), f.relative_address_base()), (0, 0), "entry");
    ensure_eq!(f.flags(), FileFlags::Coff { characteristics: pe::FileFlags(if c.big { 0 } else { c.chars }) }, "flags");
    let n = c.secs.len();
    ensure_eq!(f.sections().map(|s| s.index().0).collect::<Vec<_>>(), (1..=n).collect::<Vec<_>>(), "section indices");
    ensure_eq!(f.segments().count(), n, "segments");
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(n + 1)).is_err(), "section index out of range accepted");
    for (i, (w, p)) in c.secs.iter().zip(f.segments()).enumerate() {
        let s = must!(f.section_by_index(SectionIndex(i + 1)), "section");
        ensure_eq!(s.name_bytes(), Ok(&w.name[..]), "section {i} name_bytes");
        ensure_eq!(s.name().ok(), std::str::from_utf8(&w.name).ok(), "section {i} name");
        ensure_eq!(s.segment_name_bytes(), Ok(None), "section {i} segment name");
        ensure_eq!((s.address(), s.size()), (w.vaddr as u64, w.raw_size as u64), "section {i} address and size");
        let a = w.chars >> 20 & 15;
        let align = if (1..=14).contains(&a) { 1u64 << (a - 1) } else { 16 };
        ensure_eq!(s.align(), align, "section {i} align for {:#x}", w.chars);
        ensure_eq!(s.kind(), sec_kind(w.chars), "section {i} kind for {:#x}", w.chars);
        ensure_eq!(s.flags(), SectionFlags::Coff { characteristics: pe::SectionFlags(w.chars) }, "section {i} flags");
        let range = if w.chars & SCN_UNINIT != 0 { None } else { Some((w.raw_off as u64, w.raw_size as u64)) };
        ensure_eq!(s.file_range(), range, "section {i} file_range");
        ensure_eq!(s.data(), Ok(&w.data[..]), "section {i} data");
        ensure_eq!(must!(s.uncompressed_data(), "uncompressed"), &w.data[..], "section {i} uncompressed_data");
        let (o, k) = (g.upto(w.data.len() as u64), g.upto(6));
        let want = w.data.get(o as usize..(o + k) as usize);
        ensure_eq!(s.data_range(w.vaddr as u64 + o, k), Ok(want), "section {i} data_range");
        if w.vaddr > 0 {
            ensure_eq!(s.data_range(w.vaddr as u64 - 1, 1), Ok(None), "section {i} data_range before its address");
        }
        // Segments mirror the sections.
        ensure_eq!((p.address(), p.size(), p.align(), p.file_range()), (w.vaddr as u64, w.vsize as u64, align, range.unwrap_or((0, 0))), "segment {i}");
        ensure_eq!(p.data(), Ok(&w.data[..]), "segment {i} data");
        ensure_eq!(p.name_bytes(), Ok(Some(&w.name[..])), "segment {i} name");
        ensure_eq!(p.flags(), SegmentFlags::Coff { characteristics: pe::SectionFlags(w.chars) }, "segment {i} flags");
        ensure_eq!(p.permissions(), Permissions::new(w.chars & SCN_READ != 0, w.chars & SCN_WRITE != 0, w.chars & SCN_EXECUTE != 0), "segment {i} permissions");
        let mut it = s.relocations();
        for (j, r) in w.rels.iter().enumerate() {
            let (off, x) = must_some!(it.next(), "section {i} relocation {j} of {}", w.rels.len());
            let (k, e, sz, add) = meaning(c.machine, r.ty);
            ensure_eq!(
                (off, x.target(), x.addend(), x.size(), x.has_implicit_addend(), x.flags()),
                (r.off as u64, RelocationTarget::Symbol(SymbolIndex(r.sym as usize)), add, sz, true, RelocationFlags::Coff { typ: pe::RelocationType(r.ty) }),
                "section {i} relocation {j}"
            );
            if j < 100 {
                ensure_eq!((format!("{:?}", x.kind()), format!("{:?}", x.encoding())), (k.to_string(), e.to_string()), "section {i} relocation {j} machine {:#x} type {:#x}", c.machine, r.ty);
            }
        }
        ensure!(it.next().is_none(), "section {i} has extra relocations");
        let first = c.secs.iter().position(|x| x.name == w.name).unwrap();
        ensure_eq!(f.section_by_name_bytes(&w.name).map(|s| s.index().0), Some(first + 1), "section_by_name_bytes");
    }
    ensure!(f.section_by_name("no such section").is_none(), "section_by_name of a missing name");
    ensure!(f.dynamic_relocations().is_none() && f.dynamic_symbol_table().is_none() && f.dynamic_symbols().next().is_none(), "dynamic tables");
    ensure_eq!(f.has_debug_symbols(), c.secs.iter().any(|s| s.name == b".debug_info"), "has_debug_symbols");
    let va = c.vaddrs();
    let mut it = f.symbols();
    let t = must_some!(f.symbol_table(), "symbol_table");
    let mut it2 = t.symbols();
    for y in &c.syms {
        check_symbol(&va, c.big, 0, y, &must_some!(it.next(), "symbol {}", y.index))?;
        check_symbol(&va, c.big, 0, y, &must_some!(it2.next(), "table symbol {}", y.index))?;
        check_symbol(&va, c.big, 0, y, &must!(f.symbol_by_index(SymbolIndex(y.index)), "symbol_by_index"))?;
        check_symbol(&va, c.big, 0, y, &must!(t.symbol_by_index(SymbolIndex(y.index)), "table symbol_by_index"))?;
    }
    ensure!(it.next().is_none() && it2.next().is_none(), "extra symbols");
    ensure!(f.symbol_by_index(SymbolIndex(c.nsyms as usize)).is_err(), "symbol index out of range accepted");
    check_comdats(g, c, f)?;
    let _ = v;
    Ok(())
}

fn check_low<'a, H: CoffHeader>(c: &Coff, v: &'a [u8]) -> R {
    let mut off = 0;
    let h = must!(H::parse(v, &mut off), "header");
    ensure_eq!(off as usize, if c.big { 56 } else { 20 + c.opt.len() }, "section table offset");
    ensure_eq!((h.machine().0, h.number_of_sections() as usize, h.pointer_to_symbol_table(), h.number_of_symbols()), (c.machine, c.secs.len(), c.sym_off, c.nsyms), "header");
    let secs = must!(h.sections(v, off), "sections");
    let syms = must!(h.symbols(v), "symbols");
    ensure_eq!((secs.len(), syms.len()), (c.secs.len(), c.nsyms as usize), "table sizes");
    ensure_eq!((secs.is_empty(), syms.is_empty()), (c.secs.is_empty(), c.nsyms == 0), "empty tables");
    let strings = syms.strings();
    let mut max = 0;
    for ((i, s), w) in secs.enumerate().zip(&c.secs) {
        ensure_eq!(s.name, w.raw_name, "raw section name");
        ensure_eq!(s.name(strings), Ok(&w.name[..]), "section name");
        ensure_eq!((s.virtual_size.get(LE), s.virtual_address.get(LE), s.size_of_raw_data.get(LE), s.pointer_to_raw_data.get(LE)), (w.vsize, w.vaddr, w.raw_size, w.raw_off), "section header {i}");
        ensure_eq!((s.pointer_to_relocations.get(LE), s.pointer_to_linenumbers.get(LE), s.number_of_relocations.get(LE), s.number_of_linenumbers.get(LE)), (w.rel_off, w.line_off, w.nrel, w.nline), "section header {i}");
        ensure_eq!(s.characteristics.get(LE).0, w.chars, "section characteristics");
        max = max.max(w.raw_off as u64 + w.raw_size as u64);
        let found = must_some!(secs.section_by_name(strings, &w.name), "section_by_name");
        ensure_eq!(found.0.0, c.secs.iter().position(|x| x.name == w.name).unwrap() + 1, "section_by_name");
        let rels = must!(s.coff_relocations(v), "coff_relocations");
        ensure_eq!(rels.len(), w.rels.len(), "coff_relocations");
        for (r, w) in rels.iter().zip(&w.rels) {
            ensure_eq!((r.virtual_address.get(LE), r.symbol().0 as u32, r.typ.get(LE).0), (w.off, w.sym, w.ty), "raw relocation");
        }
    }
    ensure_eq!(secs.max_section_file_offset(), max, "max_section_file_offset");
    let mut it = syms.iter();
    for y in &c.syms {
        let (i, s) = must_some!(it.next(), "symbol");
        ensure_eq!(i.0, y.index, "symbol index");
        ensure_eq!((s.raw_name(), s.value(), s.section_number().0, s.typ().0, s.storage_class().0, s.number_of_aux_symbols() as usize), (&y.raw_name, y.value, y.sec, y.ty, y.class, y.aux.len()), "raw symbol {}", y.index);
        ensure_eq!(s.name(strings), Ok(&y.name[..]), "raw symbol name");
        ensure_eq!((s.base_type().0, s.derived_type().0), (y.ty & 15, (y.ty >> 4) & 3), "symbol type parts");
        ensure_eq!(s.has_aux_file_name(), !y.aux.is_empty() && y.class == C_FILE, "has_aux_file_name");
        ensure_eq!((s.has_aux_function(), s.has_aux_section()), (y.has_aux_function(), y.has_aux_section()), "has_aux");
        ensure_eq!(s.has_aux_weak_external(), !y.aux.is_empty() && y.class == C_WEAK && y.sec == 0 && y.value == 0, "has_aux_weak_external");
        if !y.aux.is_empty() {
            let mut d = y.d();
            let a = must!(syms.aux_section(i), "aux_section");
            ensure_eq!((a.length.get(LE), a.number_of_relocations.get(LE), a.number_of_linenumbers.get(LE), a.check_sum.get(LE), a.number.get(LE), a.selection.0),
                (d.u32().unwrap(), d.u16().unwrap(), d.u16().unwrap(), d.u32().unwrap(), d.u16().unwrap(), d.u8().unwrap()), "aux_section");
            ensure_eq!(a.high_number.get(LE), y.d().at(16).u16().unwrap(), "aux_section high number");
            let a = must!(syms.aux_function(i), "aux_function");
            let mut d = y.d();
            ensure_eq!((a.tag_index.get(LE), a.total_size.get(LE), a.pointer_to_linenumber.get(LE), a.pointer_to_next_function.get(LE)),
                (d.u32().unwrap(), d.u32().unwrap(), d.u32().unwrap(), d.u32().unwrap()), "aux_function");
            let a = must!(syms.aux_weak_external(i), "aux_weak_external");
            let mut d = y.d();
            ensure_eq!((a.default_symbol().0 as u32, a.weak_search_type.get(LE).0), (d.u32().unwrap(), d.u32().unwrap()), "aux_weak_external");
        }
    }
    ensure!(it.next().is_none(), "extra symbol");
    Ok(())
}

fn check_all(g: &mut Gen, c: &Coff, v: &[u8]) -> R {
    if c.big {
        check_low::<pe::AnonObjectHeaderBigobj>(c, v)?;
        check_object(g, c, v, &must!(CoffFile::<_, pe::AnonObjectHeaderBigobj>::parse(v), "parse"))?;
        ensure!(CoffFile::<_, pe::ImageFileHeader>::parse(v).map_or(true, |f| f.sections().count() != c.secs.len() || c.secs.len() == 0xffff), "bigobj read as a regular object");
    } else {
        check_low::<pe::ImageFileHeader>(c, v)?;
        check_object(g, c, v, &must!(CoffFile::<_, pe::ImageFileHeader>::parse(v), "parse"))?;
        ensure!(CoffFile::<_, pe::AnonObjectHeaderBigobj>::parse(v).is_err(), "regular object read as bigobj");
    }
    if c.big && c.version == 2 && MACHINES.contains(&c.machine) || !c.big && [0x8664, 0x14c, 0x1c4, 0xaa64, 0xa641].contains(&c.machine) {
        let f = must!(File::parse(v), "File::parse");
        ensure_eq!(f.format(), BinaryFormat::Coff, "format");
        check_object(g, c, v, &f)?;
    }
    Ok(())
}

fn check_comdats<'a>(g: &mut Gen, c: &Coff, f: &impl Object<'a>) -> R {
    let mut it = f.comdats();
    for (i, y) in c.syms.iter().enumerate() {
        if !y.has_aux_section() || y.sec <= 0 {
            continue;
        }
        let (sel, _) = assoc(c, y);
        if sel == 0 || sel == 5 {
            continue;
        }
        let Some(x) = c.syms[i + 1..].iter().find(|x| x.sec == y.sec) else { continue };
        g.label("comdat");
        let m = must_some!(it.next(), "comdat missing");
        let kind = match sel {
            1 => ComdatKind::NoDuplicates,
            2 => ComdatKind::Any,
            3 => ComdatKind::SameSize,
            4 => ComdatKind::ExactMatch,
            6 => ComdatKind::Largest,
            7 => ComdatKind::Newest,
            _ => ComdatKind::Unknown,
        };
        ensure_eq!((m.kind(), m.symbol().0), (kind, x.index), "comdat");
        ensure_eq!(m.name_bytes(), Ok(&x.name[..]), "comdat name");
        let mut want = vec![];
        for z in c.syms.iter().filter(|z| z.has_aux_section() && z.sec > 0) {
            let (s2, n) = assoc(c, z);
            if s2 == 5 && n == y.sec as u32 || s2 != 5 && s2 != 0 && z.sec == y.sec {
                want.push(z.sec as usize);
            }
        }
        ensure_eq!(m.sections().map(|x| x.0).collect::<Vec<_>>(), want, "comdat sections");
    }
    ensure!(it.next().is_none(), "extra comdat");
    Ok(())
}

pub fn objects(g: &mut Gen) -> R {
    let mut c = gen_coff(g);
    let v = c.emit(g);
    g.file(&v)?;
    g.nontrivial_if(c.secs.len() + c.syms.len() > 1);
    g.label_if(c.big, "bigobj");
    g.label_if(c.no_symtab, "no symbol table");
    g.label_if(c.secs.iter().any(|s| s.raw_name[0] == b'/' && s.raw_name[1] == b'/'), "base-64 name");
    g.label_if(c.secs.iter().any(|s| !s.rels.is_empty()), "relocations");
    g.sample(|| format!("{:?}", Coff { strtab: vec![], ..c.clone() }));
    check_all(g, &c, &v)
}

/// Relocation counts around the 16 bit limit, and big section counts.
fn counts(g: &mut Gen) -> R {
    let mut c = gen_coff(g);
    if c.big && g.bool() {
        let n = g.pickc(&[0xfeff, 0xff00, 0xffff, 0x10000, 0x10001, 70_000, 70_000, 0x10000 + 9]);
        let mut s = CSec { name: b"x".to_vec(), ..CSec::default() };
        while c.secs.len() < n {
            s.vaddr += 1;
            c.secs.push(s.clone());
        }
        let sz = c.symsize();
        // A COMDAT of the last section, or of one whose number has the same low bits.
        let alias = |k: usize| if k > 0x10000 { k - 0x10000 } else { 2 };
        let lead = g.pickc(&[n, n - 1, alias(n), alias(n)]);
        if g.chance(3, 4) {
            c.syms.push(CSym { name: b"d".to_vec(), sec: lead as i32, class: C_STATIC, aux: vec![aux_section(1, 0, 0, 0, 0, 2, sz, true)], ..CSym::default() });
            c.syms.push(CSym { name: b"t".to_vec(), sec: n as i32, class: C_STATIC, aux: vec![aux_section(1, 0, 0, 0, 0, 2, sz, true)], ..CSym::default() });
            // Associated with the leader, and with sections whose number differs in the high bits.
            for to in [n, lead, alias(n), alias(lead), (lead + 0x10000).min(n)] {
                if g.bool() {
                    let sec = g.range(1, n) as i32;
                    c.syms.push(CSym { name: b"a".to_vec(), sec, class: C_STATIC, aux: vec![aux_section(1, 0, 0, 0, to as u32, 5, sz, true)], ..CSym::default() });
                }
            }
            c.syms.push(CSym { name: b"e".to_vec(), sec: lead as i32, class: C_EXTERNAL, ..CSym::default() });
        }
        c.syms.push(CSym { name: b"last".to_vec(), sec: n as i32, class: C_EXTERNAL, ..CSym::default() });
        c.syms.push(CSym { name: b"s".to_vec(), sec: 1, class: C_STATIC, aux: vec![aux_section(1, 0, 0, 0, n as u32, 5, sz, true)], ..CSym::default() });
        c.no_symtab = false;
        // Linear name lookups over this many sections are not repeated for each section.
        let v = c.emit(g);
        let f = must!(CoffFile::<_, pe::AnonObjectHeaderBigobj>::parse(&v[..]), "parse");
        let s = must!(f.section_by_index(SectionIndex(n)), "last section");
        ensure_eq!(s.address(), c.secs[n - 1].vaddr as u64, "last section address");
        ensure_eq!(f.sections().count(), n, "section count");
        let va = c.vaddrs();
        for y in &c.syms {
            check_symbol(&va, c.big, 0, y, &must!(f.symbol_by_index(SymbolIndex(y.index)), "symbol"))?;
        }
        check_comdats(g, &c, &f)?;
        g.label("many sections");
    } else {
        if c.secs.is_empty() {
            c.secs.push(CSec { name: b"x".to_vec(), ..CSec::default() });
        }
        let i = g.below(c.secs.len());
        let n = g.pickc(&[0xfffe, 0xffff, 0x10000, 0x10001, 70_000]);
        c.secs[i].rels = (0..n as u32).map(|k| CRel { off: k, sym: k % 7, ty: k as u16 % 12 }).collect();
        let v = c.emit(g);
        g.label("many relocations");
        check_all(g, &c, &v)?;
    }
    g.nontrivial();
    g.sample(|| format!("{} sections, {:?} relocations", c.secs.len(), c.secs.iter().map(|s| s.rels.len()).max()));
    Ok(())
}

/// Tables, strings and ranges outside the file are errors.
fn outside(g: &mut Gen) -> R {
    let mut c = gen_coff(g);
    c.syms.push(CSym { name: b"longer than eight".to_vec(), class: C_EXTERNAL, ..CSym::default() });
    c.no_symtab = false;
    c.secs.push(CSec { name: b"tail".to_vec(), data: vec![1, 2, 3, 4], rels: vec![CRel::default(); 2], chars: 0x40, ..CSec::default() });
    let mut v = c.emit(g);
    let sh = (if c.big { 56 } else { 20 + c.opt.len() }) + 40 * (c.secs.len() - 1);
    let set = |v: &mut Vec<u8>, o: usize, x: u32| v[o..o + 4].copy_from_slice(&x.to_le_bytes());
    let len = v.len() as u32;
    let beyond = len - 3 + g.upto(1000) as u32 * 7;
    let ns = c.secs.len();
    g.nontrivial();
    if c.big && g.chance(1, 4) {
        // Another kind of anonymous object.
        let o = g.pickc(&[0usize, 2, 12, 20, 27]);
        v[o] ^= 1 << g.upto(7);
        ensure!(CoffFile::<_, pe::AnonObjectHeaderBigobj>::parse(&v[..]).is_err(), "bigobj header with byte {o} changed to {:#x} accepted", v[o]);
        g.label("bigobj header");
        return Ok(());
    }
    let what = g.upto(6);
    macro_rules! file {
        ($v:expr) => {
            if c.big { CoffFile::<_, pe::AnonObjectHeaderBigobj>::parse(&$v[..]).map(|f| check(f, what, ns)) } else { CoffFile::<_, pe::ImageFileHeader>::parse(&$v[..]).map(|f| check(f, what, ns)) }
        };
    }
    fn check<'a>(f: impl Object<'a>, what: u64, ns: usize) -> R {
        let s = must!(f.section_by_index(SectionIndex(ns)), "section");
        match what {
            0 => {
                ensure!(s.data().is_err(), "section data outside the file accepted");
                ensure!(s.data_range(0, 0).is_err(), "section data outside the file accepted");
                ensure!(s.uncompressed_data().is_err(), "section data outside the file accepted");
            }
            1 => ensure!(s.relocations().next().is_none(), "relocations outside the file reported"),
            2 => ensure!(s.name_bytes().is_err() && s.name().is_err(), "section name outside the string table accepted: {:?}", s.name_bytes()),
            3 => {
                let y = must_some!(f.symbols().last(), "symbol");
                ensure!(y.name_bytes().is_err() && y.name().is_err(), "symbol name outside the string table accepted: {:?}", y.name_bytes());
            }
            _ => fail!("table outside the file accepted"),
        }
        Ok(())
    }
    match what {
        0 => set(&mut v, sh + 20, beyond),
        1 => set(&mut v, sh + 24, beyond),
        2 => {
            let o = (c.strtab.len() as u64 + g.upto(1000)).min(9_999_999);
            let t = format!("/{o}");
            let t = match g.upto(2) {
                0 => "/4x".to_string(),
                1 => "//A*".to_string(),
                _ => t,
            };
            v[sh..sh + 8].fill(0);
            v[sh..sh + t.len()].copy_from_slice(t.as_bytes());
        }
        3 => {
            let last = c.syms.last().unwrap();
            let o = c.sym_off as usize + last.index * c.symsize();
            let x = c.strtab.len() as u32 + g.upto(5000) as u32;
            set(&mut v, o, 0);
            set(&mut v, o + 4, x);
        }
        4 => {
            // Symbol table.
            let o = if c.big { 48 } else { 8 };
            if c.big {
                set(&mut v, o, beyond);
            } else {
                set(&mut v, o, beyond);
            }
        }
        5 => {
            // Section table.
            let x = g.pickc(&[0xfffe_u32, 0xff00, 0x8000]);
            let x = if v.len() as u32 >= x * 40 { 0xffff } else { x };
            if c.big { set(&mut v, 44, x | 0x10000) } else { v[2..4].copy_from_slice(&(x as u16).to_le_bytes()) }
        }
        _ => {
            let n = g.below(if c.big { 56 } else { 20 });
            v.truncate(n);
        }
    }
    match file!(v) {
        Ok(r) => r,
        Err(_) if what >= 4 => Ok(()),
        Err(e) => fail!("parse failed after change {what}: {e}"),
    }
}

pub fn imports(g: &mut Gen) -> R {
    let machine = if g.chance(1, 8) { g.u16() } else { g.pickc(MACHINES) };
    let (sig1, sig2, version) = match g.upto(15) {
        0 => (g.u16(), 0xffff, 0),
        1 => (0, g.u16(), 0),
        2 => (0, 0xffff, g.u16()),
        _ => (0, 0xffff, 0),
    };
    let name = |g: &mut Gen| {
        let mut v = vec![];
        if g.bool() {
            v.extend(g.pickc(&[&b"_"[..], b"?", b"@", b"__", b"?@", b""]));
        }
        if !g.chance(1, 15) {
            v.extend(g.name(10));
        }
        if g.chance(1, 3) {
            v.extend(b"@12");
            if g.bool() {
                v.extend(b"@8");
            }
        }
        v
    };
    let (sym, dll, exp) = (name(g), name(g), name(g));
    let ty = g.upto(3) as u16;
    let nt = if g.chance(1, 10) { g.upto(7) as u16 } else { g.upto(4) as u16 };
    let rest = if g.bool() { 0 } else { g.u16() & 0xffe0 };
    let ord = g.u16();
    let mut d = B::new(false, false);
    d.cstr(&sym).cstr(&dll);
    if nt == 4 || g.chance(1, 6) {
        d.cstr(&exp);
    }
    let strings = d.len();
    let extra = g.blob(5);
    if g.chance(1, 5) {
        d.bytes(&extra);
    }
    let mut size = d.len();
    if g.chance(1, 8) {
        size = g.upto(d.len() as u64 + 3) as usize;
    }
    let mut b = B::new(false, false);
    b.u16(sig1).u16(sig2).u16(version).u16(machine).u32(g.u32()).u32(size as u32).u16(ord).u16(rest | nt << 2 | ty).bytes(&d.v);
    let v = b.v;
    g.file(&v)?;
    g.nontrivial();
    g.sample(|| format!("{v:x?}"));
    // Expected.
    let body = v.get(20..20 + size);
    let want = (|| {
        if sig1 != 0 || sig2 != 0xffff || version != 0 || ty == 3 || nt > 4 {
            return None;
        }
        let mut d = D::new(false, false, body?);
        let s = d.cstr()?;
        let l = d.cstr()?;
        let e = if nt == 4 { Some(d.cstr()?) } else { None };
        let strip = |s: &'_ [u8]| -> Vec<u8> { if matches!(s.first(), Some(b'?' | b'@' | b'_')) { s[1..].to_vec() } else { s.to_vec() } };
        let imp = match nt {
            0 => None,
            1 => Some(s.to_vec()),
            2 => Some(strip(s)),
            3 => Some(strip(s).split(|&b| b == b'@').next().unwrap().to_vec()),
            _ => Some(e.unwrap().to_vec()),
        };
        Some((s.to_vec(), l.to_vec(), imp))
    })();
    let _ = strings;
    let got = ImportFile::parse(&v[..]);
    g.label_if(want.is_none(), "invalid");
    match want {
        None => ensure!(got.is_err(), "invalid import file accepted"),
        Some((s, l, imp)) => {
            let f = must!(got, "import file");
            let a = if matches!(machine, 0x1f0..=0x1f2) { Architecture::Unknown } else { arch(machine) };
            ensure_eq!(f.architecture(), a, "architecture");
            ensure_eq!(f.sub_architecture(), if machine == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }, "sub_architecture");
            ensure_eq!((f.symbol(), f.dll()), (&s[..], &l[..]), "symbol and dll");
            let w = match &imp {
                None => ImportName::Ordinal(ord),
                Some(n) => ImportName::Name(n),
            };
            ensure_eq!(f.import(), w, "import");
            ensure_eq!(f.import_type(), [ImportType::Code, ImportType::Data, ImportType::Const][ty as usize], "import_type");
        }
    }
    Ok(())
}

fn main() {
    run(
        "C10",
        "an object with at least two sections or symbols, or an import file",
        &["the encoder in harness/src/coff.rs follows the PE/COFF specification", "relocation meanings are those of the table in harness/src/coff.rs"],
        &[sub("objects", 120_000, 10_000_000, objects), sub("counts", 120, 3_000, counts), sub("outside", 60_000, 5_000_000, outside), sub("imports", 200_000, 10_000_000, imports)],
    )
}
