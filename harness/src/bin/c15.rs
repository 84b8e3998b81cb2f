//! C15: XCOFF files are read exactly.
use object::pod::Pod;
use object::read::xcoff::{AuxHeader as _, CsectAux as _, FileAux as _, FileHeader, Rel as _, SectionHeader as _, Symbol as _, XcoffFile};
use object::read::*;
use object::{BigEndian as BE, xcoff as xc};
use vh::b::*;
use vh::xcoff::*;
use vh::*;

/// Field of the auxiliary header at an offset for each width.
fn opt(x: &Xcoff, o32: usize, n32: usize, o64: usize, n64: usize) -> u64 {
    let (o, n) = if x.is64 { (o64, n64) } else { (o32, n32) };
    D::new(true, x.is64, &x.opt).at(o).int(n).unwrap()
}
fn has_opt(x: &Xcoff) -> bool {
    x.flags & F_EXEC != 0 && x.opt.len() == opt_size(x.is64)
}
fn sec_kind(flags: u32) -> SectionKind {
    match flags & 0xffff {
        0x20 => SectionKind::Text,
        0x40 => SectionKind::Data,
        0x80 => SectionKind::UninitializedData,
        0x400 => SectionKind::Tls,
        0x800 => SectionKind::UninitializedTls,
        0x2000 | 0x10 => SectionKind::Debug,
        0x1000 | 0x8000 => SectionKind::Metadata,
        0x200 | 0x100 | 8 | 0x4000 => SectionKind::Other,
        _ => SectionKind::Unknown,
    }
}
fn rel_meaning(ty: u8) -> (RelocationKind, i64) {
    match ty {
        // Positive, load address and TLS.
        0 | 0xc | 0xd | 8 | 0x18 | 0x20 => (RelocationKind::Absolute, 0),
        // Relative to self.
        2 | 0xa | 0x1a => (RelocationKind::Relative, -4),
        // Relative to the TOC.
        3 | 0x30 | 0x31 => (RelocationKind::Got, 0),
        _ => (RelocationKind::Unknown, 0),
    }
}

fn check_symbol<'a>(x: &Xcoff, y: &XSym, s: &impl ObjectSymbol<'a>) -> R {
    let i = y.index;
    let name = y.file.as_ref().unwrap_or(&y.name);
    ensure_eq!(s.index().0, i, "symbol index");
    ensure_eq!(s.name_bytes(), Ok(&name[..]), "symbol {i} name_bytes, class {}, {:?}", y.class, y.store);
    ensure_eq!(s.name().ok(), std::str::from_utf8(name).ok(), "symbol {i} name");
    let located = matches!(y.class, 2 | 3 | 100 | 101 | 107 | 110 | 111);
    ensure_eq!(s.address(), if located { y.value } else { 0 }, "symbol {i} address for class {}", y.class);
    let c = y.csect(x.is64);
    let ty = c.as_ref().map_or(0xff, |c| c.smtyp & 7);
    let def = ty == 1 || ty == 3;
    ensure_eq!(s.size(), c.as_ref().filter(|_| def).map_or(0, |c| c.len), "symbol {i} size for {c:?}");
    let kind = match &c {
        Some(c) if def => match c.smclas {
            0 | 6 => SymbolKind::Text,
            1 | 5 | 16 | 9 | 10 | 15 | 3 => SymbolKind::Data,
            20 | 21 => SymbolKind::Tls,
            _ => SymbolKind::Unknown,
        },
        Some(_) if ty == 2 => SymbolKind::Text,
        None if y.class == C_FILE => SymbolKind::File,
        _ => SymbolKind::Unknown,
    };
    ensure_eq!(s.kind(), kind, "symbol {i} kind for {c:?}");
    let sec = match y.sec {
        -2 => SymbolSection::None,
        -1 => SymbolSection::Absolute,
        0 => SymbolSection::Undefined,
        n if n > 0 => SymbolSection::Section(SectionIndex(n as usize)),
        _ => SymbolSection::Unknown,
    };
    ensure_eq!(s.section(), sec, "symbol {i} section");
    ensure_eq!(s.section_index(), sec.index(), "symbol {i} section_index");
    let global = y.class == C_EXT || y.class == C_WEAKEXT;
    ensure_eq!((s.is_global(), s.is_local(), s.is_weak()), (global, !global, y.class == C_WEAKEXT), "symbol {i} binding");
    ensure_eq!(s.is_undefined(), global && y.sec == 0, "symbol {i} is_undefined");
    ensure_eq!(s.is_definition(), y.sec > 0 && (def || ty == 2), "symbol {i} is_definition");
    let scope = match (y.sec, global) {
        (0, _) => SymbolScope::Unknown,
        (_, false) => SymbolScope::Compilation,
        _ if y.ty & 0xf000 == 0x2000 => SymbolScope::Linkage,
        _ => SymbolScope::Dynamic,
    };
    ensure_eq!(s.scope(), scope, "symbol {i} scope");
    let fl = SymbolFlags::Xcoff {
        n_type: xc::SymbolType(y.ty),
        n_sclass: xc::SymbolClass(y.class),
        x_smtyp: xc::CsectAuxSmtyp(c.as_ref().map_or(0, |c| c.smtyp)),
        x_smclas: xc::CsectAuxClass(c.as_ref().map_or(0, |c| c.smclas)),
        containing_csect: c.as_ref().filter(|_| ty == 2).map(|c| SymbolIndex(c.len as usize)),
    };
    ensure_eq!(s.flags(), fl, "symbol {i} flags");
    Ok(())
}

fn check_object<'a>(g: &mut Gen, x: &Xcoff, v: &'a [u8], f: &impl Object<'a>) -> R {
    ensure_eq!(f.architecture(), if x.is64 { Architecture::PowerPc64 } else { Architecture::PowerPc }, "architecture");
    ensure_eq!((f.is_little_endian(), f.is_64(), f.sub_architecture()), (false, x.is64, None), "file properties");
    let kind = match x.flags {
        k if k & 2 != 0 => ObjectKind::Executable,
        k if k & 0x2000 != 0 => ObjectKind::Dynamic,
        k if k & 1 == 0 => ObjectKind::Relocatable,
        _ => ObjectKind::Unknown,
    };
    ensure_eq!(f.kind(), kind, "kind for flags {:#x}", x.flags);
    ensure_eq!(f.flags(), FileFlags::Xcoff { f_flags: xc::FileFlags(x.flags) }, "flags");
    ensure_eq!(f.entry(), if has_opt(x) { opt(x, 16, 4, 80, 8) } else { 0 }, "entry");
    ensure_eq!((f.relative_address_base(), f.segments().count(), f.comdats().count(), f.dynamic_symbols().count()), (0, 0, 0, 0), "unused tables");
    let n = x.secs.len();
    ensure_eq!(f.sections().map(|s| s.index().0).collect::<Vec<_>>(), (1..=n).collect::<Vec<_>>(), "section indices");
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(n + 1)).is_err(), "section index out of range accepted");
    for (i, w) in x.secs.iter().enumerate() {
        let s = must!(f.section_by_index(SectionIndex(i + 1)), "section");
        ensure_eq!(s.name_bytes(), Ok(w.name()), "section {i} name_bytes");
        ensure_eq!(s.name().ok(), std::str::from_utf8(w.name()).ok(), "section {i} name");
        ensure_eq!(s.segment_name_bytes(), Ok(None), "section {i} segment name");
        let k = sec_kind(w.flags);
        ensure_eq!(s.kind(), k, "section {i} kind for {:#x}", w.flags);
        ensure_eq!(s.flags(), SectionFlags::Xcoff { s_flags: xc::SectionFlags(w.flags) }, "section {i} flags");
        let align = match k {
            SectionKind::Text if has_opt(x) => opt(x, 44, 2, 44, 2),
            SectionKind::Data if has_opt(x) => opt(x, 46, 2, 46, 2),
            _ => 2,
        };
        if align < 64 {
            ensure_eq!(s.align(), 1 << align, "section {i} align");
        }
        if w.flags & STYP_OVRFLO != 0 {
            // Not a section: counts for another one.
            ensure!(s.relocations().next().is_none(), "relocations of an overflow section");
            continue;
        }
        ensure_eq!((s.address(), s.size()), (w.paddr, w.size), "section {i} address and size");
        ensure_eq!(s.file_range(), if w.is_bss() { None } else { Some((w.ptr, w.size)) }, "section {i} file_range");
        ensure_eq!(s.data(), Ok(&w.data[..]), "section {i} data");
        ensure_eq!(must!(s.uncompressed_data(), "uncompressed"), &w.data[..], "section {i} uncompressed_data");
        let (o, k) = (g.upto(w.data.len() as u64), g.upto(6));
        let want = w.data.get(o as usize..(o + k) as usize);
        ensure_eq!(s.data_range(w.paddr + o, k), Ok(want), "section {i} data_range");
        if w.paddr > 0 {
            ensure_eq!(s.data_range(w.paddr - 1, 1), Ok(None), "section {i} data_range before its address");
        }
        let mut it = s.relocations();
        for (j, r) in w.rels.iter().enumerate() {
            let (off, y) = must_some!(it.next(), "section {i} relocation {j} of {}", w.rels.len());
            let (kind, addend) = rel_meaning(r.ty);
            ensure_eq!(off, r.addr - w.paddr, "section {i} relocation {j} offset");
            ensure_eq!((y.kind(), y.encoding(), y.size(), y.addend()), (kind, RelocationEncoding::Generic, (r.size & 0x3f) + 1, addend), "meaning of relocation type {:#x}", r.ty);
            ensure_eq!((y.target(), y.subtractor(), y.has_implicit_addend()), (RelocationTarget::Symbol(SymbolIndex(r.sym as usize)), None, true), "relocation {j} target");
            ensure_eq!(y.flags(), RelocationFlags::Xcoff { r_rtype: xc::RelocationType(r.ty), r_rsize: r.size }, "relocation {j} flags");
        }
        ensure!(it.next().is_none(), "section {i} has extra relocations");
    }
    ensure!(f.dynamic_relocations().is_none(), "dynamic relocations");
    ensure_eq!(f.has_debug_symbols(), x.secs.iter().any(|s| matches!(s.name(), b".debug" | b".dwinfo")), "has_debug_symbols");
    let mut it = f.symbols();
    for y in &x.syms {
        if y.class == C_NULL {
            ensure!(f.symbol_by_index(SymbolIndex(y.index)).is_err(), "deleted symbol accepted");
            continue;
        }
        check_symbol(x, y, &must_some!(it.next(), "symbol {}", y.index))?;
        check_symbol(x, y, &must!(f.symbol_by_index(SymbolIndex(y.index)), "symbol {}", y.index))?;
    }
    ensure!(it.next().is_none(), "extra symbol");
    ensure!(f.symbol_by_index(SymbolIndex(x.nsyms as usize)).is_err(), "symbol index out of range accepted");
    ensure_eq!(f.symbol_table().is_some(), x.nsyms != 0, "symbol_table");
    let _ = v;
    Ok(())
}

fn check_low<H: FileHeader>(x: &Xcoff, v: &[u8]) -> R {
    let mut off = 0;
    let h = must!(H::parse(v, &mut off), "header");
    ensure_eq!((h.is_type_64(), h.f_magic()), (x.is64, if x.is64 { 0x1f7 } else { 0x1df }), "magic");
    ensure_eq!((h.f_nscns() as usize, h.f_timdat(), h.f_symptr().into(), h.f_nsyms()), (x.secs.len(), x.time, x.symptr, x.nsyms), "header");
    ensure_eq!((h.f_opthdr() as usize, h.f_flags().0), (x.opt.len(), x.flags), "header");
    let a = must!(h.aux_header(v, &mut off), "aux_header");
    ensure_eq!(a.is_some(), has_opt(x), "aux_header");
    if let Some(a) = a {
        let o = |o32, n32, o64, n64| opt(x, o32, n32, o64, n64);
        ensure_eq!((a.o_mflag() as u64, a.o_vstamp() as u64), (o(0, 2, 0, 2), o(2, 2, 2, 2)), "aux header");
        ensure_eq!((a.o_tsize().into(), a.o_dsize().into(), a.o_bsize().into(), a.o_entry().into()), (o(4, 4, 56, 8), o(8, 4, 64, 8), o(12, 4, 72, 8), o(16, 4, 80, 8)), "aux header sizes");
        ensure_eq!((a.o_text_start().into(), a.o_data_start().into(), a.o_toc().into()), (o(20, 4, 8, 8), o(24, 4, 16, 8), o(28, 4, 24, 8)), "aux header addresses");
        let sn = [a.o_snentry(), a.o_sntext(), a.o_sndata(), a.o_sntoc(), a.o_snloader(), a.o_snbss(), a.o_algntext(), a.o_algndata(), a.o_modtype()];
        for (i, n) in sn.into_iter().enumerate() {
            let p = 32 + 2 * i;
            ensure_eq!(n as u64, o(p, 2, p, 2), "aux header field at {p}");
        }
        ensure_eq!((a.o_cpuflag() as u64, a.o_cputype() as u64), (o(50, 1, 50, 1), o(51, 1, 51, 1)), "aux header CPU");
        ensure_eq!((a.o_maxstack().into(), a.o_maxdata().into(), a.o_debugger() as u64), (o(52, 4, 88, 8), o(56, 4, 96, 8), o(60, 4, 4, 4)), "aux header limits");
        ensure_eq!((a.o_textpsize() as u64, a.o_datapsize() as u64, a.o_stackpsize() as u64, a.o_flags() as u64), (o(64, 1, 52, 1), o(65, 1, 53, 1), o(66, 1, 54, 1), o(67, 1, 55, 1)), "aux header page sizes");
        ensure_eq!((a.o_sntdata() as u64, a.o_sntbss() as u64), (o(68, 2, 104, 2), o(70, 2, 106, 2)), "aux header TLS sections");
        ensure_eq!(a.o_x64flags(), if x.is64 { Some(o(0, 2, 108, 2) as u16) } else { None }, "o_x64flags");
    }
    let secs = must!(h.sections(v, &mut off), "sections");
    let syms = must!(h.symbols(v), "symbols");
    ensure_eq!((secs.len(), syms.len()), (x.secs.len(), x.nsyms as usize), "table sizes");
    ensure_eq!((secs.is_empty(), syms.is_empty()), (x.secs.is_empty(), x.nsyms == 0), "empty tables");
    let strings = syms.strings();
    for (i, (s, w)) in secs.iter().zip(&x.secs).enumerate() {
        ensure_eq!((*s.s_name(), s.name()), (w.raw_name, w.name()), "section {i} name");
        ensure_eq!((s.s_paddr().into(), s.s_vaddr().into(), s.s_size().into(), s.s_scnptr().into()), (w.paddr, w.vaddr, w.size, w.ptr), "section header {i}");
        ensure_eq!((s.s_relptr().into(), s.s_lnnoptr().into(), s.s_nreloc().into(), s.s_nlnno().into(), s.s_flags().0), (w.relptr, w.lnnoptr, w.nreloc, w.nlnno, w.flags), "section header {i}");
        ensure_eq!((s.s_flags().typ().0 as u32, s.s_flags().subtype().0), (w.flags & 0xffff, w.flags & 0xffff_0000), "section {i} type");
        if w.flags & STYP_OVRFLO != 0 || w.rels.len() >= 65535 && !x.is64 {
            continue;
        }
        ensure_eq!(s.data(v), Ok(&w.data[..]), "section {i} data");
        let rels = must!(s.relocations(v), "section {i} relocations");
        ensure_eq!(rels.len(), w.rels.len(), "section {i} relocations");
        for (r, w) in rels.iter().zip(&w.rels) {
            ensure_eq!((r.r_vaddr().into(), r.r_symndx(), r.r_rsize(), r.r_rtype().0, r.symbol().0), (w.addr, w.sym, w.size, w.ty, w.sym as usize), "raw relocation");
        }
    }
    let mut it = syms.iter();
    for y in x.syms.iter().filter(|y| y.class != C_NULL) {
        let (i, s) = must_some!(it.next(), "symbol");
        ensure_eq!(i.0, y.index, "symbol index");
        ensure_eq!((s.n_value().into(), s.n_scnum().0, s.n_type().0, s.n_sclass().0, s.n_numaux() as usize), (y.value, y.sec, y.ty, y.class, y.aux.len()), "raw symbol {i:?}");
        ensure_eq!(s.n_type().visibility().0, y.ty & 0xf000, "visibility");
        if y.store != Store::Debug {
            ensure_eq!(s.name(strings), Ok(&y.name[..]), "raw symbol {i:?} name");
        }
        ensure_eq!(s.has_aux_file(), y.class == C_FILE && !y.aux.is_empty(), "has_aux_file");
        ensure_eq!(s.has_aux_csect(), y.linkage() && !y.aux.is_empty(), "has_aux_csect");
        ensure_eq!(s.section(), if y.sec > 0 { Some(SectionIndex(y.sec as usize)) } else { None }, "raw symbol section");
        if s.has_aux_file() {
            for (k, a) in y.aux.iter().enumerate() {
                let f = must!(syms.aux_file(i, k + 1), "aux_file");
                ensure_eq!((&f.x_fname()[..], f.x_ftype().0, f.x_auxtype()), (&a[..8], a[14], if x.is64 { Some(xc::AUX_FILE) } else { None }), "file aux");
                let want = if k == 0 { y.file.as_deref().unwrap() } else { b"compiler" };
                ensure_eq!(f.fname(strings), Ok(want), "file name");
            }
        }
        if let Some(c) = y.csect(x.is64) {
            let f = must!(syms.aux_csect(i, y.aux.len()), "aux_csect");
            ensure_eq!((f.x_scnlen(), f.x_parmhash(), f.x_snhash(), f.x_smtyp().0, f.x_smclas().0), (c.len, c.parmhash, c.snhash, c.smtyp, c.smclas), "csect aux");
            ensure_eq!((f.x_stab(), f.x_snstab()), if x.is64 { (None, None) } else { (Some(c.stab), Some(c.snstab)) }, "csect aux");
            ensure_eq!((f.sym_type().0, f.alignment()), (c.smtyp & 7, c.smtyp >> 3), "csect type");
            if x.is64 && y.aux.len() > 1 {
                ensure!(syms.aux_csect(i, 1).is_err(), "other auxiliary entry accepted as a csect entry");
            }
        }
        for (k, a) in y.aux.iter().enumerate() {
            let b = must!(syms.get::<xc::SymbolBytes>(i, k + 1), "auxiliary entry");
            ensure_eq!(b.0, *a, "auxiliary entry bytes");
            check_aux(x.is64, &syms, i, k + 1, a)?;
        }
    }
    ensure!(it.next().is_none(), "extra symbol");
    ensure!(syms.get::<xc::SymbolBytes>(SymbolIndex(x.nsyms as usize), 0).is_err(), "symbol out of range");
    ensure!(syms.get::<xc::SymbolBytes>(SymbolIndex(usize::MAX), 1).is_err(), "symbol out of range");
    Ok(())
}

/// Auxiliary entries that are only defined as structures.
fn check_aux<H: FileHeader>(is64: bool, t: &object::read::xcoff::SymbolTable<'_, H>, i: SymbolIndex, k: usize, a: &[u8; 18]) -> R {
    fn at<'a, H: FileHeader, T: Pod>(t: &object::read::xcoff::SymbolTable<'a, H>, i: SymbolIndex, k: usize) -> Result<&'a T> {
        t.get::<T>(i, k)
    }
    let d = D::new(true, is64, a);
    let n = |o: usize, n: usize| d.at(o).int(n).unwrap();
    if is64 {
        let f = must!(at::<H, xc::FunAux64>(t, i, k), "function aux");
        ensure_eq!((f.x_lnnoptr.get(BE), f.x_fsize.get(BE) as u64, f.x_endndx.get(BE) as u64, f.x_auxtype.0), (n(0, 8), n(8, 4), n(12, 4), a[17]), "function aux");
        let f = must!(at::<H, xc::ExpAux>(t, i, k), "exception aux");
        ensure_eq!((f.x_exptr.get(BE), f.x_fsize.get(BE) as u64, f.x_endndx.get(BE) as u64, f.x_auxtype.0), (n(0, 8), n(8, 4), n(12, 4), a[17]), "exception aux");
        let f = must!(at::<H, xc::BlockAux64>(t, i, k), "block aux");
        ensure_eq!((f.x_lnno.get(BE) as u64, f.x_auxtype.0), (n(0, 4), a[17]), "block aux");
        let f = must!(at::<H, xc::DwarfAux64>(t, i, k), "DWARF aux");
        ensure_eq!((f.x_scnlen.get(BE), f.x_nreloc.get(BE), f.x_auxtype.0), (n(0, 8), n(8, 8), a[17]), "DWARF aux");
    } else {
        let f = must!(at::<H, xc::FunAux32>(t, i, k), "function aux");
        ensure_eq!((f.x_exptr.get(BE) as u64, f.x_fsize.get(BE) as u64, f.x_lnnoptr.get(BE) as u64, f.x_endndx.get(BE) as u64), (n(0, 4), n(4, 4), n(8, 4), n(12, 4)), "function aux");
        let f = must!(at::<H, xc::BlockAux32>(t, i, k), "block aux");
        ensure_eq!((f.x_lnnohi.get(BE) as u64, f.x_lnnolo.get(BE) as u64), (n(2, 2), n(4, 2)), "block aux");
        let f = must!(at::<H, xc::StatAux>(t, i, k), "section aux");
        ensure_eq!((f.x_scnlen.get(BE) as u64, f.x_nreloc.get(BE) as u64, f.x_nlinno.get(BE) as u64), (n(0, 4), n(4, 2), n(6, 2)), "section aux");
        let f = must!(at::<H, xc::DwarfAux32>(t, i, k), "DWARF aux");
        ensure_eq!((f.x_scnlen.get(BE) as u64, f.x_nreloc.get(BE) as u64), (n(0, 4), n(8, 4)), "DWARF aux");
    }
    Ok(())
}

pub fn files(g: &mut Gen) -> R {
    let (x, v) = generate(g);
    g.file(&v)?;
    g.nontrivial_if(x.secs.len() + x.syms.len() > 1);
    g.label_if(x.stripped, "no symbol table");
    g.label_if(x.no_strtab && x.strtab.is_empty(), "no string table");
    g.label_if(x.secs.iter().any(|s| s.rels.len() > 65534), "many relocations");
    g.label_if(x.syms.iter().any(|s| s.store == Store::Debug), "name in the debug section");
    g.label_if(has_opt(&x), "auxiliary header");
    g.sample(|| {
        let mut x = x.clone();
        x.secs.iter_mut().for_each(|s| s.rels.truncate(9));
        format!("{x:?}")
    });
    let f = must!(File::parse(&v[..]), "File::parse");
    ensure_eq!(f.format(), BinaryFormat::Xcoff, "format");
    check_object(g, &x, &v, &f)?;
    if x.is64 {
        check_low::<xc::FileHeader64>(&x, &v)?;
        check_object(g, &x, &v, &must!(XcoffFile::<xc::FileHeader64>::parse(&v[..]), "parse"))?;
        ensure!(XcoffFile::<xc::FileHeader32>::parse(&v[..]).is_err(), "64-bit file read as 32-bit");
    } else {
        check_low::<xc::FileHeader32>(&x, &v)?;
        check_object(g, &x, &v, &must!(XcoffFile::<xc::FileHeader32>::parse(&v[..]), "parse"))?;
        ensure!(XcoffFile::<xc::FileHeader64>::parse(&v[..]).is_err(), "32-bit file read as 64-bit");
    }
    Ok(())
}

/// Tables, strings and ranges outside the file are errors.
fn outside(g: &mut Gen) -> R {
    let (mut x, _) = generate(g);
    x.stripped = false;
    x.no_strtab = false;
    let is64 = x.is64;
    x.secs.push(XSec { raw_name: *b"tail\0\0\0\0", data: vec![1, 2, 3, 4], rels: vec![XRel::default(); 2], flags: 0x40, ..XSec::default() });
    x.syms.push(XSym { name: b"longer than eight".to_vec(), class: C_STAT, ..XSym::default() });
    let mut v = x.emit(g);
    let (hs, ss) = if is64 { (24, 72) } else { (20, 40) };
    let sh = hs + x.opt.len() + ss * (x.secs.len() - 1);
    let n = x.secs.len();
    let len = v.len() as u64;
    let beyond = len - 3 + g.upto(1000) * 7;
    let set = |v: &mut Vec<u8>, o: usize, k: usize, y: u64| {
        let mut b = B::new(true, is64);
        b.int(k, y);
        v[o..o + k].copy_from_slice(&b.v);
    };
    let w = if is64 { 8 } else { 4 };
    g.nontrivial();
    let what = g.upto(7);
    match what {
        0 => set(&mut v, sh + 8 + 3 * w, w, beyond),
        1 => {
            let y = if g.bool() || is64 { beyond } else { u32::MAX as u64 };
            set(&mut v, sh + 8 + 2 * w, w, y)
        }
        2 => set(&mut v, sh + 8 + 4 * w, w, beyond),
        3 => {
            let o = x.symptr as usize + x.syms.last().unwrap().index * 18 + if is64 { 8 } else { 4 };
            let y = x.strtab.len() as u64 + g.upto(5000);
            set(&mut v, o, 4, y);
        }
        4 => set(&mut v, 8, w, beyond),
        5 => {
            let y = (len / 18 + 1 + g.upto(1000)).min(u32::MAX as u64);
            set(&mut v, if is64 { 20 } else { 12 }, 4, y);
        }
        6 => {
            let y = len / ss as u64 + 1;
            set(&mut v, 2, 2, y.max(60000));
            v.truncate(50000);
        }
        _ => {
            let k = g.below(hs);
            v.truncate(k);
        }
    }
    let f = File::parse(&v[..]);
    if what >= 4 {
        ensure!(f.is_err(), "table outside the file accepted");
        return Ok(());
    }
    let f = must!(f, "File::parse");
    let s = must!(f.section_by_index(SectionIndex(n)), "section");
    match what {
        0 | 1 => {
            ensure!(s.data().is_err(), "section data outside the file accepted");
            ensure!(s.data_range(0, 0).is_err(), "section data outside the file accepted");
            ensure!(s.uncompressed_data().is_err(), "section data outside the file accepted");
        }
        2 => ensure!(s.relocations().next().is_none(), "relocations outside the file reported"),
        _ => {
            let y = must_some!(f.symbols().last(), "symbol");
            ensure!(y.name_bytes().is_err() && y.name().is_err(), "symbol name outside the string table accepted: {:?}", y.name_bytes());
        }
    }
    Ok(())
}

fn main() {
    run(
        "C15",
        "the file has at least two sections or symbols, or a range was moved outside the file",
        &["relocation addresses lie in their section; section types have one bit set; XCOFF64 csect entries are last, as in XCOFF32; is_common is not checked"],
        &[sub("files", 400000, 10000000, files), sub("outside", 100000, 3000000, outside)],
    );
}
