//! C07: ELF dynamic-linking tables give the linker's answers.
use object::elf;
use object::endian::*;
use object::read::elf::{ElfFile32, ElfFile64, FileHeader, GnuHashTable, HashTable, ProgramHeader as _, SectionHeader as _, VersionTable};
use object::read::*;
use vh::elf::{k::*, *};
use vh::elfdyn::*;
use vh::*;

fn set_special(img: &mut Img, g: &mut Gen) {
    img.ety = 3;
    // Machines with 64-bit SysV hash words (Alpha, s390x) are outside the standard table form.
    img.machine = g.pickc(&[62u16, 3, 183, 40, 8, 243, 21, 20, 2, 43, 1000]);
}

const STRING_TAGS: &[i64] = &[1, 14, 15, 29, 0x7ffffffd, 0x7fffffff, 0x6ffffefa, 0x6ffffefb, 0x6ffffefc];
const ADDR_TAGS: &[i64] = &[3, 4, 5, 6, 7, 12, 13, 17, 21, 23, 25, 26, 32, 34, 36, 0x6ffffff0, 0x6ffffffc, 0x6ffffffe];

fn check_low<'d, E: FileHeader<Endian = X>, X: Endian>(g: &mut Gen, img: &Img, m: &DynModel, v: &'d [u8]) -> R {
    let h = must!(E::parse(v), "header");
    let e = must!(h.endian(), "endian");
    let secs = must!(h.sections(e, v), "sections");
    let syms = must!(secs.symbols(e, v, elf::SHT_DYNSYM), "dynsym");
    ensure_eq!(syms.len(), m.syms.len(), "dynamic symbol count");

    // Version tables.
    let vt = must!(secs.versions(e, v), "versions");
    ensure_eq!(vt.is_some(), m.versym.is_some(), "versions present");
    let empty = VersionTable::<E>::default();
    let vt = vt.as_ref().unwrap_or(&empty);
    ensure_eq!(vt.is_empty(), m.versym.as_ref().is_none_or(|v| v.is_empty()), "versions is_empty");
    let mut max = 1;
    for i in 0..m.syms.len() + 3 {
        let x = vt.version_index(e, SymbolIndex(i));
        ensure_eq!(x.0, m.versym(i), "version_index {i}");
        ensure_eq!((x.index().0, x.is_hidden()), (x.0 & 0x7fff, x.0 & 0x8000 != 0), "version index parts");
        max = max.max(x.index().0);
    }
    let check_version = |i: u16| -> R {
        let got = vt.version(elf::VersionIndex(i));
        match m.version(i) {
            Err(()) => ensure!(got.is_err(), "version {i} accepted"),
            Ok(None) => ensure!(matches!(got, Ok(None)), "version {i} is special"),
            Ok(Some(w)) => {
                let x = must_some!(must!(got, "version {i}"), "version {i}");
                ensure_eq!((x.name(), x.hash(), x.file()), (&w.name[..], w.hash, w.file.as_deref()), "version {i}");
            }
        }
        Ok(())
    };
    if m.versym.is_some() {
        for i in 0..max + 3 {
            check_version(i)?;
        }
    }
    // Raw version sections.
    let strs = &img.secs[m.s_dynstr].data;
    let vd = must!(secs.gnu_verdef(e, v), "gnu_verdef");
    ensure_eq!(vd.as_ref().map(|x| x.1.0), if m.s_verdef != 0 { Some(m.s_dynstr) } else { None }, "gnu_verdef link");
    if let Some((mut it, _)) = vd {
        for d in &m.verdefs {
            let (x, mut aux) = must_some!(must!(it.next(), "verdef"), "verdef missing");
            ensure_eq!((x.vd_version.get(e), x.vd_flags.get(e).0, x.vd_ndx.get(e).0, x.vd_cnt.get(e), x.vd_hash.get(e)), (1, d.flags, d.ndx, d.names.len() as u16, d.hash), "verdef");
            for n in &d.names {
                let a = must_some!(must!(aux.next(), "verdaux"), "verdaux missing");
                ensure_eq!(a.name(e, StringTable::new(&strs[..], 0, strs.len() as u64)), Ok(&n[..]), "verdaux name");
            }
            ensure!(matches!(aux.next(), Ok(None)), "extra verdaux");
        }
        ensure!(matches!(it.next(), Ok(None)), "extra verdef");
    }
    let vn = must!(secs.gnu_verneed(e, v), "gnu_verneed");
    ensure_eq!(vn.as_ref().map(|x| x.1.0), if m.s_verneed != 0 { Some(m.s_dynstr) } else { None }, "gnu_verneed link");
    if let Some((mut it, _)) = vn {
        for d in &m.verneeds {
            let (x, mut aux) = must_some!(must!(it.next(), "verneed"), "verneed missing");
            let st = || StringTable::new(&strs[..], 0, strs.len() as u64);
            ensure_eq!((x.vn_version.get(e), x.vn_cnt.get(e), x.file(e, st())), (1, d.aux.len() as u16, Ok(&d.file[..])), "verneed");
            for n in &d.aux {
                let a = must_some!(must!(aux.next(), "vernaux"), "vernaux missing");
                ensure_eq!((a.name(e, st()), a.vna_hash.get(e), a.vna_flags.get(e).0, a.vna_other(e).0), (Ok(&n.name[..]), n.hash, n.flags, n.other), "vernaux");
            }
            ensure!(matches!(aux.next(), Ok(None)), "extra vernaux");
        }
        ensure!(matches!(it.next(), Ok(None)), "extra verneed");
    }

    // Hash lookups.
    let sysv = must!(secs.hash(e, v), "hash");
    ensure_eq!(sysv.as_ref().map(|x| x.1.0), if m.sysv { Some(m.s_dynsym) } else { None }, "hash link");
    let gnu = must!(secs.gnu_hash(e, v), "gnu_hash");
    ensure_eq!(gnu.as_ref().map(|x| x.1.0), if m.gnu { Some(m.s_dynsym) } else { None }, "gnu_hash link");
    if let Some((t, _)) = &sysv {
        ensure_eq!(t.symbol_table_length() as usize, m.syms.len(), "SysV symbol_table_length");
        let hd = must_some!(must!(secs.hash_header(e, v), "hash_header"), "hash_header");
        ensure_eq!((hd.bucket_count.get(e), hd.chain_count.get(e) as usize), (m.nbucket, m.syms.len()), "hash_header");
    }
    if let Some((t, _)) = &gnu {
        let len = t.symbol_table_length(e).map(|x| x as usize);
        ensure_eq!(len, if m.base < m.syms.len() { Some(m.syms.len()) } else { None }, "GNU symbol_table_length");
        ensure_eq!(t.symbol_base() as usize, m.base, "symbol_base");
        let hd = must_some!(must!(secs.gnu_hash_header(e, v), "gnu_hash_header"), "gnu_hash_header");
        ensure_eq!((hd.bucket_count.get(e), hd.symbol_base.get(e) as usize, hd.bloom_count.get(e) as usize, hd.bloom_shift.get(e)), (m.nbucket, m.base, m.bloom.len(), m.shift), "gnu_hash_header");
    }
    let mut names: Vec<Vec<u8>> = m.syms.iter().map(|s| s.name.clone()).collect();
    names.sort();
    names.dedup();
    for _ in 0..4 {
        names.push(g.name(7));
    }
    if let Some(n) = m.syms.last() {
        let mut n = n.name.clone();
        n.pop();
        names.push(n.clone());
        n.extend(b"zz");
        names.push(n);
    }
    let mut needs: Vec<Option<Ver>> = vec![None];
    let mut vers = vec![None];
    if m.versym.is_some() {
        for i in 2..max + 1 {
            if let (Ok(Some(w)), Ok(Some(x))) = (m.version(i), vt.version(elf::VersionIndex(i))) {
                needs.push(Some(w));
                vers.push(Some(x));
            }
        }
    }
    for name in &names {
        ensure_eq!(elf::hash(name), sysv_hash(name), "elf::hash");
        ensure_eq!(elf::gnu_hash(name), gnu_hash(name), "elf::gnu_hash");
        for (need, ver) in needs.iter().zip(&vers) {
            for i in 0..m.syms.len() {
                ensure_eq!(vt.matches(e, SymbolIndex(i), *ver), m.matches(i, need.as_ref()), "matches {i} {need:?}");
            }
            let scan = |hashed: &dyn Fn(usize) -> bool| -> Vec<usize> { (1..m.syms.len()).filter(|&i| hashed(i) && m.syms[i].name == *name && m.matches(i, need.as_ref())).collect() };
            let judge = |what: &str, got: Option<(SymbolIndex, &E::Sym)>, exp: Vec<usize>| -> R {
                match got {
                    None => ensure!(exp.is_empty(), "{what} lookup of {name:?} {need:?} found nothing, a scan finds {exp:?}"),
                    Some((i, s)) => {
                        ensure!(exp.contains(&i.0), "{what} lookup of {name:?} {need:?} found {i:?}, a scan finds {exp:?}");
                        ensure!(std::ptr::eq(s, &syms.symbols()[i.0]), "{what} symbol does not match its index");
                    }
                }
                Ok(())
            };
            if let Some((t, _)) = &sysv {
                judge("SysV", t.find(e, name, sysv_hash(name), *ver, &syms, vt), scan(&|i| m.sysv_hashed.contains(&i)))?;
            }
            if let Some((t, _)) = &gnu {
                judge("GNU", t.find(e, name, gnu_hash(name), *ver, &syms, vt), scan(&|i| i >= m.base))?;
            }
        }
    }

    // Dynamic entries.
    let want: Vec<(i64, u64)> = m.dyns.iter().copied().take_while(|d| d.0 != 0).collect();
    let t = must!(secs.dynamic_table(e, v), "dynamic_table");
    let got: Vec<(i64, u64)> = t.iter().map(|d| (d.tag.0, d.val)).collect();
    ensure_eq!(got, want, "dynamic entries");
    ensure_eq!(t.is_empty(), m.dyns.is_empty(), "dynamic is_empty");
    for d in &t {
        ensure_eq!(d.is_string(), STRING_TAGS.contains(&d.tag.0), "is_string {:#x}", d.tag.0);
        ensure_eq!(d.is_address(), ADDR_TAGS.contains(&d.tag.0) || (0x6ffffe00..=0x6ffffeff).contains(&d.tag.0), "is_address {:#x}", d.tag.0);
        let w = u32::try_from(d.val).ok().and_then(|o| vh::b::cstr_at(strs, o as usize));
        ensure_eq!(t.string(d).ok(), w, "dynamic string");
    }
    let seg = must!(h.program_headers(e, v), "program_headers").iter().find(|p| p.p_type(e) == elf::PT_DYNAMIC);
    if let Some(p) = seg {
        let d = must_some!(must!(p.dynamic(e, v), "segment dynamic"), "segment dynamic");
        use object::read::elf::Dyn;
        let n = m.dyns.len();
        let got: Vec<(i64, u64)> = d.iter().take(n).map(|d| (d.tag(e).0, d.val(e))).collect();
        ensure_eq!(got, m.dyns, "PT_DYNAMIC entries");
    }
    Ok(())
}

fn check_unified<'d, O: Object<'d>>(f: &O, m: &DynModel) -> R {
    let libs: Vec<_> = must!(f.import_libraries(), "import_libraries").collect();
    ensure_eq!(libs.len(), m.needed.len(), "number of libraries");
    for (l, w) in libs.iter().zip(&m.needed) {
        ensure_eq!(must!(l.as_ref(), "library").name(), &w[..], "library name");
    }
    let ver = |i: usize| if m.versym.is_some() { m.version(m.versym(i)) } else { Ok(None) };
    let mut it = must!(f.imports(), "imports");
    for (i, s) in m.syms.iter().enumerate().skip(1) {
        if s.shndx != 0 || s.name.is_empty() {
            continue;
        }
        let x = must_some!(it.next(), "imports ended before symbol {i}");
        match ver(i) {
            Err(()) => ensure!(x.is_err(), "import with invalid version accepted"),
            Ok(w) => {
                let x = must!(x, "import");
                ensure!(matches!(x.name(), NameOrOrdinal::Name(n) if n == &s.name[..]), "import name {:?} expected {:?}", x.name(), s.name);
                ensure_eq!(x.library(), w.as_ref().and_then(|w| w.file.as_deref()).unwrap_or(&[]), "import library");
                ensure_eq!(x.is_weak(), s.info >> 4 == 2, "import weak");
                ensure_eq!(
                    x.flags(),
                    ImportFlags::Elf { st_info: elf::SymbolInfo(s.info), st_other: elf::SymbolOther(s.other), version: w.as_ref().map(|w| &w.name[..]) },
                    "import flags"
                );
            }
        }
    }
    ensure!(it.next().is_none(), "extra import");
    let mut it = must!(f.exports(), "exports");
    for (i, s) in m.syms.iter().enumerate().skip(1) {
        let (bind, ty) = (s.info >> 4, s.info & 15);
        if bind == 0 || s.shndx == 0 || (s.shndx >= 0xff00 && s.shndx != 0xfff1 && s.shndx != 0xffff) {
            continue;
        }
        let target = match ty {
            0..=2 if s.shndx == 0xfff1 => ExportTarget::Absolute { value: s.value },
            0..=2 => ExportTarget::Address { address: s.value },
            6 => ExportTarget::Tls { offset: s.value },
            10 => ExportTarget::Resolver { resolver: s.value, stub: None },
            _ => continue,
        };
        let x = must_some!(it.next(), "exports ended before symbol {i}");
        match ver(i) {
            Err(()) => ensure!(x.is_err(), "export with invalid version accepted"),
            Ok(w) => {
                let x = must!(x, "export");
                ensure!(matches!(x.name(), NameOrOrdinal::Name(n) if n[..] == s.name[..]), "export name {:?} expected {:?}", x.name(), s.name);
                ensure_eq!(x.target(), target, "export target");
                ensure_eq!(x.is_weak(), bind == 2, "export weak");
                let hidden = m.versym.is_some() && m.versym(i) & 0x8000 != 0;
                ensure_eq!(
                    x.flags(),
                    ExportFlags::Elf { st_info: elf::SymbolInfo(s.info), st_other: elf::SymbolOther(s.other), version: w.as_ref().map(|w| &w.name[..]), version_hidden: hidden },
                    "export flags"
                );
            }
        }
    }
    ensure!(it.next().is_none(), "extra export");
    Ok(())
}

fn make(g: &mut Gen) -> (Img, DynModel) {
    let mut img = Img::random(g);
    set_special(&mut img, g);
    img.add(b".text", 1, vec![1; 8]);
    img.add(b".data", 1, vec![1; 8]);
    let m = gen_dyn(g, &mut img, &[1, 2], false);
    if m.s_dynamic != 0 && g.bool() {
        img.segs.push(Seg { ty: PT_DYNAMIC, ..Seg::default() });
    }
    img.names(g);
    img.layout(g);
    for s in &mut img.segs {
        s.off = img.secs[m.s_dynamic].off;
        s.filesz = img.secs[m.s_dynamic].size;
    }
    (img, m)
}

pub fn tables(g: &mut Gen) -> R {
    let (mut img, m) = make(g);
    let v = img.emit();
    g.file(&v)?;
    g.nontrivial_if(m.syms.len() > 1 || !m.dyns.is_empty());
    g.label_if(m.gnu, "gnu");
    g.label_if(m.sysv, "sysv");
    g.label_if(m.versym.is_some(), "versioned");
    g.label_if(m.gnu && m.base < m.syms.len() && m.versym.is_some(), "gnu+version");
    g.sample(|| format!("is64={} be={} {m:?}", img.is64, img.be));
    match (img.is64, img.be) {
        (true, true) => check_low::<elf::FileHeader64<BigEndian>, _>(g, &img, &m, &v)?,
        (true, false) => check_low::<elf::FileHeader64<LittleEndian>, _>(g, &img, &m, &v)?,
        (false, true) => check_low::<elf::FileHeader32<BigEndian>, _>(g, &img, &m, &v)?,
        (false, false) => check_low::<elf::FileHeader32<LittleEndian>, _>(g, &img, &m, &v)?,
    }
    if img.is64 {
        check_low::<elf::FileHeader64<Endianness>, _>(g, &img, &m, &v)?;
        check_unified(&must!(ElfFile64::<Endianness>::parse(&v[..]), "ElfFile64"), &m)?;
    } else {
        check_low::<elf::FileHeader32<Endianness>, _>(g, &img, &m, &v)?;
        check_unified(&must!(ElfFile32::<Endianness>::parse(&v[..]), "ElfFile32"), &m)?;
    }
    check_unified(&must!(File::parse(&v[..]), "File"), &m)
}

/// Tables cut short: an error (or a correct prefix followed by an error), never other entries.
fn truncated(g: &mut Gen) -> R {
    let (mut img, m) = make(g);
    let cands: Vec<usize> = [m.s_hash, m.s_gnu, m.s_verdef, m.s_verneed].into_iter().filter(|&i| i != 0).collect();
    if cands.is_empty() {
        return Ok(());
    }
    let i = g.pickc(&cands);
    let full = img.secs[i].data.clone();
    if full.is_empty() {
        return Ok(());
    }
    let cut = g.below(full.len());
    let data = &full[..cut];
    g.nontrivial();
    let strs = img.secs[m.s_dynstr].data.clone();
    img.secs[i].data.truncate(cut);
    img.secs[i].size = cut as u64;
    let v = img.emit();
    // The section may also end where the next entry would start: the entries before it are the table.
    let next_at = if i == m.s_verdef { 16 } else { 12 };
    let mut p = 0;
    let mut boundary = cut == 0;
    if i == m.s_verdef || i == m.s_verneed {
        while let Some(n) = img.d(&full).at(p + next_at).u32().filter(|&n| n != 0) {
            p += n as usize;
            boundary |= cut == p;
        }
    }
    type F = elf::FileHeader64<Endianness>;
    type F32 = elf::FileHeader32<Endianness>;
    let e = if img.be { Endianness::Big } else { Endianness::Little };
    if i == m.s_hash {
        ensure!(HashTable::<F>::parse(e, data).is_err(), "truncated SysV hash accepted");
    } else if i == m.s_gnu {
        let need = 16 + m.bloom.len() * img.word() + 4 * m.nbucket as usize;
        let r = if img.is64 { GnuHashTable::<F>::parse(e, data).is_err() } else { GnuHashTable::<F32>::parse(e, data).is_err() };
        ensure_eq!(r, cut < need, "truncated GNU hash ({cut} of {need})");
    } else {
        macro_rules! go {
            ($h:ty) => {{
                let h = must!(<$h>::parse(&v[..]), "header");
                let secs = must!(h.sections(e, &v[..]), "sections");
                let s = secs.section(SectionIndex(i)).unwrap();
                let st = || StringTable::new(&strs[..], 0, strs.len() as u64);
                let mut n = 0;
                let mut bad = false;
                if i == m.s_verdef {
                    let it = must!(s.gnu_verdef(e, &v[..]), "verdef").unwrap().0;
                    for x in it {
                        ensure!(!bad, "verdef after error");
                        match x {
                            Err(_) => bad = true,
                            Ok((x, aux)) => {
                                let w = must_some!(m.verdefs.get(n), "extra verdef");
                                ensure_eq!((x.vd_ndx.get(e).0, x.vd_hash.get(e)), (w.ndx, w.hash), "verdef prefix");
                                n += 1;
                                let mut k = 0;
                                for a in aux {
                                    match a {
                                        Err(_) => bad = true,
                                        Ok(a) => {
                                            ensure_eq!(a.name(e, st()), Ok(&w.names[k][..]), "verdaux prefix");
                                            k += 1;
                                        }
                                    }
                                }
                                ensure!(bad || k == w.names.len(), "verdaux ended early");
                                if bad {
                                    break;
                                }
                            }
                        }
                    }
                    ensure!(bad || n == m.verdefs.len() || boundary, "verdef ended early without an error");
                } else {
                    let it = must!(s.gnu_verneed(e, &v[..]), "verneed").unwrap().0;
                    for x in it {
                        ensure!(!bad, "verneed after error");
                        match x {
                            Err(_) => bad = true,
                            Ok((x, aux)) => {
                                let w = must_some!(m.verneeds.get(n), "extra verneed");
                                ensure_eq!(x.file(e, st()), Ok(&w.file[..]), "verneed prefix");
                                n += 1;
                                let mut k = 0;
                                for a in aux {
                                    match a {
                                        Err(_) => bad = true,
                                        Ok(a) => {
                                            ensure_eq!((a.name(e, st()), a.vna_other(e).0), (Ok(&w.aux[k].name[..]), w.aux[k].other), "vernaux prefix");
                                            k += 1;
                                        }
                                    }
                                }
                                ensure!(bad || k == w.aux.len(), "vernaux ended early");
                                if bad {
                                    break;
                                }
                            }
                        }
                    }
                    ensure!(bad || n == m.verneeds.len() || boundary, "verneed ended early without an error");
                }
            }};
        }
        if img.is64 { go!(F) } else { go!(F32) }
    }
    g.sample(|| format!("section {i} cut to {cut} of {}", full.len()));
    Ok(())
}

fn main() {
    run(
        "C07",
        "the file has a dynamic symbol or dynamic entry (or, for truncated cases, a table was cut short)",
        &["the table encoders in src/elfdyn.rs follow the GNU/gABI layouts; 32-bit SysV hash words"],
        &[sub("tables", 1_200_000, 8_000_000, tables), sub("truncated", 800_000, 8_000_000, truncated)],
    );
}
