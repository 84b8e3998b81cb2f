//! C11: PE images and their data directories are read exactly.
use object::read::pe::{self as rpe, ImageNtHeaders, ImageOptionalHeader as _, ImageThunkData as _, PeFile};
use object::read::*;
use object::{LittleEndian as LE, pe};
use vh::b::*;
use vh::coffchk::*;
use vh::pe::*;
use vh::*;

fn check_file<'a>(g: &mut Gen, p: &Pe, v: &'a [u8], f: &impl Object<'a>) -> R {
    let m = p.c.machine;
    let arch = match m {
        0x8664 => Architecture::X86_64,
        0x14c => Architecture::I386,
        0x1c4 => Architecture::Arm,
        0xaa64 | 0xa641 => Architecture::Aarch64,
        _ => Architecture::Unknown,
    };
    ensure_eq!((f.architecture(), f.sub_architecture()), (arch, if m == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }), "architecture");
    let kind = if p.c.chars & 0x2000 != 0 {
        ObjectKind::Dynamic
    } else if p.c.chars & 0x1000 != 0 {
        ObjectKind::Unknown
    } else {
        ObjectKind::Executable
    };
    ensure_eq!((f.is_little_endian(), f.is_64(), f.kind()), (true, p.is64, kind), "file properties");
    ensure_eq!(f.relative_address_base(), p.base(), "relative_address_base");
    ensure_eq!(f.entry(), p.base().wrapping_add(p.opt[5]), "entry");
    ensure_eq!(f.flags(), FileFlags::Coff { characteristics: pe::FileFlags(p.c.chars) }, "flags");
    let n = p.c.secs.len();
    ensure_eq!(f.sections().map(|s| s.index().0).collect::<Vec<_>>(), (1..=n).collect::<Vec<_>>(), "section indices");
    ensure_eq!(f.segments().count(), n, "segments");
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(n + 1)).is_err(), "section index out of range accepted");
    for (i, (w, q)) in p.c.secs.iter().zip(f.segments()).enumerate() {
        let s = must!(f.section_by_index(SectionIndex(i + 1)), "section");
        let data = &w.data[..p.visible(i)];
        let addr = p.base().wrapping_add(w.vaddr as u64);
        ensure_eq!(s.name_bytes(), Ok(&w.name[..]), "section {i} name_bytes");
        ensure_eq!(s.name().ok(), std::str::from_utf8(&w.name).ok(), "section {i} name");
        ensure_eq!(s.segment_name_bytes(), Ok(None), "section {i} segment name");
        ensure_eq!((s.address(), s.size(), s.align()), (addr, w.vsize as u64, p.opt[9]), "section {i} address, size and align");
        ensure_eq!(s.kind(), sec_kind(w.chars), "section {i} kind for {:#x}", w.chars);
        ensure_eq!(s.flags(), SectionFlags::Coff { characteristics: pe::SectionFlags(w.chars) }, "section {i} flags");
        ensure_eq!(s.file_range(), if data.is_empty() { None } else { Some((w.raw_off as u64, data.len() as u64)) }, "section {i} file_range");
        ensure_eq!(s.data(), Ok(data), "section {i} data");
        ensure_eq!(must!(s.uncompressed_data(), "uncompressed"), data, "section {i} uncompressed_data");
        let (o, k) = (g.upto(data.len() as u64), g.upto(6));
        let want = data.get(o as usize..(o + k) as usize);
        ensure_eq!(s.data_range(addr.wrapping_add(o), k), Ok(want), "section {i} data_range");
        ensure_eq!(q.data_range(addr.wrapping_add(o), k), Ok(want), "segment {i} data_range");
        ensure_eq!(s.data_range(addr.wrapping_sub(1), 1), Ok(None), "section {i} data_range before its address");
        ensure!(s.relocations().next().is_none(), "section {i} relocations");
        ensure_eq!((q.address(), q.size(), q.align()), (addr, w.vsize as u64, p.opt[9]), "segment {i}");
        ensure_eq!(q.file_range(), (w.raw_off as u64, data.len() as u64), "segment {i} file_range");
        ensure_eq!(q.data(), Ok(data), "segment {i} data");
        ensure_eq!(q.name_bytes(), Ok(Some(&w.name[..])), "segment {i} name");
        ensure_eq!(q.flags(), SegmentFlags::Coff { characteristics: pe::SectionFlags(w.chars) }, "segment {i} flags");
        ensure_eq!(q.permissions(), Permissions::new(w.chars & 0x4000_0000 != 0, w.chars & 0x8000_0000 != 0, w.chars & 0x2000_0000 != 0), "segment {i} permissions");
        let first = p.c.secs.iter().position(|x| x.name == w.name).unwrap();
        ensure_eq!(f.section_by_name_bytes(&w.name).map(|s| s.index().0), Some(first + 1), "section_by_name_bytes");
    }
    ensure!(f.section_by_name("no such section").is_none(), "section_by_name of a missing name");
    ensure!(f.dynamic_relocations().is_none() && f.dynamic_symbol_table().is_none() && f.dynamic_symbols().next().is_none(), "dynamic tables");
    ensure!(f.comdats().next().is_none(), "comdats");
    ensure_eq!(f.has_debug_symbols(), p.c.secs.iter().any(|s| s.name == b".debug_info"), "has_debug_symbols");
    let va = p.c.vaddrs();
    let mut it = f.symbols();
    for y in &p.c.syms {
        check_symbol(&va, false, p.base(), y, &must_some!(it.next(), "symbol {}", y.index))?;
        check_symbol(&va, false, p.base(), y, &must!(f.symbol_by_index(SymbolIndex(y.index)), "symbol_by_index"))?;
    }
    ensure!(it.next().is_none(), "extra symbols");
    ensure!(f.symbol_by_index(SymbolIndex(p.c.nsyms as usize)).is_err(), "symbol index out of range accepted");

    // Imports.
    let (mut li, mut ii) = (must!(f.import_libraries(), "import_libraries"), must!(f.imports(), "imports"));
    for (libs, delay) in [(&p.imports, false), (&p.delay, true)] {
        for l in libs.iter().flatten() {
            let x = must!(must_some!(li.next(), "import library missing"), "import library");
            ensure_eq!(x.name(), &l.name[..], "import library name");
            ensure!(matches!(x.flags(), ImportLibraryFlags::Pe { delay: d } if d == delay), "import library flags {:?}", x.flags());
            for item in &l.items {
                let x = must!(must_some!(ii.next(), "import missing: {item:?}"), "import");
                ensure_eq!(x.library(), &l.name[..], "import library");
                let ok = match (item, x.name()) {
                    (Item::Ordinal(a), NameOrOrdinal::Ordinal(b)) => *a == b,
                    (Item::Name(_, a), NameOrOrdinal::Name(b)) => a == b,
                    _ => false,
                };
                ensure!(ok, "import {:?} expected {item:?}", x.name());
                let n = x.name();
                ensure_eq!((n.name().map(|n| n.to_vec()), n.ordinal()), match item { Item::Ordinal(a) => (None, Some(*a)), Item::Name(_, a) => (Some(a.clone()), None) }, "name or ordinal of an import");
                ensure!(!x.is_weak() && matches!(x.flags(), ImportFlags::Pe { delay: d } if d == delay), "import flags {:?}", x.flags());
            }
        }
    }
    ensure!(li.next().is_none(), "extra import library");
    ensure!(ii.next().is_none(), "extra import");
    // Exports.
    let mut it = must!(f.exports(), "exports");
    if let Some(e) = &p.exports {
        let named = e.names.iter().map(|(n, i)| (*i as usize, Some(n)));
        let rest = (0..e.funcs.len()).filter(|&i| e.funcs[i] != Target::Addr(0) && !e.names.iter().any(|x| x.1 as usize == i)).map(|i| (i, None));
        for (i, name) in named.chain(rest).collect::<Vec<_>>() {
            let x = must!(must_some!(it.next(), "export missing"), "export");
            let ord = e.base + i as u16;
            let ok = match (x.name(), name) {
                (NameOrOrdinal::Name(a), Some(b)) => a == b,
                (NameOrOrdinal::Ordinal(a), None) => a == ord,
                _ => false,
            };
            ensure!(ok, "export name {:?} expected {name:?} or {ord}", x.name());
            let ok = match (x.target(), &e.funcs[i]) {
                (ExportTarget::Address { address }, Target::Addr(a)) => address == p.base().wrapping_add(*a as u64),
                (ExportTarget::Reexport { library, name: NameOrOrdinal::Name(n) }, Target::ByName(l, m)) => library == l && n == m,
                (ExportTarget::Reexport { library, name: NameOrOrdinal::Ordinal(n) }, Target::ByOrdinal(l, m)) => library == l && n == *m,
                _ => false,
            };
            ensure!(ok, "export target {:?} expected {:?}", x.target(), e.funcs[i]);
            ensure!(matches!(x.flags(), ExportFlags::Pe { ordinal } if ordinal.0 == ord) && !x.is_weak(), "export flags {:?}", x.flags());
            let own = match x.into_name() {
                NameOrOrdinal::Name(a) => (Some(a.to_vec()), None),
                NameOrOrdinal::Ordinal(a) => (None, Some(a)),
            };
            ensure_eq!(own, (name.map(|n| n.to_vec()), if name.is_some() { None } else { Some(ord) }), "into_name of an export");
        }
    }
    ensure!(it.next().is_none(), "extra export");
    // PDB.
    let d = must!(f.pdb_info(), "pdb_info");
    match (&d, &p.pdb) {
        (None, None) => {}
        (Some(d), Some(w)) => ensure_eq!((d.guid().to_vec(), d.age(), d.path()), (w.guid.clone(), w.age, &w.path[..]), "pdb_info"),
        _ => fail!("pdb_info: got {d:?} expected {:?}", p.pdb),
    }
    let _ = v;
    Ok(())
}

fn check_res(dir: rpe::ResourceDirectory<'_>, t: &rpe::ResourceDirectoryTable<'_>, r: &Res) -> R {
    let Res::Table { fields, named, entries } = r else { fail!("resource table expected {r:?}") };
    let h = t.header;
    ensure_eq!((h.characteristics.get(LE), h.time_date_stamp.get(LE), h.major_version.get(LE), h.minor_version.get(LE)), *fields, "resource table header");
    ensure_eq!((h.number_of_named_entries.get(LE), t.entries.len()), (*named, entries.len()), "resource table counts");
    for (e, (id, w)) in t.entries.iter().zip(entries) {
        match (id, e.name_or_id()) {
            (ResId::Id(a), rpe::ResourceNameOrId::Id(b)) => ensure_eq!(b, *a, "resource id"),
            (ResId::Name(a), rpe::ResourceNameOrId::Name(b)) => {
                ensure_eq!(must!(b.data(dir), "resource name").iter().map(|c| c.get(LE)).collect::<Vec<_>>(), *a, "resource name");
                ensure_eq!(must!(b.raw_data(dir), "resource name").to_vec(), a.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>(), "resource raw name");
                ensure_eq!(must!(b.to_string_lossy(dir), "resource name"), String::from_utf16_lossy(a), "resource name string");
            }
            (a, b) => fail!("resource name or id: got {b:?} expected {a:?}"),
        }
        ensure_eq!((e.is_table(), e.has_name()), (matches!(w, Res::Table { .. }), matches!(id, ResId::Name(_))), "resource entry");
        match (must!(e.data(dir), "resource entry data"), w) {
            (rpe::ResourceDirectoryEntryData::Table(t), Res::Table { .. }) => check_res(dir, &t, w)?,
            (rpe::ResourceDirectoryEntryData::Data(d), Res::Data { rva, size, page, reserved }) => {
                ensure_eq!((d.offset_to_data.get(LE), d.size.get(LE), d.code_page.get(LE), d.reserved.get(LE)), (*rva, *size, *page, *reserved), "resource data")
            }
            (a, b) => fail!("resource entry: got {a:?} expected {b:?}"),
        }
    }
    Ok(())
}

fn check_thunks<P: ImageNtHeaders>(mut t: rpe::ImportThunkList<'_>, items: &[Item], import: impl Fn(P::ImageThunkData) -> Result<rpe::Import<'static>>) -> R {
    for (j, item) in items.iter().enumerate() {
        let at = must!(t.get::<P>(j - j), "thunk");
        let x = must_some!(must!(t.next::<P>(), "thunk"), "thunk {j} missing");
        ensure_eq!(at.raw(), x.raw(), "thunk get and next");
        let ok = match (item, must!(import(x), "import")) {
            (Item::Ordinal(a), rpe::Import::Ordinal(b)) => *a == b && x.is_ordinal(),
            (Item::Name(h, a), rpe::Import::Name(i, b)) => *h == i && a == b && !x.is_ordinal(),
            _ => false,
        };
        ensure!(ok, "thunk import expected {item:?}");
    }
    ensure!(must!(t.next::<P>(), "null thunk").is_none() && must!(t.next::<P>(), "after null thunk").is_none(), "extra thunk");
    Ok(())
}

fn check_low<P: ImageNtHeaders>(g: &mut Gen, p: &Pe, v: &[u8]) -> R {
    let dos = must!(pe::ImageDosHeader::parse(v), "dos header");
    ensure_eq!(dos.nt_headers_offset() as usize, p.lfanew, "nt_headers_offset");
    ensure_eq!(rpe::optional_header_magic(v), Ok(if p.is64 { 0x20b } else { 0x10b }), "optional_header_magic");
    let mut off = p.lfanew as u64;
    let (nt, dirs) = must!(P::parse(v, &mut off), "nt headers");
    ensure_eq!(off as usize, p.sec_table, "section table offset");
    let (fh, oh, o) = (nt.file_header(), nt.optional_header(), &p.opt);
    ensure_eq!((fh.machine.get(LE).0, fh.number_of_sections.get(LE) as usize, fh.time_date_stamp.get(LE), fh.characteristics.get(LE).0), (p.c.machine, p.c.secs.len(), p.c.time, p.c.chars), "file header");
    let got = [
        oh.major_linker_version() as u64, oh.minor_linker_version() as u64, oh.size_of_code() as u64, oh.size_of_initialized_data() as u64,
        oh.size_of_uninitialized_data() as u64, oh.address_of_entry_point() as u64, oh.base_of_code() as u64, oh.base_of_data().unwrap_or(0) as u64,
        oh.image_base(), oh.section_alignment() as u64, oh.file_alignment() as u64, oh.major_operating_system_version() as u64,
        oh.minor_operating_system_version() as u64, oh.major_image_version() as u64, oh.minor_image_version() as u64, oh.major_subsystem_version() as u64,
        oh.minor_subsystem_version() as u64, oh.win32_version_value() as u64, oh.size_of_image() as u64, oh.size_of_headers() as u64, oh.check_sum() as u64,
        oh.subsystem().0 as u64, oh.dll_characteristics().0 as u64, oh.size_of_stack_reserve(), oh.size_of_stack_commit(), oh.size_of_heap_reserve(),
        oh.size_of_heap_commit(), oh.loader_flags() as u64,
    ];
    ensure_eq!(got.to_vec(), *o, "optional header");
    ensure_eq!((oh.base_of_data().is_some(), nt.is_type_64(), oh.magic()), (!p.is64, p.is64, if p.is64 { 0x20b } else { 0x10b }), "optional header");
    ensure_eq!(dirs.iter().map(|d| d.address_range()).collect::<Vec<_>>(), p.dirs, "data directories");
    ensure_eq!((dirs.len(), oh.number_of_rva_and_sizes() as usize), (p.dirs.len(), p.dirs.len()), "data directory count");
    for k in 0..20 {
        let want = p.dirs.get(k).filter(|d| d.0 != 0);
        ensure_eq!(dirs.get(k).map(|d| d.address_range()), want.copied(), "data directory {k}");
    }
    let secs = must!(nt.sections(v, off), "sections");
    ensure_eq!(secs.len(), p.c.secs.len(), "section count");
    // Translation of addresses.
    let mut probe: Vec<u32> = vec![0, g.u32(), u32::MAX];
    for (i, s) in p.c.secs.iter().enumerate() {
        let n = p.visible(i) as u32;
        probe.extend([s.vaddr.wrapping_sub(1), s.vaddr, s.vaddr + g.upto(n as u64) as u32, (s.vaddr + n).wrapping_sub(1), s.vaddr + n, s.vaddr + s.vsize, (s.vaddr + s.vsize).wrapping_sub(1)]);
    }
    for a in probe {
        let want = p.at(a);
        ensure_eq!(secs.pe_data_at(v, a), want, "pe_data_at {a:#x}");
        let r = secs.pe_file_range_at(a);
        match (r, want) {
            (None, None) => {}
            (Some((o, n)), Some(w)) => {
                ensure_eq!(v.get(o as usize..o as usize + n as usize), Some(w), "pe_file_range_at {a:#x}");
                let i = p.c.secs.iter().enumerate().position(|(i, s)| a >= s.vaddr && ((a - s.vaddr) as usize) < p.visible(i)).unwrap();
                let s = &p.c.secs[i];
                ensure_eq!((o, n), (s.raw_off + (a - s.vaddr), p.visible(i) as u32 - (a - s.vaddr)), "pe_file_range_at {a:#x}");
                ensure_eq!(secs.pe_data_containing(v, a), Some((&s.data[..p.visible(i)], s.vaddr)), "pe_data_containing {a:#x}");
                let h = secs.section(SectionIndex(i + 1)).unwrap();
                ensure_eq!((h.pe_address_range(), h.pe_file_range()), ((s.vaddr, s.vsize), (s.raw_off, p.visible(i) as u32)), "section ranges");
            }
            (r, w) => fail!("pe_file_range_at {a:#x}: got {r:?} expected {w:?}"),
        }
        let c = p.c.secs.iter().find(|s| a >= s.vaddr && a - s.vaddr < s.vsize);
        ensure_eq!(secs.section_containing(a).map(|h| h.virtual_address.get(LE)), c.map(|s| s.vaddr), "section_containing {a:#x}");
        let (size, want) = match want {
            Some(w) => (g.upto(w.len() as u64 + 1) as u32, Some(w)),
            None => (g.upto(3) as u32, None),
        };
        let want = want.and_then(|w| w.get(..size as usize));
        let d = pe::ImageDataDirectory { virtual_address: object::U32::new(LE, a), size: object::U32::new(LE, size) };
        ensure_eq!(d.data(v, &secs).ok(), want, "data directory data at {a:#x} size {size}");
        ensure_eq!(d.file_range(&secs).ok().map(|(o, n)| &v[o as usize..][..n as usize]), want, "data directory file_range at {a:#x}");
    }
    let max = p.c.secs.iter().map(|s| s.raw_off as u64 + s.raw_size as u64).max().unwrap_or(0);
    ensure_eq!(secs.max_section_file_offset(), max, "max_section_file_offset");
    // Imports.
    let v2: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(v) };
    let secs2 = must!(P::parse(v2, &mut { p.lfanew as u64 }).and_then(|x| x.0.sections(v2, off)), "sections");
    let t = must!(dirs_of::<P>(p, v2).import_table(v2, &secs2), "import_table");
    ensure_eq!(t.is_some(), p.imports.is_some(), "import_table present");
    if let (Some(t), Some(libs)) = (t, &p.imports) {
        let mut it = must!(t.descriptors(), "descriptors");
        for l in libs {
            let d = must_some!(must!(it.next(), "descriptor"), "descriptor missing");
            ensure_eq!(vec![d.original_first_thunk.get(LE), d.time_date_stamp.get(LE), d.forwarder_chain.get(LE), d.name.get(LE), d.first_thunk.get(LE)], l.fields, "descriptor");
            ensure_eq!(t.name(d.name.get(LE)), Ok(&l.name[..]), "descriptor name");
            let a = if l.fields[0] == 0 { l.fields[4] } else { l.fields[0] };
            check_thunks::<P>(must!(t.thunks(a), "thunks"), &l.items, |x| t.import::<P>(x))?;
        }
        ensure!(must!(it.next(), "null descriptor").is_none() && must!(it.next(), "after null").is_none(), "extra descriptor");
    }
    let t = must!(dirs_of::<P>(p, v2).delay_load_import_table(v2, &secs2), "delay_load_import_table");
    ensure_eq!(t.is_some(), p.delay.is_some(), "delay_load_import_table present");
    if let (Some(t), Some(libs)) = (t, &p.delay) {
        let mut it = must!(t.descriptors(), "delay descriptors");
        for l in libs {
            let d = must_some!(must!(it.next(), "delay descriptor"), "delay descriptor missing");
            let got = [&d.attributes, &d.dll_name_rva, &d.module_handle_rva, &d.import_address_table_rva, &d.import_name_table_rva, &d.bound_import_address_table_rva, &d.unload_information_table_rva, &d.time_date_stamp];
            ensure_eq!(got.map(|x| x.get(LE)).to_vec(), l.fields, "delay descriptor");
            ensure_eq!(t.name(l.fields[1]), Ok(&l.name[..]), "delay descriptor name");
            check_thunks::<P>(must!(t.thunks(l.fields[4]), "thunks"), &l.items, |x| t.import::<P>(x))?;
        }
        ensure!(must!(it.next(), "null descriptor").is_none() && must!(it.next(), "after null").is_none(), "extra descriptor");
    }
    // Exports.
    let t = must!(dirs.export_table(v, &secs), "export_table");
    ensure_eq!(t.is_some(), p.exports.is_some(), "export_table present");
    if let (Some(t), Some(e)) = (&t, &p.exports) {
        let d = t.directory();
        ensure_eq!((d.characteristics.get(LE), d.time_date_stamp.get(LE), d.major_version.get(LE), d.minor_version.get(LE)), e.fields, "export directory");
        ensure_eq!((t.ordinal_base(), d.name.get(LE), d.base.get(LE)), (e.base, e.name_rva, e.base as u32), "export directory");
        ensure_eq!(t.name_from_pointer(e.name_rva), Ok(&e.name[..]), "export directory name");
        ensure_eq!(t.addresses().iter().map(|x| x.get(LE)).collect::<Vec<_>>(), e.addrs, "export addresses");
        ensure_eq!(t.address_iter().map(|(i, o, a)| (i.0, o.0, a)).collect::<Vec<_>>(), e.addrs.iter().enumerate().map(|(i, &a)| (i as u16, e.base + i as u16, a)).collect::<Vec<_>>(), "address_iter");
        ensure_eq!(t.name_iter().map(|(p, i)| (p, i.0)).collect::<Vec<_>>(), e.name_rvas.iter().zip(&e.names).map(|(&p, n)| (p, n.1)).collect::<Vec<_>>(), "name_iter");
        ensure_eq!((t.name_pointers().len(), t.name_ordinals().len()), (e.names.len(), e.names.len()), "export names");
        let ok = |t: &rpe::ExportTarget, w: &Target| match (t, w) {
            (rpe::ExportTarget::Address(a), Target::Addr(b)) => a == b && t.is_address() && !t.is_forward(),
            (rpe::ExportTarget::ForwardByName(l, n), Target::ByName(m, o)) => l == m && n == o && t.is_forward() && !t.is_address(),
            (rpe::ExportTarget::ForwardByOrdinal(l, n), Target::ByOrdinal(m, o)) => l == m && n.0 == *o && t.is_forward(),
            _ => false,
        };
        for (i, w) in e.funcs.iter().enumerate() {
            let (ix, or) = (rpe::ExportAddressIndex(i as u16), rpe::ExportOrdinal(e.base + i as u16));
            ensure_eq!((t.ordinal_from_index(ix), t.index_from_ordinal(or)), (Ok(or), Ok(ix)), "ordinal and index");
            ensure_eq!((t.address_by_index(ix), t.address_by_ordinal(or)), (Ok(e.addrs[i]), Ok(e.addrs[i])), "export address");
            let x = must!(t.target_by_index(ix), "target_by_index");
            ensure!(ok(&x, w), "target_by_index: got {x:?} expected {w:?}");
            let x = must!(t.target_by_ordinal(or), "target_by_ordinal");
            ensure!(ok(&x, w), "target_by_ordinal: got {x:?} expected {w:?}");
            ensure_eq!(t.is_forward(e.addrs[i]), !matches!(w, Target::Addr(_)), "is_forward");
        }
        let n = e.funcs.len();
        ensure!(t.address_by_index(rpe::ExportAddressIndex(n as u16)).is_err() && t.ordinal_from_index(rpe::ExportAddressIndex(n as u16)).is_err(), "export index out of range accepted");
        for o in [e.base.wrapping_sub(1), e.base.wrapping_add(n as u16), g.u16()] {
            let i = o.wrapping_sub(e.base) as usize;
            ensure_eq!(t.address_by_ordinal(rpe::ExportOrdinal(o)).ok(), if o >= e.base { e.addrs.get(i).copied() } else { None }, "address_by_ordinal {o}");
        }
        let all = must!(t.exports(), "exports");
        ensure_eq!(all.len(), n, "exports");
        for (i, x) in all.iter().enumerate() {
            let name = e.names.iter().rev().find(|x| x.1 as usize == i).map(|x| &x.0[..]);
            ensure_eq!((x.ordinal.0, x.name), (e.base + i as u16, name), "export {i}");
            ensure!(ok(&x.target, &e.funcs[i]), "export {i}: got {x:?} expected {:?}", e.funcs[i]);
        }
    }
    // Base relocations.
    let t = must!(dirs.relocation_blocks(v, &secs), "relocation_blocks");
    ensure_eq!(t.is_some(), p.relocs.is_some(), "relocation_blocks present");
    if let (Some(mut t), Some(w)) = (t, &p.relocs) {
        for (page, e) in w {
            let b = must_some!(must!(t.next(), "relocation block"), "relocation block missing");
            ensure_eq!((b.virtual_address(), b.size() as usize), (*page, 8 + 2 * e.len()), "relocation block");
            let got: Vec<_> = b.map(|r| (r.virtual_address, r.typ.0)).collect();
            let want: Vec<_> = e.iter().filter(|&&x| x != 0).map(|x| (page.wrapping_add(*x as u32 & 0xfff), x >> 12)).collect();
            ensure_eq!(got, want, "relocations of block {page:#x}");
        }
        ensure!(must!(t.next(), "end of relocations").is_none(), "extra relocation block");
    }
    // Resources.
    let t = must!(dirs.resource_directory(v, &secs), "resource_directory");
    ensure_eq!(t.is_some(), p.res.is_some(), "resource_directory present");
    if let (Some(t), Some(r)) = (t, &p.res) {
        check_res(t, &must!(t.root(), "resource root"), r)?;
    }
    // Rich header.
    let r = rpe::RichHeaderInfo::parse(v, p.lfanew as u64);
    match (r, &p.rich) {
        (None, None) => {}
        (Some(r), Some(w)) => {
            ensure_eq!((r.offset, r.length, r.xor_key), (w.offset, 24 + 8 * w.entries.len(), w.key), "rich header");
            ensure_eq!(r.unmasked_entries().map(|e| (e.comp_id, e.count)).collect::<Vec<_>>(), w.entries, "rich header entries");
        }
        (r, w) => fail!("rich header: got {r:?} expected {w:?}"),
    }
    Ok(())
}

fn dirs_of<P: ImageNtHeaders>(p: &Pe, v: &'static [u8]) -> rpe::DataDirectories<'static> {
    P::parse(v, &mut { p.lfanew as u64 }).unwrap().1
}

pub fn images(g: &mut Gen) -> R {
    let (p, v) = gen_pe(g);
    g.file(&v)?;
    g.nontrivial_if(!p.c.secs.is_empty());
    g.label_if(p.is64, "64-bit");
    g.label_if(p.imports.is_some(), "imports");
    g.label_if(p.delay.is_some(), "delay imports");
    g.label_if(p.exports.is_some(), "exports");
    g.label_if(p.relocs.is_some(), "base relocations");
    g.label_if(p.res.is_some(), "resources");
    g.label_if(p.pdb.is_some(), "pdb");
    g.label_if(p.rich.is_some(), "rich header");
    g.label_if(!p.c.syms.is_empty(), "symbols");
    g.sample(|| format!("{p:?}"));
    if p.is64 {
        check_low::<pe::ImageNtHeaders64>(g, &p, &v)?;
        check_file(g, &p, &v, &must!(PeFile::<pe::ImageNtHeaders64>::parse(&v[..]), "parse"))?;
        ensure!(PeFile::<pe::ImageNtHeaders32>::parse(&v[..]).is_err(), "PE32+ accepted as PE32");
    } else {
        check_low::<pe::ImageNtHeaders32>(g, &p, &v)?;
        check_file(g, &p, &v, &must!(PeFile::<pe::ImageNtHeaders32>::parse(&v[..]), "parse"))?;
        ensure!(PeFile::<pe::ImageNtHeaders64>::parse(&v[..]).is_err(), "PE32 accepted as PE32+");
    }
    let f = must!(File::parse(&v[..]), "File::parse");
    ensure_eq!(f.format(), BinaryFormat::Pe, "format");
    check_file(g, &p, &v, &f)
}

/// Tables and addresses outside the file or not backed by it are errors.
fn outside(g: &mut Gen) -> R {
    let (p, mut v) = gen_pe(g);
    if p.c.secs.is_empty() {
        return Ok(());
    }
    let d0 = p.lfanew + 24 + if p.is64 { 112 } else { 96 };
    let set = |v: &mut Vec<u8>, o: usize, x: u32| v[o..o + 4].copy_from_slice(&x.to_le_bytes());
    let len = v.len() as u32;
    let beyond = len + g.upto(1000) as u32 * 7;
    // Changes that must make parsing fail.
    if g.bool() {
        g.nontrivial();
        match g.upto(5) {
            0 => set(&mut v, 60, len - g.upto(120).min(len as u64) as u32 + if g.bool() { 0 } else { beyond }),
            1 => v[p.lfanew + 6..p.lfanew + 8].copy_from_slice(&0xffffu16.to_le_bytes()),
            2 => {
                let n = g.upto(if p.is64 { 111 } else { 95 }) as u16;
                v[p.lfanew + 20..p.lfanew + 22].copy_from_slice(&n.to_le_bytes())
            }
            3 => set(&mut v, d0 - 4, p.dirs.len() as u32 + (p.opt_extra / 8) as u32 + 1 + g.uint(31) as u32),
            4 => v.truncate(g.below(p.sec_table)),
            _ => {
                let o = g.pickc(&[0, p.lfanew, p.lfanew + 24]);
                v[o] ^= 1 + g.upto(254) as u8
            }
        }
        if v.len() >= 0xffff * 40 {
            return Ok(());
        }
        let magic = v.get(p.lfanew + 24..p.lfanew + 26).map(|x| x.to_vec());
        let other = magic == Some(if p.is64 { vec![0x0b, 1] } else { vec![0x0b, 2] });
        ensure!(other || File::parse(&v[..]).is_err(), "a truncated or out of range header is accepted");
        ensure!(p.is64 || PeFile::<pe::ImageNtHeaders32>::parse(&v[..]).is_err(), "a truncated or out of range header is accepted");
        ensure!(!p.is64 || PeFile::<pe::ImageNtHeaders64>::parse(&v[..]).is_err(), "a truncated or out of range header is accepted");
        return Ok(());
    }
    // Move one directory to an address without file data, or make it too large.
    let have: Vec<usize> = [(0, p.exports.is_some()), (1, p.imports.is_some()), (13, p.delay.is_some()), (5, p.relocs.is_some()), (2, p.res.is_some()), (6, p.debug.is_some())].iter().filter(|x| x.1).map(|x| x.0).collect();
    if have.is_empty() {
        return Ok(());
    }
    g.nontrivial();
    let k = *g.pick(&have);
    let mut a = p.c.secs.iter().enumerate().map(|(i, s)| s.vaddr + p.visible(i) as u32).max().unwrap() + g.upto(3) as u32;
    if g.chance(1, 3) {
        a = g.pickc(&[u32::MAX, 0x8000_0000, 1]);
    }
    if p.at(a).is_some() {
        return Ok(());
    }
    let room = p.at(p.dirs[k].0).map_or(0, |d| d.len()) as u32;
    let sized = [0, 5, 2, 6].contains(&k) && g.bool();
    if sized {
        set(&mut v, d0 + 8 * k + 4, room + 1 + g.uint(30) as u32);
    } else {
        set(&mut v, d0 + 8 * k, a);
    }
    g.label_if(sized, "directory size");
    fn check<'a, P: ImageNtHeaders>(k: usize, f: &PeFile<'a, P>) -> R {
        let (d, s) = (f.section_table(), f.data());
        let ok = match k {
            0 => f.export_table().is_ok() || f.exports().is_ok() || f.data_directories().export_directory(s, &d).is_ok(),
            1 => f.import_table().is_ok() || f.imports().is_ok() || f.import_libraries().is_ok(),
            13 => f.delay_load_import_table().is_ok() || f.imports().is_ok() || f.import_libraries().is_ok(),
            5 => f.data_directories().relocation_blocks(s, &d).is_ok(),
            2 => f.data_directories().resource_directory(s, &d).is_ok(),
            _ => f.pdb_info().is_ok(),
        };
        ensure!(!ok, "data directory {k} outside the file data accepted");
        Ok(())
    }
    if p.is64 { check(k, &must!(PeFile::<pe::ImageNtHeaders64>::parse(&v[..]), "parse")) } else { check(k, &must!(PeFile::<pe::ImageNtHeaders32>::parse(&v[..]), "parse")) }
}

/// Sub-tables whose pointers leave the data, and malformed blocks.
fn tables(g: &mut Gen) -> R {
    let r = (0..2).map(|_| g.u8()).collect::<Vec<_>>();
    let n = g.range(0, 60);
    let mut v = g.bytes(n);
    g.nontrivial_if(n > 8);
    match g.upto(2) {
        0 => {
            // Relocation blocks against a direct reading of the format.
            if n >= 8 {
                v[4..8].copy_from_slice(&[8 + r[0] % 32, 0, 0, 0]);
            }
            let mut t = rpe::RelocationBlockIterator::new(&v);
            let mut o = 0;
            loop {
                let got = t.next();
                if o == v.len() {
                    ensure!(matches!(got, Ok(None)), "extra block");
                    break;
                }
                let size = v.get(o + 4..o + 8).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
                match size.filter(|&s| s > 8 && s % 4 == 0 && o + s <= v.len()) {
                    Some(s) => {
                        let page = u32::from_le_bytes(v[o..o + 4].try_into().unwrap());
                        let b = must_some!(must!(got, "block"), "block");
                        let w: Vec<_> = v[o + 8..o + s].chunks(2).map(|x| u16::from_le_bytes([x[0], x[1]])).filter(|&x| x != 0).map(|x| (page.wrapping_add(x as u32 & 0xfff), x >> 12)).collect();
                        ensure_eq!(b.map(|r| (r.virtual_address, r.typ.0)).collect::<Vec<_>>(), w, "block entries");
                        o += s;
                    }
                    None => {
                        ensure!(got.is_err(), "malformed block accepted");
                        ensure!(matches!(t.next(), Ok(None)), "iteration continues after an error");
                        break;
                    }
                }
            }
        }
        1 => {
            // Names and thunks of an import table.
            let base = g.u32() >> 1;
            let t = rpe::ImportTable::new(&v, base, base);
            let dt = rpe::DelayLoadImportTable::new(&v, base, base);
            let a = (base as u64 + g.upto(n as u64 + 4)) as u32;
            let o = (a - base) as usize;
            let want = cstr_at(&v, o);
            ensure_eq!((t.name(a).ok(), dt.name(a).ok()), (want, want), "import name");
            let want = v.get(o..o + 2).and_then(|h| cstr_at(&v, o + 2).filter(|s| !s.is_empty()).map(|s| (u16::from_le_bytes([h[0], h[1]]), s)));
            ensure_eq!((t.hint_name(a).ok(), dt.hint_name(a).ok()), (want, want), "import hint_name");
            let i = g.upto(4) as usize;
            let want = v.get(o + 4 * i..o + 4 * i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as u64);
            ensure_eq!(t.thunks(a).ok().and_then(|t| t.get::<pe::ImageNtHeaders32>(i).ok()).map(|x| x.raw()), want, "import thunk");
            let want = v.get(o + 8 * i..o + 8 * i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
            ensure_eq!(dt.thunks(a).ok().and_then(|t| t.get::<pe::ImageNtHeaders64>(i).ok()).map(|x| x.raw()), want, "import thunk");
            ensure!(t.name(base.wrapping_sub(1)).is_err() && t.thunks(base.wrapping_sub(1)).is_err(), "address before the section accepted");
        }
        _ => {
            // Forwarded export strings.
            let mut e = vec![0; 40];
            let base = 0x1000u32;
            let s = match g.upto(3) {
                0 => [&b"a."[..], b"a", b".#", b"l.#1x", b"l.#65536", b"l.#0000065535", b".", b"l.#+1", b"a.b.c", b"a.#b.c", b"l.#", b"l.#99999999999999999999"][g.below(12)].to_vec(),
                _ => (0..g.len(10)).map(|_| *g.pick(b"ab.#190")).collect(),
            };
            e[16..20].copy_from_slice(&1u32.to_le_bytes());
            e[20..24].copy_from_slice(&1u32.to_le_bytes());
            e[28..32].copy_from_slice(&(base + 40).to_le_bytes());
            e.extend((base + 44).to_le_bytes());
            e.extend(&s);
            let term = g.chance(3, 4);
            if term {
                e.push(0);
            } else if s.is_empty() {
                return Ok(());
            }
            let t = must!(rpe::ExportTable::parse(&e, base), "export table");
            let got = t.target_by_index(rpe::ExportAddressIndex(0));
            let dot = s.iter().rposition(|&c| c == b'.');
            let want = if !term { None } else { dot.and_then(|d| {
                let (l, r) = (s[..d].to_vec(), &s[d + 1..]);
                match r {
                    [] => None,
                    [b'#', x @ ..] => {
                        if x.is_empty() || !x.iter().all(|c| c.is_ascii_digit()) { return None }
                        std::str::from_utf8(x).unwrap().trim_start_matches('0').parse::<u16>().or(if x.iter().all(|&c| c == b'0') { Ok(0) } else { Err(()) }).ok().map(|o| Target::ByOrdinal(l, o))
                    }
                    r => Some(Target::ByName(l, r.to_vec())),
                }
            }) };
            let got2 = got.ok().map(|t| match t {
                rpe::ExportTarget::Address(a) => Target::Addr(a),
                rpe::ExportTarget::ForwardByName(l, n) => Target::ByName(l.to_vec(), n.to_vec()),
                rpe::ExportTarget::ForwardByOrdinal(l, n) => Target::ByOrdinal(l.to_vec(), n.0),
            });
            ensure_eq!(got2, want, "forwarded export {:?}", String::from_utf8_lossy(&s));
        }
    }
    Ok(())
}

fn main() {
    run(
        "C11",
        "the image has a section; the changed or parsed table is not empty",
        &[
            "import names are all in one section, and thunk tables are in the section of the import descriptors; names, thunks and descriptors of delayed imports are in one section",
            "sections do not overlap and addresses in a section are below 2^32",
            "non-RVA delay-load descriptors are not generated",
        ],
        &[sub("images", 200_000, 40_000_000, images), sub("outside", 150_000, 20_000_000, outside), sub("tables", 200_000, 20_000_000, tables)],
    )
}
