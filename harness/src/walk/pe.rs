//! The low-level PE interface.
use super::*;
use object::LittleEndian as LE;
use object::pe;
use object::read::pe::*;

type D<'d> = &'d [u8];

pub fn file<'d, H: ImageNtHeaders>(w: &mut W<'d>, d: D<'d>) {
    let max = w.max();
    let Some(dos) = w.ok("dos header", pe::ImageDosHeader::parse(d)) else { return };
    let mut o = dos.nt_headers_offset() as u64;
    if let Some(r) = RichHeaderInfo::parse(d, o) {
        rich(w, &r);
    }
    for o in [0, 128, d.len() as u64, u64::MAX] {
        u(RichHeaderInfo::parse(d, o).is_some());
    }
    let Some((h, dirs)) = w.ok("nt headers", H::parse(d, &mut o)) else { return };
    u((h.is_type_64(), h.is_valid_optional_magic(), h.signature(), h.file_header().machine));
    let x = h.optional_header();
    u((x.magic(), x.size_of_code(), x.address_of_entry_point(), x.base_of_data(), x.image_base(), x.section_alignment(), x.subsystem(), x.dll_characteristics(), x.size_of_stack_reserve(), x.number_of_rva_and_sizes()));
    if let Some(t) = w.ok("pe symbols", h.symbols(d)) {
        super::coff::symbols(w, &t);
    }
    let str = h.symbols(d).map(|t| t.strings()).unwrap_or_default();
    if let Some(s) = w.ok("pe sections", h.sections(d, o)) {
        super::coff::sections(w, d, &s, str);
        u((dirs.len(), dirs.get(0), dirs.get(15), dirs.get(16), dirs.get(usize::MAX)));
        w.each("data directory", max, dirs.enumerate(), |w, (_, x)| {
            u((x.address_range(), x.file_range(&s).is_ok()));
            w.bytes("directory data", x.data(d, &s));
            // What the directories hold, wherever they point.
            if let Ok(v) = x.data(d, &s) {
                let va = x.virtual_address.get(LE);
                tables::<H>(w, v, va);
                imports::<H>(w, &ImportTable::new(v, va, va));
                delayed::<H>(w, &DelayLoadImportTable::new(v, va, va));
            }
        });
        u(dirs.export_directory(d, &s).is_ok());
        if let Some(t) = w.some("export table", dirs.export_table(d, &s)) {
            exports(w, &t);
        }
        if let Some(t) = w.some("import table", dirs.import_table(d, &s)) {
            imports::<H>(w, &t);
        }
        if let Some(t) = w.some("delay load table", dirs.delay_load_import_table(d, &s)) {
            delayed::<H>(w, &t);
        }
        if let Some(t) = w.some("relocation blocks", dirs.relocation_blocks(d, &s)) {
            relocations(w, t);
        }
        if let Some(t) = w.some("resource directory", dirs.resource_directory(d, &s)) {
            resources(w, &t);
        }
        for a in s.iter().map(|s| s.virtual_address.get(LE)).take(5).chain([0, u32::MAX]) {
            if let Some(t) = w.ok("import table at", ImportTable::from_sections(d, &s, a)) {
                imports::<H>(w, &t);
            }
        }
    }
    if let Ok(f) = PeFile::<H>::parse(d) {
        w.saw("pe file");
        u((f.data().len(), f.dos_header().e_magic, f.nt_headers().signature(), f.rich_header_info().is_some(), f.section_table().len(), f.data_directories().len(), f.data_directory(0), f.data_directory(usize::MAX)));
        u((f.export_table().is_ok(), f.import_table().is_ok(), f.delay_load_import_table().is_ok()));
        use object::read::Object;
        w.each("pe sections", max, f.sections(), |_, s| u(s.pe_section().name));
        w.each("pe segments", max, f.segments(), |_, s| u(s.pe_section().name));
    }
}

fn rich<'d>(w: &mut W<'d>, r: &RichHeaderInfo<'d>) {
    u((r.offset, r.length, r.xor_key));
    let max = w.max();
    w.each("rich entry", max, r.unmasked_entries(), |_, e| u((e.comp_id, e.count)));
}

/// Tables parsed from bytes alone.
pub fn tables<'d, H: ImageNtHeaders>(w: &mut W<'d>, d: D<'d>, va: u32) {
    u(DataDirectories::parse(d, va).is_ok());
    u(ExportTable::parse_directory(d).is_ok());
    if let Some(t) = w.ok("raw export table", ExportTable::parse(d, va)) {
        exports(w, &t);
    }
    relocations(w, RelocationBlockIterator::new(d));
    resources(w, &ResourceDirectory::new(d));
}

fn target(w: &mut W, t: ExportTarget) {
    u((t.is_address(), t.is_forward()));
    match t {
        ExportTarget::Address(a) => u(a),
        ExportTarget::ForwardByOrdinal(n, o) => {
            w.inside("forward", n);
            u(o);
        }
        ExportTarget::ForwardByName(n, o) => {
            w.inside("forward", n);
            w.inside("forward", o);
        }
    }
}

fn exports<'d>(w: &mut W<'d>, t: &ExportTable<'d>) {
    let max = w.max();
    u((t.directory().base, t.ordinal_base()));
    w.array("export addresses", t.addresses());
    w.array("export names", t.name_pointers());
    w.array("export ordinals", t.name_ordinals());
    let mut all = vec![0, 1, u32::MAX, u32::MAX - 1];
    w.each("export address", max, t.address_iter(), |w, (i, _, a)| {
        all.push(a);
        u((t.address_by_index(i).is_ok(), t.ordinal_from_index(i).is_ok()));
        if let Ok(x) = t.target_by_index(i) {
            target(w, x);
        }
    });
    w.each("export name", max, t.name_iter(), |w, (p, i)| {
        w.bytes("export name", t.name_from_pointer(p));
        u(t.address_by_index(i).is_ok());
    });
    for a in all {
        u(t.is_forward(a));
        w.obytes("forward string", t.forward_string(a));
        w.bytes("export name", t.name_from_pointer(a));
        if let Ok(x) = t.target_from_address(a) {
            target(w, x);
        }
    }
    for i in [0, 1, 2, 0x7fff, 0xffff] {
        let (x, o) = (ExportAddressIndex(i as _), ExportOrdinal(i as _));
        u((t.ordinal_from_index(x).is_ok(), t.index_from_ordinal(o).is_ok(), t.address_by_index(x).is_ok(), t.address_by_ordinal(o).is_ok(), t.target_by_index(x).is_ok(), t.target_by_ordinal(o).is_ok()));
    }
    if let Some(l) = w.ok("exports", t.exports()) {
        w.each("export", max, l.into_iter(), |w, x| {
            if let Some(n) = x.name {
                w.inside("export name", n);
            }
            target(w, x.target);
        });
    }
}

fn thunks<'d, H: ImageNtHeaders>(w: &mut W<'d>, mut l: ImportThunkList<'d>, import: &dyn Fn(&mut W<'d>, H::ImageThunkData)) {
    let max = w.max();
    for i in [0, 1, 1000, usize::MAX / 8, usize::MAX] {
        u(l.get::<H>(i).is_ok());
    }
    w.steps("thunk", max, || l.next::<H>(), |w, t| {
        u((t.raw(), t.is_ordinal(), t.ordinal(), t.address()));
        import(w, t)
    });
}
fn one<'d>(w: &mut W<'d>, i: Result<Import<'d>, object::read::Error>) {
    match w.ok("thunk import", i) {
        Some(Import::Ordinal(o)) => u(o),
        Some(Import::Name(h, n)) => {
            u(h);
            w.inside("import name", n);
        }
        None => {}
    }
}

fn imports<'d, H: ImageNtHeaders>(w: &mut W<'d>, t: &ImportTable<'d>) {
    let max = w.max();
    for a in [0, 1, u32::MAX] {
        w.bytes("import name", t.name(a));
        u((t.thunks(a).is_ok(), t.hint_name(a).is_ok()));
    }
    let Some(mut it) = w.ok("import descriptors", t.descriptors()) else { return };
    w.steps("import descriptor", max, || it.next(), |w, x| {
        w.bytes("import library", t.name(x.name.get(LE)));
        for a in [x.original_first_thunk.get(LE), x.first_thunk.get(LE)] {
            if let Some(l) = w.ok("import thunks", t.thunks(a)) {
                thunks::<H>(w, l, &|w, x| one(w, t.import::<H>(x)));
            }
        }
    });
}
fn delayed<'d, H: ImageNtHeaders>(w: &mut W<'d>, t: &DelayLoadImportTable<'d>) {
    let max = w.max();
    for a in [0, 1, u32::MAX] {
        w.bytes("import name", t.name(a));
        u((t.thunks(a).is_ok(), t.hint_name(a).is_ok()));
    }
    let Some(mut it) = w.ok("delay load descriptors", t.descriptors()) else { return };
    w.steps("delay load descriptor", max, || it.next(), |w, x| {
        w.bytes("import library", t.name(x.dll_name_rva.get(LE)));
        for a in [x.import_name_table_rva.get(LE), x.import_address_table_rva.get(LE), x.bound_import_address_table_rva.get(LE), x.unload_information_table_rva.get(LE)] {
            if let Some(l) = w.ok("import thunks", t.thunks(a)) {
                thunks::<H>(w, l, &|w, x| one(w, t.import::<H>(x)));
            }
        }
    });
}

fn relocations<'d>(w: &mut W<'d>, mut it: RelocationBlockIterator<'d>) {
    let max = w.max();
    w.steps("relocation block", max, || it.next(), |w, b| {
        u((b.virtual_address(), b.size()));
        w.each("base relocation", max, b, |_, r| u((r.virtual_address, r.typ)));
    });
}

fn resources<'d>(w: &mut W<'d>, d: &ResourceDirectory<'d>) {
    let Some(t) = w.ok("resource root", d.root()) else { return };
    table(w, d, &t, 0);
}
fn table<'d>(w: &mut W<'d>, d: &ResourceDirectory<'d>, t: &ResourceDirectoryTable<'d>, depth: u32) {
    let max = w.max();
    u(t.header.characteristics);
    w.array("resource entries", t.entries);
    w.each("resource entry", max, t.entries.iter(), |w, e| {
        u((e.has_name(), e.is_table(), e.data_offset()));
        let n = || e.name_or_id();
        u(n().id());
        if let Some(n) = n().name() {
            w.saw("resource name");
            u(n.to_string_lossy(*d).is_ok());
            w.bytes("resource name", n.raw_data(*d));
            if let Ok(v) = n.data(*d) {
                w.array("resource name", v);
            }
        }
        u(w.ok("resource data", e.data(*d)).map(|x| x.data().is_some()));
        if let Ok(x) = e.data(*d) {
            if let Some(x) = e.data(*d).ok().and_then(|x| x.data()) {
                u((x.offset_to_data.get(LE), x.size.get(LE)));
            }
            if let Some(t) = x.table() {
                if depth < 3 {
                    table(w, d, &t, depth + 1);
                }
            }
        }
    });
}
