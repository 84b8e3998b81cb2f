//! The low-level COFF interface.
use super::*;
use object::read::coff::*;
use object::read::{SectionIndex, StringTable, SymbolIndex};
use object::pe;

type D<'d> = &'d [u8];

pub fn file<'d, H: CoffHeader>(w: &mut W<'d>, d: D<'d>) {
    let mut off = 0;
    let Some(h) = w.ok("coff header", H::parse(d, &mut off)) else { return };
    u((H::is_type_bigobj(), h.machine(), h.number_of_sections(), h.characteristics()));
    if let Some(t) = w.ok("coff symbols", h.symbols(d)) {
        symbols(w, &t);
    }
    let str = h.symbols(d).map(|t| t.strings()).unwrap_or_default();
    for o in [off, 0, d.len() as u64, u64::MAX] {
        if let Some(s) = w.ok("coff sections", h.sections(d, o)) {
            sections(w, d, &s, str);
        }
    }
    if let Ok(f) = CoffFile::<&[u8], H>::parse(d) {
        w.saw("coff file");
        let max = w.max();
        u((f.coff_header().machine(), f.coff_section_table().len(), f.coff_symbol_table().len()));
        use object::read::Object;
        w.each("coff sections", max, f.sections(), |w, s| {
            u(s.coff_section().name);
            if let Ok(r) = s.coff_relocations() {
                w.array("coff relocations", r);
            }
        });
        w.each("coff segments", max, f.segments(), |_, s| u(s.coff_section().name));
        let secs = f.coff_section_table();
        w.each("coff symbols", max, f.symbols(), |_, s| u((s.coff_symbol().value(), s.coff_symbol().address(0x1000, &secs).is_ok(), s.coff_symbol().address(u64::MAX, &secs).is_ok())));
    }
}

pub fn sections<'d>(w: &mut W<'d>, d: D<'d>, s: &SectionTable<'d>, str: StringTable<'d>) {
    let max = w.max();
    u((s.is_empty(), s.len(), s.max_section_file_offset()));
    for i in [0, 1, s.len(), s.len() + 1, usize::MAX] {
        u(s.section(SectionIndex(i)).is_ok());
    }
    u(s.section_by_name(str, b".text").is_some());
    let mut adr = vec![0, 1, u32::MAX, u32::MAX - 1];
    w.each("coff section", max, s.enumerate(), |w, (_, x)| {
        w.bytes("coff section name", x.name(str));
        w.inside("coff raw name", x.raw_name());
        w.bytes("coff section data", x.coff_data(d));
        u((x.name_offset().is_ok(), x.coff_file_range(), x.coff_alignment(), x.pe_file_range(), x.pe_address_range()));
        w.bytes("pe section data", x.pe_data(d));
        let (a, n) = (x.virtual_address.get(object::LittleEndian), x.virtual_size.get(object::LittleEndian));
        if adr.len() < 60 {
            adr.extend([a, a.wrapping_sub(1), a.wrapping_add(n), a.wrapping_add(n).wrapping_sub(1), a.wrapping_add(n / 2)]);
        }
        for &a in &adr {
            u((x.pe_file_range_at(a), x.contains_rva(a)));
            w.obytes("pe data at", Ok::<_, ()>(x.pe_data_at(d, a)));
            w.obytes("pe data containing", Ok::<_, ()>(x.pe_data_containing(d, a).map(|x| x.0)));
        }
        if let Some(r) = w.ok("coff relocations", x.coff_relocations(d)) {
            w.array("coff relocations", r);
            w.each("coff relocation", max, r.iter(), |_, r| u((r.symbol(), r.typ.get(object::LittleEndian))));
        }
    });
    for a in adr {
        u((s.pe_file_range_at(a), s.section_containing(a).is_some()));
        w.obytes("pe data at", Ok::<_, ()>(s.pe_data_at(d, a)));
        if let Some((b, _)) = s.pe_data_containing(d, a) {
            w.inside("pe data containing", b);
        }
    }
}

pub fn symbols<'d, H: CoffHeader>(w: &mut W<'d>, t: &SymbolTable<'d, &'d [u8], H>) {
    let max = w.max();
    u((t.is_empty(), t.len()));
    strings(w, t.strings());
    let one = |w: &mut W<'d>, i: SymbolIndex| {
        u(t.symbol(i).is_ok());
        u((t.aux_function(i).is_ok(), t.aux_section(i).is_ok(), t.aux_weak_external(i).is_ok()));
        for n in [0, 1, 2, 255] {
            w.bytes("aux file name", t.aux_file_name(i, n));
        }
        for o in [0, 1, 2, usize::MAX] {
            u((t.get::<pe::ImageAuxSymbolSection>(i, o).is_ok(), t.get::<[u8; 18]>(i, o).is_ok()));
        }
    };
    w.each("coff symbol", max, t.iter(), |w, (i, s)| {
        u((s.value(), s.section_number(), s.typ(), s.storage_class(), s.number_of_aux_symbols(), s.section(), s.is_definition()));
        u((s.has_aux_file_name(), s.has_aux_function(), s.has_aux_section(), s.has_aux_weak_external(), s.base_type(), s.derived_type()));
        w.inside("coff raw name", s.raw_name());
        w.bytes("coff symbol name", s.name(t.strings()));
        one(w, i);
        if s.has_aux_file_name() {
            w.bytes("aux file name", t.aux_file_name(i, s.number_of_aux_symbols()));
        }
        if let (true, Ok(x)) = (s.has_aux_section(), t.aux_section(i)) {
            u((x.length.get(object::LittleEndian), x.selection));
        }
    });
    for i in [0, 1, t.len(), t.len() + 1, u32::MAX as usize, usize::MAX - 1, usize::MAX] {
        one(w, SymbolIndex(i));
    }
}

pub fn import<'d>(w: &mut W<'d>, d: D<'d>) {
    let mut o = 0;
    if let Some(h) = w.ok("import header", pe::ImportObjectHeader::parse(d, &mut o)) {
        u((h.import_type(), h.name_type()));
        if let Some(x) = w.ok("import data", h.parse_data(d, &mut o)) {
            w.inside("import symbol", x.symbol());
            w.inside("import dll", x.dll());
            u(x.export());
        }
    }
    if let Some(f) = w.ok("import file", ImportFile::parse(d)) {
        u((f.architecture(), f.sub_architecture(), f.import_type()));
        w.inside("import symbol", f.symbol());
        w.inside("import dll", f.dll());
        u(format!("{:?}", f.import()));
    }
}
