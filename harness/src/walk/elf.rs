//! The low-level ELF interface.
use super::*;
use object::read::elf::*;
use object::read::{SectionIndex, SymbolIndex};
use object::{Endianness, elf};

type D<'d> = &'d [u8];

pub fn file<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>) {
    let max = w.max();
    let Some(h) = w.ok("elf header", H::parse(d)) else { return };
    let Ok(e) = h.endian() else { return };
    u((h.is_type_64(), h.e_ident().data, h.e_type(e), h.e_machine(e), h.e_version(e), h.e_flags(e), h.e_ehsize(e)));
    u((h.is_supported(), h.is_class_32(), h.is_class_64(), h.is_little_endian(), h.is_big_endian(), h.is_mips64el(e)));
    u((h.phnum(e, d).is_ok(), h.shnum(e, d).is_ok(), h.shstrndx(e, d).is_ok(), h.section_0(e, d).is_ok(), h.section_strings_index(e, d).is_ok()));
    let mips = h.is_mips64el(e);
    if let Ok(p) = h.program_headers(e, d) {
        w.array("program headers", p);
        w.each("program header", max, p.iter(), |w, p| segment::<H>(w, d, e, p));
    }
    if let Ok(f) = ElfFile::<H>::parse(d) {
        w.saw("elf file");
        u((f.endian(), f.data().len(), f.elf_header().e_type(e), f.elf_program_headers().len()));
        u((f.elf_section_table().len(), f.elf_symbol_table().len(), f.elf_dynamic_symbol_table().len(), f.elf_dynamic_table().is_ok()));
        for i in 0..12 {
            u(f.elf_relocation_sections().get(SectionIndex(i)));
        }
        use object::read::{Object, ObjectComdat};
        w.each("elf sections", max, f.sections(), |w, s| {
            u((s.elf_section_header().sh_type(e), s.elf_relocation_section_index().is_ok(), s.elf_relocation_section().is_ok()));
            if let Ok(r) = s.elf_linked_rel() {
                w.array("rel", r);
            }
            if let Ok(r) = s.elf_linked_rela() {
                w.array("rela", r);
            }
        });
        w.each("elf comdats", max, f.comdats(), |_, s| u((s.elf_section_header().sh_type(e), s.symbol())));
    }
    let Some(hs) = w.ok("section headers", h.section_headers(e, d)) else { return };
    w.array("section headers", hs);
    if let Ok(s) = h.section_strings(e, d, hs) {
        strings(w, s);
    }
    let s = match h.sections(e, d) {
        Ok(s) => s,
        Err(_) => SectionTable::new(hs, Default::default()),
    };
    let mut syms = vec![];
    for t in [elf::SHT_SYMTAB, elf::SHT_DYNSYM] {
        if let Some(t) = w.ok("elf symbols", s.symbols(e, d, t)) {
            syms.push(t);
        }
    }
    u(s.section_by_name(e, b".text").is_some());
    let versions = w.some("versions", s.versions(e, d)).unwrap_or_default();
    for i in 0..hs.len().min(200) {
        section::<H>(w, d, e, &s, i, &hs[i], &syms, &versions, mips);
    }
    for t in &syms {
        table::<H>(w, e, t, &versions);
    }
    for i in [0, 1, hs.len(), usize::MAX] {
        u((s.section(SectionIndex(i)).is_ok(), s.strings(e, d, SectionIndex(i)).is_ok(), s.symbol_table_by_index(e, d, SectionIndex(i)).is_ok()));
        if let Ok(r) = s.relocation_sections(e, SectionIndex(i)) {
            for k in 0..hs.len().min(12) + 1 {
                u(r.get(SectionIndex(k)));
            }
        }
    }
    if let Some(t) = w.ok("dynamic table", s.dynamic_table(e, d)) {
        dynamic::<H>(w, e, &t);
    }
    if let Some((r, _)) = w.some("dynamic", s.dynamic(e, d)) {
        w.array("dynamic", r);
    }
    u((s.hash_header(e, d).is_ok(), s.gnu_hash_header(e, d).is_ok(), s.hash(e, d).is_ok(), s.gnu_hash(e, d).is_ok()));
    u((s.gnu_versym(e, d).is_ok(), s.gnu_verdef(e, d).is_ok(), s.gnu_verneed(e, d).is_ok()));
}

fn segment<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>, e: Endianness, p: &'d H::ProgramHeader) {
    u((p.p_type(e), p.p_flags(e), p.p_offset(e).into(), p.p_vaddr(e).into(), p.p_paddr(e).into(), p.file_range(e)));
    w.bytes("segment data", p.data(e, d));
    if let Ok(a) = p.data_as_array::<object::U64<Endianness>, _>(e, d) {
        w.array("segment array", a);
    }
    let (a, n): (u64, u64) = (p.p_vaddr(e).into(), p.p_filesz(e).into());
    for a in [0, a, a.wrapping_add(n), u64::MAX] {
        for n in [0, 1, n, u64::MAX] {
            w.obytes("segment range", p.data_range(e, d, a, n));
        }
    }
    if let Some(x) = w.some("segment dynamic", p.dynamic(e, d)) {
        w.array("segment dynamic", x);
    }
    w.obytes("interpreter", p.interpreter(e, d));
    if let Some(n) = w.some("segment notes", p.notes(e, d)) {
        notes::<H>(w, e, n);
    }
}

pub fn notes<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, e: Endianness, mut n: NoteIterator<'d, H>) {
    let max = w.max();
    w.steps("note", max, || n.next(), |w, n| {
        u((n.n_type(e), n.n_namesz(e), n.n_descsz(e)));
        w.inside("note name", n.name());
        w.inside("note name", n.name_bytes());
        w.inside("note desc", n.desc());
        if let Some(mut p) = n.gnu_properties(e) {
            w.steps("gnu property", max, || p.next(), |w, p| {
                u((p.pr_type(), p.data_u32(e).is_ok()));
                w.inside("gnu property", p.pr_data());
            });
        }
    });
}

fn dynamic<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, e: Endianness, t: &DynamicTable<'d, H>) {
    let max = w.max();
    u((t.len(), t.is_empty()));
    strings(w, *t.strings());
    w.each("dynamic entry", max, t.dynamics().iter(), |w, x| {
        u((x.d_tag(e), x.d_val(e).into(), x.tag(e), x.val(e), x.is_string(e), x.is_address(e)));
        #[allow(deprecated)]
        u((x.tag32(e), x.val32(e)));
        w.bytes("dynamic string", x.string(e, *t.strings()));
    });
    w.each("dynamic entry", max, t.iter(), |w, x| {
        u((x.is_address(), x.is_string()));
        w.bytes("dynamic string", t.string(x));
        w.bytes("dynamic string", x.string(t.strings()));
    });
}

fn table<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, e: Endianness, t: &SymbolTable<'d, H>, v: &VersionTable<'d, H>) {
    let max = w.max();
    u((t.section(), t.shndx_section(), t.string_section(), t.is_empty(), t.len(), t.symbols().len()));
    w.array("symbols", t.symbols());
    strings(w, t.strings());
    w.each("elf symbol", max, t.enumerate(), |w, (i, s)| {
        u((s.st_name(e), s.st_info(), s.st_bind(), s.st_type(), s.st_other(), s.st_visibility(), s.st_shndx(e), s.st_value(e).into(), s.st_size(e).into()));
        u((s.is_undefined(e), s.is_common(e), s.is_absolute(e), s.is_local(), s.is_weak(), s.is_definition(e, t.strings())));
        w.bytes("elf symbol name", t.symbol_name(e, s));
        u((t.shndx(e, i), t.symbol_section(e, s, i).is_ok(), t.symbol(i).is_ok()));
        // The section of another symbol.
        u(t.symbol_section(e, s, SymbolIndex(usize::MAX)).is_ok());
        let x = v.version_index(e, i);
        u(v.version(x.index()).map(|v| v.map(|v| (v.name().len(), v.hash(), v.file().map(|x| x.len())))).ok());
        u(v.matches(e, i, None));
    });
    for i in [0, 1, t.len(), usize::MAX] {
        u((t.symbol(SymbolIndex(i)).is_ok(), t.shndx(e, SymbolIndex(i)), v.version_index(e, SymbolIndex(i))));
    }
    for i in [0u16, 1, 2, 3, 0x7fff, 0x8000, 0x8001, 0xffff] {
        u(v.version(elf::VersionIndex(i)).is_ok());
    }
}

pub fn hash<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, e: Endianness, t: &HashTable<'d, H>, syms: &[SymbolTable<'d, H>], v: &VersionTable<'d, H>) {
    w.saw("hash");
    u(t.symbol_table_length());
    for y in syms {
        for n in names::<H>(e, y) {
            u(t.find(e, n, elf::hash(n), None, y, v).is_some());
            u(t.find(e, b"absent", elf::hash(n), None, y, v).is_some());
        }
    }
    u(t.find(e, b"x", 0, None, &SymbolTable::<H>::default(), v).is_some());
}
pub fn gnu_hash<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, e: Endianness, t: &GnuHashTable<'d, H>, syms: &[SymbolTable<'d, H>], v: &VersionTable<'d, H>) {
    w.saw("gnu hash");
    u((t.symbol_base(), t.symbol_table_length(e)));
    for y in syms {
        for n in names::<H>(e, y) {
            u(t.find(e, n, elf::gnu_hash(n), None, y, v).is_some());
            u(t.find(e, b"absent", elf::gnu_hash(n), None, y, v).is_some());
        }
    }
    for h in [0, 1, 0x1f, 0x3f, u32::MAX] {
        u(t.find(e, b"x", h, None, &SymbolTable::<H>::default(), v).is_some());
    }
}
fn names<'d, H: FileHeader<Endian = Endianness>>(e: Endianness, y: &SymbolTable<'d, H>) -> Vec<&'d [u8]> {
    let mut l = vec![&b""[..], b"main"];
    l.extend(y.iter().take(12).filter_map(|s| y.symbol_name(e, s).ok()));
    l
}

pub fn attributes<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, a: &AttributesSection<'d, H>) {
    let max = w.max();
    u(a.version());
    let Some(mut it) = w.ok("attributes", a.subsections()) else { return };
    w.steps("attribute subsection", max, || it.next(), |w, s| {
        u(s.length());
        w.inside("vendor", s.vendor());
        let mut it = s.subsubsections();
        w.steps("attribute subsubsection", max, || it.next(), |w, s| {
            u((s.tag(), s.length()));
            w.inside("indices", s.indices_data());
            w.inside("attributes", s.attributes_data());
            let mut it = s.indices();
            w.steps("attribute index", max, || it.next(), |_, _| {});
            // The meaning of a tag decides what follows it: try all.
            for way in 0..4u64 {
                let mut r = s.attributes();
                w.steps("attribute tag", max, || {
                    let t = r.read_tag()?;
                    if let Some(t) = t {
                        let i = match way {
                            0 => true,
                            1 => false,
                            2 => t & 1 == 0,
                            _ => t & 1 == 1,
                        };
                        if i { r.read_integer().map(|_| ())? } else { r.read_string().map(|_| ())? }
                    }
                    Ok::<_, object::read::Error>(t)
                }, |_, _| {});
            }
        });
    });
}

pub fn crel(w: &mut W, it: CrelIterator) {
    let max = w.max();
    u((it.is_rela(), it.len(), it.is_empty(), it.size_hint()));
    w.each("crel", max, it, |_, r| {
        if let Ok(r) = r {
            u((r.symbol(), r.r_offset, r.r_addend));
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn section<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>, e: Endianness, s: &SectionTable<'d, H>, i: usize, h: &'d H::SectionHeader, syms: &[SymbolTable<'d, H>], v: &VersionTable<'d, H>, mips: bool) {
    let max = w.max();
    u((h.sh_name(e), h.sh_type(e), h.sh_flags(e), h.sh_addr(e).into(), h.sh_addralign(e).into(), h.sh_entsize(e).into(), h.link(e), h.has_info_link(e), h.info_link(e), h.file_range(e)));
    w.bytes("section name", s.section_name(e, h));
    w.bytes("section data", h.data(e, d));
    if let Ok(a) = h.data_as_array::<object::U32<Endianness>, _>(e, d) {
        w.array("section array", a);
    }
    if let Some(t) = w.some("section strings", h.strings(e, d)) {
        strings(w, t);
    }
    if let Some(t) = w.some("section symbols", h.symbols(e, d, s, SectionIndex(i))) {
        table::<H>(w, e, &t, v);
    }
    if let Some((r, _)) = w.some("section rel", h.rel(e, d)) {
        w.array("rel", r);
        w.each("rel", max, r.iter(), |_, r| u((r.r_offset(e).into(), r.r_info(e).into(), r.r_sym(e), r.r_type(e), r.symbol(e), Crel::from_rel(r, e).symbol())));
    }
    if let Some((r, _)) = w.some("section rela", h.rela(e, d)) {
        w.array("rela", r);
        w.each("rela", max, r.iter(), |_, r| u((r.r_offset(e).into(), r.r_info(e, mips).into(), r.r_addend(e).into(), r.r_sym(e, mips), r.r_type(e, mips), r.symbol(e, mips), Crel::from_rela(r, e, mips).symbol())));
    }
    if let Some(it) = w.some("section relr", h.relr(e, d)) {
        w.each("relr", max * 64, it, |_, x| u(x.into()));
    }
    if let Some((it, _)) = w.some("section crel", h.crel(e, d)) {
        crel(w, it);
    }
    if let Some(t) = w.some("section dynamic table", h.dynamic_table(e, d, s)) {
        dynamic::<H>(w, e, &t);
    }
    if let Some((r, _)) = w.some("section dynamic", h.dynamic(e, d)) {
        w.array("dynamic", r);
    }
    if let Some(n) = w.some("section notes", h.notes(e, d)) {
        notes::<H>(w, e, n);
    }
    if let Some((f, l)) = w.some("section group", h.group(e, d)) {
        u(f);
        w.array("group", l);
    }
    u((h.hash_header(e, d).is_ok(), h.gnu_hash_header(e, d).is_ok()));
    if let Some((t, _)) = w.some("section hash", h.hash(e, d)) {
        hash::<H>(w, e, &t, syms, v);
    }
    if let Some((t, _)) = w.some("section gnu hash", h.gnu_hash(e, d)) {
        gnu_hash::<H>(w, e, &t, syms, v);
    }
    let l = s.strings(e, d, h.link(e)).unwrap_or_default();
    let versym = w.some("section versym", h.gnu_versym(e, d)).map(|x| x.0);
    let verdef = w.some("section verdef", h.gnu_verdef(e, d)).map(|x| x.0);
    let verneed = w.some("section verneed", h.gnu_verneed(e, d)).map(|x| x.0);
    if let Some(r) = versym {
        w.array("versym", r);
        u(VersionTable::<H>::parse(e, r, None, None, l).is_ok());
    }
    if let Some(mut it) = verdef.clone() {
        w.steps("verdef", max, || it.next(), |w, (x, mut it)| {
            u((x.vd_version.get(e), x.vd_ndx.get(e)));
            // The count is a 16-bit field, and entries may overlap.
            w.steps("verdaux", max.max(0x1_0000), || it.next(), |w, x| {
                w.bytes("verdaux name", x.name(e, l));
            });
        });
    }
    if let Some(mut it) = verneed.clone() {
        w.steps("verneed", max, || it.next(), |w, (x, mut it)| {
            w.bytes("verneed file", x.file(e, l));
            w.steps("vernaux", max.max(0x1_0000), || it.next(), |w, x| {
                w.bytes("vernaux name", x.name(e, l));
                u(x.vna_other(e));
            });
        });
    }
    if verdef.is_some() || verneed.is_some() {
        u(VersionTable::<H>::parse(e, versym.unwrap_or_default(), verdef, verneed, l).is_ok());
    }
    if let Some(a) = w.some("gnu attributes", h.gnu_attributes(e, d)) {
        attributes::<H>(w, &a);
    }
    if let Some(a) = w.ok("section attributes", h.attributes(e, d)) {
        attributes::<H>(w, &a);
    }
    if let Some((c, o, n)) = w.some("compression", h.compression(e, d)) {
        u((c.ch_type(e), c.ch_size(e).into(), c.ch_addralign(e).into(), o, n));
    }
}

/// Sub-tables parsed from bytes alone.
pub fn tables<'d, H: FileHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>, e: Endianness, align: u64)
where
    H::Word: From<u32>,
{
    if let Some(t) = w.ok("raw hash", HashTable::<H>::parse(e, d)) {
        hash::<H>(w, e, &t, &[], &Default::default());
    }
    if let Some(t) = w.ok("raw gnu hash", GnuHashTable::<H>::parse(e, d)) {
        gnu_hash::<H>(w, e, &t, &[], &Default::default());
    }
    if let Some(a) = w.ok("raw attributes", AttributesSection::<H>::new(e, d)) {
        attributes::<H>(w, &a);
    }
    if let Ok(align) = TryInto::<u32>::try_into(align) {
        if let Some(n) = w.ok("raw notes", NoteIterator::<H>::new(e, align.into(), d)) {
            notes::<H>(w, e, n);
        }
    }
    if let Some(it) = w.ok("raw crel", CrelIterator::new(d)) {
        crel(w, it);
    }
    let n = d.len() / std::mem::size_of::<H::Relr>();
    if let Ok((r, _)) = object::pod::slice_from_bytes::<H::Relr>(d, n) {
        let max = w.max() * 64;
        w.each("raw relr", max, RelrIterator::<H>::new(e, r), |_, x| u(x.into()));
    }
}
