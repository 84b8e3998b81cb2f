import sys; sys.path.insert(0, '/verif/tools')
from plant import new
ONLY = sys.argv[1:]
def bug(id, *a, **k):
    if not ONLY or id in ONLY: new(id, *a, **k)

bug("rich-unaligned", "C11",
 [("src/read/pe/rich.rs", """        if data.get(offset..)?.get(..needle.len())? == needle {
            return Some(offset);
        }
        offset += align;""", """        if data.get(offset..)?.get(..needle.len())? == needle {
            return Some(offset / align * align);
        }
        offset += 1;""")],
 '''use object::read::pe::RichHeaderInfo;
fn main() {
    let key = 0x1234_5678u32;
    let mut d = vec![0u8; 64];
    d[33..37].copy_from_slice(b"Rich");
    for w in [0x536e_6144 ^ key, key, key, key, 0x0105_0003 ^ key, 7 ^ key] { d.extend(w.to_le_bytes()); }
    d.extend(b"Rich");
    d.extend(key.to_le_bytes());
    d.resize(d.len() + 16, 0);
    let r = RichHeaderInfo::parse(&d[..], d.len() as u64).expect("rich header");
    let e: Vec<_> = r.unmasked_entries().map(|e| (e.comp_id, e.count)).collect();
    assert_eq!(e, [(0x0105_0003, 7)]);
}
''', "a DOS stub with the letters Rich at an offset that is not a multiple of 4", "the rich header of the image is not found")

bug("gnu-property-align", "C08",
 [("src/read/elf/note.rs", "let align = if Elf::is_type_64_sized() { 8 } else { 4 };", "let align = if self.header.n_descsz(endian) % 8 == 0 { 8 } else { 4 };")],
 '''use object::write::Object;
use object::{read::elf::*, Architecture, BinaryFormat, Endianness, SectionKind};
fn main() {
    let mut o = Object::new(BinaryFormat::Elf, Architecture::I386, Endianness::Little);
    let s = o.add_section(vec![], b".note.gnu.property".to_vec(), SectionKind::Note);
    let mut d = vec![];
    // Two properties of 12 bytes: 24 bytes in all.
    for w in [4u32, 24, 5, u32::from_le_bytes(*b"GNU\\0"), 0xc000_0002, 4, 3, 0xc000_0001, 4, 1] { d.extend(w.to_le_bytes()); }
    o.append_section_data(s, &d, 4);
    let b = o.write().unwrap();
    let f = ElfFile32::<Endianness>::parse(&b[..]).unwrap();
    let e = f.endian();
    for s in f.elf_section_table().iter() {
        let Some(mut n) = s.notes(e, &b[..]).unwrap() else { continue };
        let n = n.next().unwrap().unwrap();
        let mut p = n.gnu_properties(e).unwrap();
        let mut got = vec![];
        while let Some(p) = p.next().unwrap() { got.push((p.pr_type().0, p.data_u32(e).unwrap())); }
        assert_eq!(got, [(0xc000_0002, 3), (0xc000_0001, 1)]);
        return;
    }
    panic!("no note");
}
''', "a 32-bit file whose property array is a multiple of 8 bytes long", "the second property is misread")

bug("reloc-block-pad", "C28",
 [("src/write/pe.rs", """            // Blocks must have an even number of relocations.
            if block.count & 1 != 0 {
                self.relocs.push(0.into());
                block.count += 1;
            }
            debug_assert!(block.virtual_address < virtual_address);""", """            debug_assert!(block.virtual_address < virtual_address);
            // Blocks must have an even number of relocations.
            if block.count & 1 != 0 && virtual_address - block.virtual_address > 0x1000 {
                self.relocs.push(0.into());
                block.count += 1;
            }""")],
 '''use object::write::pe::*;
use object::pe;
fn main() {
    let mut v = Vec::new();
    let mut w = Writer::new(true, 0x1000, 0x200, &mut v);
    w.reserve_dos_header_and_stub();
    w.reserve_nt_headers(16);
    for a in [0x1004, 0x2008, 0x2010] { w.add_reloc(a, pe::IMAGE_REL_BASED_DIR64); }
    w.reserve_section_headers(1);
    let r = w.reserve_reloc_section();
    w.write_dos_header_and_stub().unwrap();
    w.write_nt_headers(NtHeaders {
        machine: pe::IMAGE_FILE_MACHINE_AMD64, time_date_stamp: 0, characteristics: pe::FileFlags(0x22),
        major_linker_version: 0, minor_linker_version: 0, address_of_entry_point: 0, image_base: 0x1_4000_0000,
        major_operating_system_version: 6, minor_operating_system_version: 0, major_image_version: 0, minor_image_version: 0,
        major_subsystem_version: 6, minor_subsystem_version: 0, subsystem: pe::IMAGE_SUBSYSTEM_WINDOWS_CUI,
        dll_characteristics: pe::DllFlags(0), size_of_stack_reserve: 0, size_of_stack_commit: 0,
        size_of_heap_reserve: 0, size_of_heap_commit: 0,
    });
    w.write_section_headers();
    w.write_reloc_section();
    drop(w);
    let d = &v[r.file_offset as usize..];
    let word = |at: usize| u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
    // Each block starts on a 4-byte boundary.
    assert_eq!(word(0), 0x1000);
    assert_eq!(word(4) % 4, 0);
    assert_eq!(word(word(4) as usize), 0x2000);
}
''', "relocations in adjacent pages, with an odd number of them in the first", "a block of base relocations is not aligned to 4 bytes")

bug("shndx-at-limit", "C27",
 [("src/write/elf/writer.rs", """            if section_index.0 >= elf::SHN_LORESERVE.into() {
                self.need_symtab_shndx = true;""", """            if section_index.0 > elf::SHN_LORESERVE.into() {
                self.need_symtab_shndx = true;""")],
 '''use object::write::{Object, Symbol, SymbolSection};
use object::{Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _};
fn main() {
    let mut o = Object::new(BinaryFormat::Elf, Architecture::X86_64, Endianness::Little);
    let mut last = None;
    for _ in 0..0xff00 { last = Some(o.add_section(vec![], b".d".to_vec(), SectionKind::Data)); }
    o.add_symbol(Symbol { name: b"x".to_vec(), value: 0, size: 0, kind: SymbolKind::Data, scope: SymbolScope::Linkage, weak: false,
        section: SymbolSection::Section(last.unwrap()), flags: SymbolFlags::None });
    let b = o.write().unwrap();
    let f = object::File::parse(&*b).unwrap();
    let s = f.symbols().find(|s| s.name() == Ok("x")).unwrap();
    let i = s.section_index().expect("section");
    assert_eq!(i.0, 0xff00);
    assert_eq!(f.section_by_index(i).unwrap().name(), Ok(".d"));
}
''', "a symbol in section 0xff00 exactly, and none in a later section", "no extended section index table is written for it")

bug("chain-index-12-bits", "C13",
 [("src/read/macho/fixup.rs", "usize::from(page_start & !macho::DYLD_CHAINED_PTR_START_MULTI);", "usize::from(page_start & (macho::DYLD_CHAINED_PTR_START_MULTI >> 2) - 1);")],
 '''use object::Endianness as E;
fn main() {
    let mut d = vec![0u8; 32];
    d[4..8].copy_from_slice(&32u32.to_le_bytes()); // starts
    for at in [8, 12] { d[at..at + 4].copy_from_slice(&32u32.to_le_bytes()); }
    d[20..24].copy_from_slice(&1u32.to_le_bytes());
    let at = 9000u16;
    d.extend(1u32.to_le_bytes());
    d.extend(8u32.to_le_bytes());
    d.extend((22 + 2 * u32::from(at) + 2).to_le_bytes());
    d.extend(0x4000u16.to_le_bytes());
    d.extend(2u16.to_le_bytes()); // DYLD_CHAINED_PTR_64
    d.extend(0u64.to_le_bytes());
    d.extend(0u32.to_le_bytes());
    d.extend(1u16.to_le_bytes());
    d.extend((0x8000 | at).to_le_bytes());
    d.resize(d.len() + 2 * usize::from(at - 1), 0xff);
    d.extend((0x8000u16 | 8).to_le_bytes());
    let u = |x| object::U32::new(E::Little, x);
    let c = object::macho::LinkeditDataCommand::<E> {
        cmd: object::U32::new(E::Little, object::macho::LC_DYLD_CHAINED_FIXUPS), cmdsize: u(16), dataoff: u(0), datasize: u(d.len() as u32) };
    let f = c.chained_fixups(E::Little, &d[..]).unwrap();
    let mut s = f.segments(E::Little).unwrap();
    let s = s.next().unwrap().unwrap();
    let seg = vec![0u8; 0x4000];
    let mut x = s.fixups(E::Little, 0, &seg);
    assert_eq!(x.next().unwrap().unwrap().0, 8);
    assert!(x.next().unwrap().is_none());
}
''', "a page with several chains whose starts lie after the first 8192 entries", "the fixups of that page are read from the wrong entry")

bug("comdat-number-16-bits", "C10",
 [("src/read/coff/comdat.rs", """                    u32::from(aux.number.get(LE)) | (u32::from(aux.high_number.get(LE)) << 16)
                } else {
                    u32::from(aux.number.get(LE))
                };
                if number == self.section_index {""", """                    u32::from(aux.number.get(LE)) | (u32::from(aux.high_number.get(LE)) << 16)
                } else {
                    u32::from(aux.number.get(LE))
                };
                if number as u16 == self.section_index as u16 {""")],
 '''use object::read::{coff::CoffBigFile, Object, ObjectComdat};
fn main() {
    let n = 65540u32;
    let mut d = vec![];
    for w in [0u16, 0xffff, 2, 0x8664] { d.extend(w.to_le_bytes()); }
    d.extend(0u32.to_le_bytes());
    d.extend([0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
    d.extend([0u8; 16]);
    for w in [n, 56 + 40 * n, 8] { d.extend(w.to_le_bytes()); }
    assert_eq!(d.len(), 56);
    d.resize(56 + 40 * n as usize, 0);
    let sym = |d: &mut Vec<u8>, sec: u32, class: u8, aux: u8| {
        d.extend(b"name\\0\\0\\0\\0"); d.extend(0u32.to_le_bytes()); d.extend(sec.to_le_bytes()); d.extend([0, 0, class, aux]);
    };
    let aux = |d: &mut Vec<u8>, number: u32, sel: u8| {
        let at = d.len();
        d.resize(at + 20, 0);
        d[at + 12..at + 14].copy_from_slice(&(number as u16).to_le_bytes());
        d[at + 14] = sel;
        d[at + 16..at + 18].copy_from_slice(&((number >> 16) as u16).to_le_bytes());
    };
    sym(&mut d, 1, 3, 1); aux(&mut d, 0, 2);
    sym(&mut d, 1, 2, 0);
    sym(&mut d, 65537, 3, 1); aux(&mut d, 0, 2);
    sym(&mut d, 65537, 2, 0);
    // Section 3 goes with section 65537.
    sym(&mut d, 3, 3, 1); aux(&mut d, 65537, 5);
    d.extend(4u32.to_le_bytes());
    // Eight entries with the auxiliary ones; `n` above says 8.
    let f: CoffBigFile = CoffBigFile::parse(&d[..]).unwrap();
    let got: Vec<Vec<usize>> = f.comdats().map(|c| c.sections().map(|s| s.0).collect()).collect();
    assert_eq!(got, [vec![1], vec![65537, 3]]);
}
''', "a bigobj file with more than 65536 sections and an associative COMDAT", "a section is reported in another COMDAT group")

bug("macho-long-section-name", "C19",
 [("src/read/macho/file.rs", "let max_len = MAX_SECTION_NAME_LEN - name_prefix.len();", "let max_len = MAX_SECTION_NAME_LEN - query_prefix.len();")],
 '''use object::write::Object;
use object::read::{Object as _, ObjectSection as _};
use object::{Architecture, BinaryFormat, Endianness, SectionKind};
fn main() {
    let mut o = Object::new(BinaryFormat::MachO, Architecture::X86_64, Endianness::Little);
    for n in ["__debug_str_offs", "__debug_gnu_pubn", "__debug_rnglists", "__text"] { o.add_section(b"__DWARF".to_vec(), n.into(), SectionKind::Debug); }
    let b = o.write().unwrap();
    let f = object::File::parse(&*b).unwrap();
    for (q, n) in [(".text", "__text"), (".debug_rnglists", "__debug_rnglists"), (".debug_str_offsets", "__debug_str_offs"), (".debug_gnu_pubn", "__debug_gnu_pubn")] {
        assert_eq!(f.section_by_name(q).map(|s| s.name().unwrap().to_string()).as_deref(), Some(n), "{q}");
    }
}
''', "a section name that was cut to 16 characters", "the section is not found by its usual name")

bug("common-alignment-flags", "C34",
 [("src/macho.rs", "SymbolDesc((self.0 & 0xf0ff) | (u16::from(alignment & 0xf) << 8))", "SymbolDesc((self.0 & 0x00ff) | (u16::from(alignment & 0xf) << 8))")],
 '''use object::macho::*;
fn main() {
    let d = SymbolDesc(0x2a35).with_common_alignment(5);
    assert_eq!(d, SymbolDesc(0x2535));
    assert_eq!(d.common_alignment(), 5);
}
''', "setting the alignment in a description with bits above the field", "flags of the symbol are cleared")
