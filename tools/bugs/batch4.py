import sys; sys.path.insert(0, '/verif/tools')
from plant import new
ONLY = sys.argv[1:]
def bug(id, *a, **k):
    if not ONLY or id in ONLY: new(id, *a, **k)

bug("symbol-at-address-end", "C20",
 [("src/read/symbol_map.rs", "entry.size() == 0 || address.wrapping_sub(entry.address()) < entry.size()",
   "entry.size() == 0 || address < entry.address().wrapping_add(entry.size())")],
 '''use object::{SymbolMap, SymbolMapName};
fn main() {
    let map = SymbolMap::new(vec![
        SymbolMapName::new(0x1000, 0x10, "a"),
        SymbolMapName::new(0xffff_ffff_ffff_fff0, 0x10, "last"),
    ]);
    assert_eq!(map.containing(0x100f).map(|s| s.name()), Some("a"));
    assert_eq!(map.containing(0x1010), None);
    assert_eq!(map.containing(0xffff_ffff_ffff_fff4).map(|s| s.name()), Some("last"));
}
''', "a symbol that ends at the end of the address space", "addresses in the symbol aren't resolved")

bug("memory64-last", "C16",
 [("src/read/wasm.rs", """                        let memory = memory.read_error("Couldn't read a memory item")?;
                        file.has_memory64 |= memory.memory64;""",
   """                        let memory = memory.read_error("Couldn't read a memory item")?;
                        file.has_memory64 = memory.memory64;""")],
 '''use object::read::wasm::WasmFile;
use object::Object;
fn main() {
    let mut d = b"\\0asm\\x01\\0\\0\\0".to_vec();
    // Two memories: the first is a 64-bit memory.
    d.extend([5, 5, 2, 4, 1, 0, 1]);
    d.extend([0, 4, 1, b'x', 0, 0]);
    let f = WasmFile::parse(&d[..]).unwrap();
    assert!(f.is_64());
}
''', "a module with a 64-bit memory before a 32-bit memory", "the module is reported as 32-bit")

bug("csect-index-aux", "C24",
 [("src/write/xcoff.rs", "symbol_offsets[containing_csect.0].index as u64", "containing_csect.0 as u64")],
 '''use object::write::{Object, Symbol, SymbolSection, SymbolId};
use object::{xcoff, read::xcoff::{CsectAux as _, Symbol as _, XcoffFile32}, Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
fn sym(o: &mut Object<'static>, s: object::write::SectionId, name: &[u8], value: u64, size: u64, typ: u8, c: Option<SymbolId>) -> SymbolId {
    o.add_symbol(Symbol {
        name: name.to_vec(), value, size, kind: SymbolKind::Text, scope: SymbolScope::Linkage, weak: false,
        section: SymbolSection::Section(s),
        flags: SymbolFlags::Xcoff { n_type: xcoff::SymbolType(0), n_sclass: xcoff::C_EXT, x_smtyp: xcoff::CsectAuxSmtyp(typ), x_smclas: xcoff::XMC_PR, containing_csect: c },
    })
}
fn main() {
    let mut o = Object::new(BinaryFormat::Xcoff, Architecture::PowerPc, Endianness::Big);
    let s = o.add_section(vec![], b".text".to_vec(), SectionKind::Text);
    o.append_section_data(s, &[0; 32], 4);
    sym(&mut o, s, b"one", 0, 16, 1, None);
    let two = sym(&mut o, s, b"two", 16, 16, 1, None);
    sym(&mut o, s, b"entry", 20, 0, 2, Some(two));
    let b = o.write().unwrap();
    let f = XcoffFile32::<&[u8]>::parse(&b[..]).unwrap();
    let t = f.xcoff_symbol_table();
    let mut index = None;
    for (i, s) in t.iter() {
        match s.name(t.strings()).unwrap() {
            b"two" => index = Some(i.0 as u64),
            b"entry" => assert_eq!(Some(t.aux_csect(i, 1).unwrap().x_scnlen()), index),
            _ => {}
        }
    }
    assert!(index.is_some());
}
''', "a label symbol with an explicit containing csect that follows symbols with auxiliary entries", "the label refers to the wrong csect")

bug("csect-aux-first", "C15",
 [("src/read/xcoff/symbol.rs", """            // XCOFF32 must have the csect auxiliary entry as the last auxiliary entry.
            // XCOFF64 doesn't require this, but conventionally does.
            if let Ok(aux_csect) = self
                .file
                .symbols
                .aux_csect(self.index, self.symbol.n_numaux() as usize)
            {""", """            if let Ok(aux_csect) = self.file.symbols.aux_csect(self.index, 1) {""")],
 '''use object::{Object, ObjectSymbol};
fn main() {
    let mut d = vec![];
    d.extend([0x01, 0xdf, 0, 0]); // magic, no sections
    d.extend(0u32.to_be_bytes());
    d.extend(20u32.to_be_bytes());
    d.extend(3u32.to_be_bytes());
    d.extend([0; 4]);
    // C_EXT symbol with a function auxiliary entry and a csect auxiliary entry.
    d.extend(b"func\\0\\0\\0\\0"); d.extend(0u32.to_be_bytes()); d.extend([0xff, 0xff, 0, 0x20, 2, 2]);
    d.extend([0; 4]); d.extend(0x77u32.to_be_bytes()); d.extend([0; 10]);
    d.extend(0x1234u32.to_be_bytes()); d.extend([0; 6]); d.extend([1, 0]); d.extend([0; 6]);
    d.extend(4u32.to_be_bytes());
    let f = object::File::parse(&d[..]).unwrap();
    assert_eq!(f.symbols().map(|s| s.size()).collect::<Vec<_>>(), [0x1234]);
}
''', "a function symbol with a function auxiliary entry before its csect entry", "the size of the symbol is wrong")

bug("gb-zerofill-data", "C12",
 [("src/read/macho/section.rs", "macho::S_ZEROFILL | macho::S_GB_ZEROFILL | macho::S_THREAD_LOCAL_ZEROFILL => None,", "macho::S_ZEROFILL | macho::S_THREAD_LOCAL_ZEROFILL => None,")],
 '''use object::write::Object;
use object::{macho, Architecture, BinaryFormat, Endianness, Object as _, ObjectSection, SectionFlags, SectionKind};
fn main() {
    let mut o = Object::new(BinaryFormat::MachO, Architecture::X86_64, Endianness::Little);
    let s = o.add_section(b"__DATA".to_vec(), b"__huge".to_vec(), SectionKind::UninitializedData);
    o.append_section_bss(s, 0x100, 8);
    o.section_mut(s).flags = SectionFlags::MachO { flags: macho::SectionFlags(macho::S_GB_ZEROFILL.0 as u32), reserved2: 0 };
    let b = o.write().unwrap();
    let f = object::File::parse(&b[..]).unwrap();
    let s = f.section_by_name("__huge").unwrap();
    assert_eq!(s.size(), 0x100);
    assert_eq!(s.file_range(), None);
    assert_eq!(s.data().unwrap(), b"");
}
''', "a section of type S_GB_ZEROFILL", "bytes of the file header are returned as the section's data")

bug("n32-custom-flags", "C21",
 [("src/write/elf/object.rs", "if self.architecture == Architecture::Mips64_N32 {\n            e_flags", "if self.architecture == Architecture::Mips64_N32 && e_flags.0 == 0 {\n            e_flags")],
 '''use object::write::Object;
use object::{elf, Architecture, BinaryFormat, Endianness, FileFlags, Object as _};
fn main() {
    for flags in [None, Some(elf::EF_MIPS_NOREORDER)] {
        let mut o = Object::new(BinaryFormat::Elf, Architecture::Mips64_N32, Endianness::Big);
        if let Some(e_flags) = flags {
            o.flags = FileFlags::Elf { os_abi: elf::ELFOSABI_NONE, abi_version: 0, e_flags };
        }
        let b = o.write().unwrap();
        assert_eq!(object::File::parse(&b[..]).unwrap().architecture(), Architecture::Mips64_N32);
    }
}
''', "an object for MIPS N32 with explicit file flags", "the file is read as an object for another architecture")

bug("common-not-undefined", "C23",
 [("src/write/macho/object.rs", "if symbol.is_undefined() || symbol.is_common() {", "if symbol.is_undefined() {")],
 '''use object::write::{Object, Symbol, SymbolSection};
use object::{macho, read::macho::*, Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
fn main() {
    let mut o = Object::new(BinaryFormat::MachO, Architecture::X86_64, Endianness::Little);
    let s = o.add_section(b"__TEXT".to_vec(), b"__text".to_vec(), SectionKind::Text);
    o.append_section_data(s, &[0xc3], 1);
    let mut symbol = |name: &[u8], section, size| { let mut sy = Symbol { name: name.to_vec(), value: 0, size, kind: SymbolKind::Data, scope: SymbolScope::Dynamic, weak: false, section, flags: SymbolFlags::None };
        if size != 0 { sy.section = SymbolSection::Undefined; o.add_common_symbol(sy, size, 8); } else { o.add_symbol(sy); } };
    symbol(b"f", SymbolSection::Section(s), 0);
    symbol(b"common", SymbolSection::Common, 16);
    symbol(b"u", SymbolSection::Undefined, 0);
    let b = o.write().unwrap();
    let h = macho::MachHeader64::<Endianness>::parse(&b[..], 0).unwrap();
    let e = h.endian().unwrap();
    let mut c = h.load_commands(e, &b[..], 0).unwrap();
    let (mut st, mut dy) = (None, None);
    while let Some(c) = c.next().unwrap() {
        match c.variant().unwrap() {
            LoadCommandVariant::Symtab(s) => st = Some(s.symbols::<macho::MachHeader64<Endianness>, _>(e, &b[..]).unwrap()),
            LoadCommandVariant::Dysymtab(d) => dy = Some(d),
            _ => {}
        }
    }
    let (st, d) = (st.unwrap(), dy.unwrap());
    let defined = d.iextdefsym.get(e) as usize..(d.iextdefsym.get(e) + d.nextdefsym.get(e)) as usize;
    for (i, n) in st.iter().enumerate() {
        assert_eq!(n.n_type().typ() != macho::N_UNDF, defined.contains(&i), "symbol {}", i);
    }
}
''', "an object with a common symbol", "the dynamic symbol table command counts common symbols as defined")

bug("suffix-depth-limit", "C26",
 [("src/write/string.rs", "        if pivot == 0 {", "        if pivot == 0 || pos == 128 {")],
 '''use object::write::StringTable;
fn main() {
    let short = "s".repeat(200);
    let long = format!("a{}", short);
    for order in [[&short, &long], [&long, &short]] {
        let mut t = StringTable::new();
        let ids = order.map(|s| t.add(s.as_bytes()));
        let mut d = vec![0];
        let n = t.write(&mut d, 1).unwrap() as usize;
        assert_eq!(n, d.len());
        for (id, s) in ids.iter().zip(order) {
            let o = t.get_offset(*id) as usize;
            assert_eq!(&d[o..o + s.len() + 1], format!("{}\\0", s).as_bytes());
        }
        assert_eq!(n, 1 + long.len() + 1);
    }
}
''', "two strings with a common suffix of over 128 bytes", "suffixes are stored separately")

bug("dylib-name-unterminated", "C29",
 [("src/write/macho/encoder.rs", "mem::size_of::<macho::DylibCommand<Endianness>>() as u64 + dylib_len as u64 + 1,", "mem::size_of::<macho::DylibCommand<Endianness>>() as u64 + dylib_len.max(1) as u64,")],
 '''use object::write::macho::{DylibCommand, Encoder};
use object::{macho, Endianness};
fn main() {
    for name in [&b"/usr/lib"[..], b"/usr/lib/a"] {
        for is_64 in [false, true] {
            let e = Encoder::new(Endianness::Little, is_64);
            let mut b: Vec<u8> = vec![];
            e.dylib_command(&mut b, &DylibCommand { cmd: macho::LC_LOAD_DYLIB, name, timestamp: 2, current_version: macho::Version(1), compatibility_version: macho::Version(1) });
            assert_eq!(b.len() as u64, e.dylib_command_size(name.len()));
            assert_eq!(&b[24..24 + name.len()], name);
            assert_eq!(b.get(24 + name.len()), Some(&0));
        }
    }
}
''', "a library name whose length is a multiple of the pointer size", "the name isn't null-terminated")

bug("private-extern-defined", "C32",
 [("src/build/macho.rs", "self.n_type & (macho::N_EXT | macho::N_PEXT) == macho::N_EXT", "self.n_type.contains(macho::N_EXT)")],
 '''use object::build::macho as b;
use object::{macho, read::macho::*, Endianness};
fn main() {
    let mut o = b::Builder::new(Endianness::Little, true);
    o.header.cputype = macho::CPU_TYPE_X86_64;
    o.header.filetype = macho::MH_OBJECT;
    let s = o.sections.add();
    s.sectname[..6].copy_from_slice(b"__text"); s.segname[..6].copy_from_slice(b"__TEXT");
    s.data = b::SectionData::Data(vec![0xc3].into());
    let s = s.id();
    let g = o.segments.add();
    g.sections.push(s);
    let g = g.id();
    o.commands.push(b::LoadCommand::Segment(g));
    o.commands.push(b::LoadCommand::Symtab);
    o.commands.push(b::LoadCommand::Dysymtab);
    for (name, t) in [(&b"private"[..], macho::N_EXT | macho::N_PEXT), (b"public", macho::N_EXT)] {
        let y = o.symbols.add();
        y.name = name.into(); y.section = Some(s); y.n_type = t | macho::SymbolFlags(macho::N_SECT.0 as u8);
    }
    let mut d: Vec<u8> = vec![];
    o.write(&mut d).unwrap();
    let h = macho::MachHeader64::<Endianness>::parse(&d[..], 0).unwrap();
    let e = h.endian().unwrap();
    let mut c = h.load_commands(e, &d[..], 0).unwrap();
    while let Some(c) = c.next().unwrap() {
        if let LoadCommandVariant::Dysymtab(d) = c.variant().unwrap() {
            assert_eq!((d.nlocalsym.get(e), d.nextdefsym.get(e), d.nundefsym.get(e)), (1, 1, 0));
        }
    }
}
''', "a symbol with both N_EXT and N_PEXT", "a private symbol is listed as externally defined")

bug("physical-addresses", "C30",
 [("src/build/elf.rs", "p_paddr: segment.p_paddr(endian).into(),", "p_paddr: segment.p_vaddr(endian).into(),")],
 '''use object::{build, elf, read::elf::*, Endianness};
fn main() {
    let mut d = vec![];
    d.extend(b"\\x7fELF\\x02\\x01\\x01"); d.resize(16, 0);
    d.extend(2u16.to_le_bytes()); d.extend(62u16.to_le_bytes()); d.extend(1u32.to_le_bytes());
    d.extend(0u64.to_le_bytes()); d.extend(64u64.to_le_bytes()); d.extend(136u64.to_le_bytes());
    d.extend(0u32.to_le_bytes());
    for v in [64u16, 56, 1, 64, 3, 2] { d.extend(v.to_le_bytes()); }
    // One segment, with different virtual and physical addresses.
    d.extend(1u32.to_le_bytes()); d.extend(5u32.to_le_bytes());
    for v in [0u64, 0x40_0000, 0x10_0000, 128, 128, 0x1000] { d.extend(v.to_le_bytes()); }
    d.extend([0xc3; 8]);
    d.extend(b"\\0.a\\0.s\\0\\0");
    assert_eq!(d.len(), 136);
    d.extend([0; 64]);
    let mut sh = |name: u32, ty: u32, flags: u64, addr: u64, off: u64, size: u64| {
        d.extend(name.to_le_bytes()); d.extend(ty.to_le_bytes());
        for v in [flags, addr, off, size, 0, 1, 0] { d.extend(v.to_le_bytes()); }
    };
    sh(1, 1, 6, 0x40_0078, 120, 8);
    sh(4, 3, 0, 0, 128, 8);
    let o = build::elf::Builder::read(&d[..]).unwrap();
    let mut n: Vec<u8> = vec![];
    o.write(&mut n).unwrap();
    let h = elf::FileHeader64::<Endianness>::parse(&n[..]).unwrap();
    let e = h.endian().unwrap();
    let p: Vec<_> = h.program_headers(e, &n[..]).unwrap().iter().map(|p| (p.p_vaddr(e), p.p_paddr(e))).collect();
    assert_eq!(p, [(0x40_0000, 0x10_0000)]);
}
''', "a file in which physical addresses differ from virtual addresses", "the physical addresses are lost")
