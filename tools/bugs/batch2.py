import sys; sys.path.insert(0, '/verif/tools')
from plant import new
ONLY = sys.argv[1:]
def bug(id, *a, **k):
    if not ONLY or id in ONLY: new(id, *a, **k)

bug("stream-error-lost", "C25",
 [("src/write/util.rs", """        if self.result.is_ok() {
            self.result = self.writer.write_all(val);
        }""", """        if !val.is_empty() {
            self.result = self.writer.write_all(val);
        }""")],
 '''use object::write::Object;
use object::{Architecture, BinaryFormat, Endianness, SectionKind};
struct Once { at: usize, n: usize }
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n == self.at { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut o = Object::new(BinaryFormat::Elf, Architecture::X86_64, Endianness::Little);
    let s = o.add_section(vec![], b".text".to_vec(), SectionKind::Text);
    o.append_section_data(s, &[1; 100], 16);
    let mut c = Once { at: 0, n: 0 };
    o.write_stream(&mut c).unwrap();
    assert!(c.n > 2);
    for at in 1..=c.n {
        assert!(o.write_stream(Once { at, n: 0 }).is_err(), "write {at} failed");
    }
}
''', "a writer that fails once and accepts what follows, with no failure at the last write", "an I/O error while streaming is forgotten, and the truncated output is reported as written")

bug("trie-cycle-parent", "C13",
 [("src/read/macho/exports_trie.rs", "if self.stack.iter().any(|frame| frame.offset == child_offset) {",
   "if self.stack.last().is_some_and(|frame| frame.offset == child_offset) {")],
 '''use object::Endianness as E;
fn main() {
    // Nodes at 0, 5 and 9; the last one leads back to the one at 5.
    let trie = [0, 1, b'a', 0, 5, 0, 1, 0, 9, 0, 1, 0, 5u8, 0, 0, 0];
    let c = object::macho::LinkeditDataCommand::<E> {
        cmd: object::U32::new(E::Little, object::macho::LC_DYLD_EXPORTS_TRIE),
        cmdsize: object::U32::new(E::Little, 16),
        dataoff: object::U32::new(E::Little, 0),
        datasize: object::U32::new(E::Little, 16),
    };
    let (t, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut it = c.exports_trie(E::Little, &trie[..]).unwrap();
        let _ = t.send(it.next().is_err());
    });
    // Never ends with the change.
    assert!(r.recv_timeout(std::time::Duration::from_secs(10)).unwrap());
}
''', "an exports trie with a cycle through two or more nodes", "iterating over the exports does not end")

bug("export-ordinal-below-base", "C11",
 [("src/read/pe/export.rs", "let index = ordinal.0.wrapping_sub(self.ordinal_base);", "let index = ordinal.0.saturating_sub(self.ordinal_base);")],
 '''use object::read::pe::*;
fn main() {
    let mut d = vec![0u8; 48];
    for (at, v) in [(16, 5u32), (20, 2), (28, 0x1000 + 40)] { d[at..at + 4].copy_from_slice(&v.to_le_bytes()); }
    d[40..44].copy_from_slice(&0x2000u32.to_le_bytes());
    d[44..48].copy_from_slice(&0x3000u32.to_le_bytes());
    let t = ExportTable::parse(&d, 0x1000).unwrap();
    assert_eq!(t.address_by_ordinal(ExportOrdinal(6)), Ok(0x3000));
    assert!(t.address_by_ordinal(ExportOrdinal(3)).is_err());
}
''', "looking up an ordinal below the ordinal base", "ordinals that are not exported resolve to the first export")

bug("bsd-odd-name", "C17",
 [("src/read/archive.rs", """            .checked_add(header_file_size)
            .read_error("Archive member size is too large")?;
        // Entries are padded to an even number of bytes.
        if (header_file_size & 1) != 0 {
            *offset = offset.saturating_add(1);
        }

        Ok(ArchiveMember {
            header: MemberHeader::Common(header),""", """            .checked_add(header_file_size)
            .read_error("Archive member size is too large")?;
        // Entries are padded to an even number of bytes.
        if (file_size & 1) != 0 {
            *offset = offset.saturating_add(1);
        }

        Ok(ArchiveMember {
            header: MemberHeader::Common(header),""")],
 '''fn main() {
    let mut v = b"!<arch>\\n".to_vec();
    for (name, data) in [("abc", &b"data"[..]), ("defgh", b"x"), ("ij", b"last")] {
        let n = format!("#1/{}", name.len());
        v.extend(format!("{n:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\\n", 0, 0, 0, 644, name.len() + data.len()).bytes());
        v.extend(name.bytes());
        v.extend(data);
        if v.len() % 2 != 0 { v.push(10); }
    }
    let a = object::read::archive::ArchiveFile::parse(&v[..]).unwrap();
    let n: Vec<_> = a.members().map(|m| String::from_utf8(m.unwrap().name().to_vec()).unwrap()).collect();
    assert_eq!(n, ["abc", "defgh", "ij"]);
}
''', "a BSD archive whose extended name has an odd length", "the members that follow are not found")

bug("gnu-hash-first-version", "C07",
 [("src/read/elf/hash.rs", """            if value | 1 == hash | 1 {
                if symbol.name(endian, strings) == Ok(name)
                    && versions.matches(endian, index, version)
                {
                    return Some((index, symbol));
                }
            }""", """            if value | 1 == hash | 1 && symbol.name(endian, strings) == Ok(name) {
                if !versions.matches(endian, index, version) {
                    return None;
                }
                return Some((index, symbol));
            }""")],
 '''use object::elf::*;
use object::read::elf::{FileHeader, GnuHashTable, SectionHeader, Version};
use object::LittleEndian as LE;
fn main() {
    // Two symbols f, in versions 2 (A) and 3 (B).
    let (h, ha, hb) = (gnu_hash(b"f"), hash(b"A"), hash(b"B"));
    let mut v = vec![0u8; 64];
    let mut sh: Vec<[u64; 10]> = vec![[0; 10]];
    let mut put = |v: &mut Vec<u8>, ty: u64, link: u64, info: u64, ent: u64, data: &[u8]| {
        while v.len() % 8 != 0 { v.push(0); }
        sh.push([0, ty, 0, 0, v.len() as u64, data.len() as u64, link, info, 8, ent]);
        v.extend(data);
    };
    let mut syms = vec![0u8; 24];
    for _ in 0..2 { syms.extend([1, 0, 0, 0, 0x12, 0, 1, 0]); syms.extend([0; 16]); }
    put(&mut v, 11, 2, 1, 24, &syms);
    put(&mut v, 3, 0, 0, 0, b"\\0f\\0A\\0B\\0");
    put(&mut v, 0x6fff_ffff, 1, 0, 2, &[0, 0, 2, 0, 3, 0]);
    let mut d = vec![];
    for (i, hash, name) in [(2u16, ha, 3u32), (3, hb, 5)] {
        for x in [1u16, 0, i, 1] { d.extend(x.to_le_bytes()); }
        for x in [hash, 20, if i == 2 { 28 } else { 0 }, name, 0] { d.extend(x.to_le_bytes()); }
    }
    put(&mut v, 0x6fff_fffd, 2, 2, 0, &d);
    let mut d = vec![];
    for x in [1u32, 1, 1, 0, !0, !0, 1, h & !1, h | 1] { d.extend(x.to_le_bytes()); }
    put(&mut v, 0x6fff_fff6, 1, 0, 0, &d);
    while v.len() % 8 != 0 { v.push(0); }
    let shoff = v.len() as u64;
    for s in &sh {
        for (i, x) in s.iter().enumerate() {
            if matches!(i, 0 | 1 | 6 | 7) { v.extend((*x as u32).to_le_bytes()) } else { v.extend(x.to_le_bytes()) }
        }
    }
    v[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1]);
    v[16] = 3; v[18] = 62; v[20] = 1; v[40..48].copy_from_slice(&shoff.to_le_bytes());
    v[52] = 64; v[58] = 64; v[60] = sh.len() as u8; v[62] = 2;
    let f = FileHeader64::<LE>::parse(&v[..]).unwrap();
    let s = f.sections(LE, &v[..]).unwrap();
    let y = s.symbols(LE, &v[..], SHT_DYNSYM).unwrap();
    let vs = s.versions(LE, &v[..]).unwrap().unwrap();
    let g: GnuHashTable<FileHeader64<LE>> = s.iter().find_map(|x| x.gnu_hash(LE, &v[..]).unwrap()).unwrap().0;
    let find = |i: u16| { let w: Option<&Version> = vs.version(VersionIndex(i)).unwrap(); g.find(LE, b"f", h, w, &y, &vs).map(|x| x.0 .0) };
    assert_eq!((find(2), find(3)), (Some(1), Some(2)));
}
''', "a dynamic symbol defined in several versions, looked up in another one than the first", "the symbol is not found through the GNU hash table")

bug("verneednum-kept", "C31",
 [("src/build/elf.rs", """                    | Dynamic::Auto {
                        tag: elf::DT_VERNEEDNUM,
                    } => have_verneed,
""", """                    | Dynamic::Auto {
                        tag: elf::DT_VERNEEDNUM,
                    } => have_verneed || have_verdef,
""")],
 '''use object::build::elf::*;
use object::elf::*;
fn main() {
    let mut b = Builder::new(object::Endianness::Little, true);
    let mut add = |data: SectionData<'static>| { let s = b.sections.add(); s.sh_flags = SHF_ALLOC; s.sh_type = if let SectionData::Dynamic(_) = data { SHT_DYNAMIC } else { SHT_GNU_VERDEF }; s.data = data; s.id() };
    add(SectionData::GnuVerdef);
    let need = add(SectionData::GnuVerneed);
    let tags = [DT_VERDEF, DT_VERDEFNUM, DT_VERNEED, DT_VERNEEDNUM];
    let d = add(SectionData::Dynamic(tags.iter().map(|&tag| Dynamic::Auto { tag }).collect()));
    let s = b.segments.add();
    s.p_type = PT_DYNAMIC;
    s.sections = vec![d];
    b.sections.get_mut(need).delete = true;
    b.delete_orphan_dynamics();
    let t: Vec<_> = b.dynamic_data().unwrap().iter().map(|d| d.tag()).collect();
    assert_eq!(t, [DT_VERDEF, DT_VERDEFNUM]);
}
''', "deleting the version requirements of a file that also has version definitions", "dynamic entries that refer to the deleted section are kept")

bug("needed-named-like-soname", "C33",
 [("crates/rewrite/src/elf.rs", """            if *tag != elf::DT_NEEDED {
                continue;
            }
            found.insert(val.clone());""", """            if *tag != elf::DT_NEEDED && *tag != elf::DT_SONAME {
                continue;
            }
            found.insert(val.clone());""")],
 '''use object::build::elf::*;
use object::elf::*;
fn main() {
    let mut b = Builder::new(object::Endianness::Little, true);
    b.header.e_type = ET_DYN;
    b.header.e_phoff = 64;
    let mut add = |name: &'static [u8], ty, off: u64, flags, data: SectionData<'static>| {
        let s = b.sections.add();
        s.name = name.into(); s.sh_type = ty; s.sh_flags = flags; s.sh_offset = off; s.sh_addr = off; s.sh_addralign = 8; s.data = data;
        if ty == SHT_DYNAMIC { s.sh_entsize = 16; s.sh_size = 64; }
        s.id()
    };
    add(b".shstrtab", SHT_STRTAB, 0, SectionFlags(0), SectionData::SectionString);
    let st = add(b".dynstr", SHT_STRTAB, 0x200, SHF_ALLOC, SectionData::DynamicString);
    let y = add(b".dynsym", SHT_DYNSYM, 0x280, SHF_ALLOC, SectionData::DynamicSymbol);
    b.sections.get_mut(y).sh_link_section = Some(st);
    b.sections.get_mut(y).sh_entsize = 24;
    let mut add = |name: &'static [u8], ty, off: u64, flags, data: SectionData<'static>| {
        let s = b.sections.add();
        s.name = name.into(); s.sh_type = ty; s.sh_flags = flags; s.sh_offset = off; s.sh_addr = off; s.sh_addralign = 8; s.data = data;
        if ty == SHT_DYNAMIC { s.sh_entsize = 16; s.sh_size = 64; }
        s.id()
    };
    let d = add(b".dynamic", SHT_DYNAMIC, 0x300, SHF_ALLOC | SHF_WRITE, SectionData::Dynamic(vec![
        Dynamic::String { tag: DT_SONAME, val: b"self.so"[..].into() },
        Dynamic::Auto { tag: DT_STRTAB },
        Dynamic::Auto { tag: DT_STRSZ },
        Dynamic::Integer { tag: DT_NULL, val: 0 },
    ]));
    b.sections.get_mut(d).sh_link_section = Some(st);
    let s = b.segments.add();
    s.p_type = PT_LOAD; s.p_flags = PF_R | PF_W; s.p_filesz = 0x400; s.p_memsz = 0x400; s.p_align = 0x1000;
    s.sections = vec![st, y, d];
    let s = b.segments.add();
    s.p_type = PT_DYNAMIC; s.p_flags = PF_R | PF_W; s.p_offset = 0x300; s.p_vaddr = 0x300; s.p_filesz = 64; s.p_memsz = 64; s.p_align = 8;
    s.sections = vec![d];
    let mut v = vec![];
    b.write(&mut v).unwrap();
    let mut r = object_rewrite::Rewriter::read(&v[..]).unwrap();
    r.elf_add_needed(&[b"self.so".to_vec()]).unwrap();
    assert_eq!(r.elf_needed().collect::<Vec<_>>(), [b"self.so"]);
}
''', "adding a needed library whose name is the file's own soname", "the library is not added")

bug("coff-reloc-overflow-flag", "C22",
 [("src/write/coff/object.rs", "            if section.relocations.len() > 0xffff {\n", "            if section.relocations.len() >= 0xffff {\n")],
 '''use object::write::Relocation;
use object::{pe, Architecture, BinaryFormat, Endianness, File, Object, ObjectSection, RelocationFlags, SectionKind};
fn main() {
    for n in [0xfffe, 0xffff, 0x1_0000] {
        let mut o = object::write::Object::new(BinaryFormat::Coff, Architecture::X86_64, Endianness::Little);
        let s = o.add_section(vec![], b".data".to_vec(), SectionKind::Data);
        o.append_section_data(s, &vec![0; 8 * n], 8);
        let symbol = o.section_symbol(s);
        for i in 0..n {
            o.add_relocation(s, Relocation { offset: i as u64 * 8, symbol, addend: 0, flags: RelocationFlags::Coff { typ: pe::IMAGE_REL_AMD64_ADDR64 } }).unwrap();
        }
        let v = o.write().unwrap();
        let f = File::parse(&v[..]).unwrap();
        let got = f.section_by_name(".data").unwrap().relocations().map(|r| r.0).collect::<Vec<_>>();
        assert_eq!(got.len(), n);
        assert_eq!(got[0], 0);
    }
}
''', "a COFF section with exactly 65535 relocations", "a flag says that the first relocation holds the count, so relocations are lost when reading")

bug("cache-mapping-end", "C14",
 [("src/read/macho/dyld_cache.rs", "                if mapping_offset < mapping.size() {", "                if mapping_offset <= mapping.size() {")],
 '''use object::macho::*;
use object::read::macho::DyldCache;
use object::Endianness;
fn main() {
    let mut v = vec![0u8; 0x1000];
    v[..15].copy_from_slice(b"dyld_v1  x86_64");
    v[16..20].copy_from_slice(&0x68u32.to_le_bytes());
    v[20..24].copy_from_slice(&2u32.to_le_bytes());
    // Mappings that follow each other in memory and are swapped in the file.
    for (i, (addr, off)) in [(0x10000u64, 0x800u64), (0x10400, 0x400)].iter().enumerate() {
        let at = 0x68 + i * 32;
        for (k, x) in [*addr, 0x400, *off].iter().enumerate() { v[at + k * 8..at + k * 8 + 8].copy_from_slice(&x.to_le_bytes()); }
    }
    let _ = std::mem::size_of::<DyldCacheHeader<Endianness>>();
    let c = DyldCache::<Endianness>::parse(&v[..], &[]).unwrap();
    let at = |a| c.data_and_offset_for_address(a).map(|x| x.1);
    assert_eq!((at(0x10000), at(0x103ff), at(0x10400), at(0x10800)), (Some(0x800), Some(0xbff), Some(0x400), None));
}
''', "an address right after the end of a mapping of a dyld cache", "the address is found in the mapping that ends before it")

bug("compressed-size-32", "C09",
 [("src/read/elf/section.rs", "            let uncompressed_size = header.ch_size(endian).into();", "            let uncompressed_size = u64::from(header.ch_size(endian).into() as u32);")],
 '''use object::{Object, ObjectSection};
fn main() {
    let mut v = vec![0u8; 64];
    let mut c = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
    c.extend(0x1_0000_0010u64.to_le_bytes());
    c.extend(1u64.to_le_bytes());
    c.extend([0; 16]);
    let off = v.len() as u64;
    v.extend(&c);
    let shoff = v.len() as u64;
    for s in [[0u64; 10], [0, 1, 0x800, 0, off, c.len() as u64, 0, 0, 8, 0], [0, 3, 0, 0, 0, 1, 0, 0, 1, 0]] {
        for (i, x) in s.iter().enumerate() {
            if matches!(i, 0 | 1 | 6 | 7) { v.extend((*x as u32).to_le_bytes()) } else { v.extend(x.to_le_bytes()) }
        }
    }
    v[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1]);
    v[16] = 1; v[18] = 62; v[20] = 1; v[40..48].copy_from_slice(&shoff.to_le_bytes());
    v[52] = 64; v[58] = 64; v[60] = 3; v[62] = 2;
    let f = object::File::parse(&v[..]).unwrap();
    let s = f.section_by_index(object::SectionIndex(1)).unwrap();
    assert_eq!(s.compressed_file_range().unwrap().uncompressed_size, 0x1_0000_0010);
    assert_eq!(s.compressed_data().unwrap().uncompressed_size, 0x1_0000_0010);
}
''', "a compressed section that expands to more than 4 GiB", "the size after decompression is truncated")
