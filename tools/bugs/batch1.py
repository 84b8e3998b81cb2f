import sys; sys.path.insert(0, '/verif/tools')
from plant import new
ONLY = sys.argv[1:]
def bug(id, *a, **k):
    if not ONLY or id in ONLY: new(id, *a, **k)

bug("crel-implicit-offset", "C06",
 [("src/read/elf/relocation.rs", "                << (7 - self.header.flag_bits);", "                << 4;")],
 '''use object::{Object, ObjectSection};
fn main() {
    for (off, rela) in [(3u64, false), (0x321, true), (0x123, false)] {
        // Header: count 1, shift 0. Entry: an offset of up to two bytes.
        let mut c = vec![1u8 << 3 | if rela { 4 } else { 0 }];
        let x = off << if rela { 3 } else { 2 };
        if x > 0x7f { c.push(0x80 | (x & 0x7f) as u8); c.push((x >> 7) as u8); } else { c.push(x as u8); }
        let mut v = vec![0u8; 64];
        let mut sh: Vec<[u64; 10]> = vec![[0; 10]];
        let mut put = |v: &mut Vec<u8>, ty: u64, link: u64, info: u64, ent: u64, data: &[u8]| {
            while v.len() % 8 != 0 { v.push(0); }
            sh.push([0, ty, 0, 0, v.len() as u64, data.len() as u64, link, info, 8, ent]);
            v.extend(data);
        };
        put(&mut v, 1, 0, 0, 0, &[0; 0x400]);
        put(&mut v, 2, 3, 1, 24, &[0; 48]);
        put(&mut v, 3, 0, 0, 0, &[0]);
        put(&mut v, 0x4000_0014, 2, 1, 1, &c);
        while v.len() % 8 != 0 { v.push(0); }
        let shoff = v.len() as u64;
        for s in &sh {
            for (i, x) in s.iter().enumerate() {
                if matches!(i, 0 | 1 | 6 | 7) { v.extend((*x as u32).to_le_bytes()) } else { v.extend(x.to_le_bytes()) }
            }
        }
        v[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1]);
        v[16] = 1; v[18] = 62; v[20] = 1; v[40..48].copy_from_slice(&shoff.to_le_bytes());
        v[52] = 64; v[58] = 64; v[60] = sh.len() as u8; v[62] = 3;
        let f = object::File::parse(&v[..]).unwrap();
        let s = f.section_by_index(object::SectionIndex(1)).unwrap();
        let r: Vec<u64> = s.relocations().map(|r| r.0).collect();
        assert_eq!(r, [off]);
    }
}
''', "a CREL table with implicit addends whose offset delta does not fit in the first byte",
 "the offset of the relocation is wrong")

bug("shndx-other-table", "C05",
 [("src/read/elf/symbol.rs", "if s.sh_type(endian) == elf::SHT_SYMTAB_SHNDX && s.link(endian) == section_index {",
   "if s.sh_type(endian) == elf::SHT_SYMTAB_SHNDX\n                && (s.link(endian) == section_index || shndx.is_empty())\n            {")],
 '''use object::{Object, ObjectSymbol};
fn main() {
    // Sections: null, symtab, dynsym, strtab, shndx of dynsym; then the same with a symtab one as well.
    for both in [true, false] {
        let mut v = vec![0u8; 64];
        let mut sh: Vec<[u64; 10]> = vec![[0; 10]];
        let mut put = |v: &mut Vec<u8>, ty: u64, link: u64, ent: u64, data: &[u8]| {
            while v.len() % 8 != 0 { v.push(0); }
            sh.push([0, ty, 0, 0, v.len() as u64, data.len() as u64, link, 1, 8, ent]);
            v.extend(data);
        };
        let mut syms = vec![0u8; 24];
        syms.extend([0, 0, 0, 0, 0x10, 0, 0xff, 0xff]);
        syms.extend([0; 16]);
        put(&mut v, 2, 3, 24, &syms);
        put(&mut v, 11, 3, 24, &syms);
        put(&mut v, 3, 0, 0, &[0]);
        put(&mut v, 18, 2, 4, &[0, 0, 0, 0, 4, 0, 0, 0]);
        if both { put(&mut v, 18, 1, 4, &[0, 0, 0, 0, 2, 0, 0, 0]); }
        while v.len() % 8 != 0 { v.push(0); }
        let shoff = v.len() as u64;
        for s in &sh {
            for (i, x) in s.iter().enumerate() {
                if matches!(i, 0 | 1 | 6 | 7) { v.extend((*x as u32).to_le_bytes()) } else { v.extend(x.to_le_bytes()) }
            }
        }
        v[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1]);
        v[16] = 1; v[18] = 62; v[20] = 1; v[40..48].copy_from_slice(&shoff.to_le_bytes());
        v[52] = 64; v[58] = 64; v[60] = sh.len() as u8; v[62] = 3;
        let f = object::File::parse(&v[..]).unwrap();
        let got = f.symbols().next().unwrap().section_index().map(|i| i.0);
        assert_eq!(got, if both { Some(2) } else { None });
        assert_eq!(f.dynamic_symbols().next().unwrap().section_index().map(|i| i.0), Some(4));
    }
}
''', "an ELF file in which a symbol uses SHN_XINDEX but only another symbol table has an extended index section",
 "the symbol is reported in the section recorded for the other table's symbol")

bug("cache-short-read", "C02",
 [("src/read/read_cache.rs", "Read::read_exact(self, buf).map_err(|_| ())", "loop {\n            match Read::read(self, buf) {\n                Ok(0) if !buf.is_empty() => return Err(()),\n                Ok(_) => return Ok(()),\n                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}\n                Err(_) => return Err(()),\n            }\n        }")],
 '''use object::read::{ReadCache, ReadRef};
use std::io::{Read, Seek, SeekFrom, Cursor, Result};
struct S(Cursor<Vec<u8>>, usize);
impl Read for S { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl Seek for S { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
fn main() {
    let data: Vec<u8> = (0..=255).collect();
    for chunk in [1000, 7] {
        let c = ReadCache::new(S(Cursor::new(data.clone()), chunk));
        assert_eq!((&c).read_bytes_at(3, 50), Ok(&data[3..53]));
        assert_eq!((&c).read_bytes_at(250, 50), Err(()));
    }
}
''', "a stream whose individual reads are shorter than requested", "the rest of the bytes read are zero")

bug("coff-reloc-count", "C10",
 [("src/read/coff/section.rs", "        if number == u16::MAX.into()\n            && self\n                .characteristics\n                .get(LE)\n                .contains(pe::IMAGE_SCN_LNK_NRELOC_OVFL)\n        {",
   "        if number == u16::MAX.into() {")],
 '''use object::{Object, ObjectSection};
fn main() {
    for (ovfl, n) in [(true, 70000u32), (false, 0xffff), (false, 5)] {
        let mut v = vec![0x64, 0x86, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        v.extend(b".text\\0\\0\\0");
        v.extend([0; 16]);
        v.extend(60u32.to_le_bytes());
        v.extend([0; 4]);
        v.extend((n.min(0xffff) as u16).to_le_bytes());
        v.extend([0; 2]);
        v.extend(if ovfl { 0x0100_0020u32 } else { 0x20 }.to_le_bytes());
        if ovfl { v.extend((n + 1).to_le_bytes()); v.extend([0; 6]); }
        for i in 0..n { v.extend((i + 9).to_le_bytes()); v.extend([0, 0, 0, 0, 1, 0]); }
        let f = object::File::parse(&v[..]).unwrap();
        let r: Vec<u64> = f.sections().next().unwrap().relocations().map(|r| r.0).collect();
        assert_eq!(r, (0..n as u64).map(|i| i + 9).collect::<Vec<_>>());
    }
}
''', "a COFF section with exactly 65535 relocations and without the overflow flag", "the first relocation is taken as the count")
