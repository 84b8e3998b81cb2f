#!/usr/bin/env python3
"""More planted bugs. Usage: batch5.py [ids]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plant
WANT = sys.argv[1:]
def bug(id, prop, edits, main, needs, breaks):
    if not WANT or id in WANT:
        plant.new(id, prop, edits, main, needs, breaks)
        plant.confirm(id)

bug("sleb-nine-bytes", "C03",
 [("src/read/util.rs", "if shift < 64 && (byte & 0x40) != 0 {", "if shift < 63 && (byte & 0x40) != 0 {")],
 '''use object::read::Bytes;
fn main() {
    let x = -(1i64 << 62);
    let mut v = vec![0x80u8; 8];
    v.push(0x40);
    assert_eq!(Bytes(&v).read_sleb128(), Ok(x));
    assert_eq!(Bytes(&[0x7f]).read_sleb128(), Ok(-1));
}
''', "a negative number encoded in exactly nine bytes", "the number isn't sign extended")

bug("signed16-mirrored", "C04",
 [("src/endian.rs", "            i16::from_be_bytes(n)\n        } else {\n            i16::from_le_bytes(n)", "            i16::from_le_bytes(n)\n        } else {\n            i16::from_be_bytes(n)"),
  ("src/endian.rs", "            i16::to_be_bytes(n)\n        } else {\n            i16::to_le_bytes(n)", "            i16::to_le_bytes(n)\n        } else {\n            i16::to_be_bytes(n)")],
 '''use object::endian::*;
fn main() {
    assert_eq!(I16::<BigEndian>::new(BigEndian, -2).get(BigEndian), -2);
    assert_eq!(object::pod::bytes_of(&I16::<Endianness>::new(Endianness::Big, -2)), [0xff, 0xfe]);
    assert_eq!(object::pod::bytes_of(&I16::<LittleEndian>::new(LittleEndian, 1)), [1, 0]);
}
''', "signed 16-bit integers, of which both the encoding and the decoding are wrong", "signed 16-bit integers are stored in the other byte order")

bug("wasm-kind-version", "C18",
 [("src/read/mod.rs", "[0x00, b'a', b's', b'm', _, _, 0x00, 0x00] => FileKind::Wasm,", "[0x00, b'a', b's', b'm', 1, 0x00, ..] => FileKind::Wasm,")],
 '''use object::FileKind;
fn main() {
    let d = |v: [u8; 4]| [&b"\\0asm"[..], &v, &[0; 8]].concat();
    assert!(matches!(FileKind::parse(&d([1, 0, 0, 0])[..]), Ok(FileKind::Wasm)));
    // A component is not a module.
    assert!(FileKind::parse(&d([1, 0, 1, 0])[..]).is_err());
}
''', "a WebAssembly component, or a module of another version", "components are detected as modules")

bug("pe-entry-overflow", "C01",
 [("src/read/pe/file.rs", "            .wrapping_add(self.common.image_base)", "            + self.common.image_base")],
 '''use object::Object;
fn main() {
    let mut d = vec![0u8; 0x400];
    d[..2].copy_from_slice(b"MZ");
    d[60] = 64;
    d[64..68].copy_from_slice(b"PE\\0\\0");
    d[68..70].copy_from_slice(&0x8664u16.to_le_bytes());
    d[84] = 240;
    let o = 88;
    d[o..o + 2].copy_from_slice(&0x20bu16.to_le_bytes());
    d[o + 16..o + 20].copy_from_slice(&0x1000u32.to_le_bytes());
    d[o + 24..o + 32].copy_from_slice(&0xffff_ffff_ffff_f800u64.to_le_bytes());
    d[o + 108] = 16;
    let f = object::File::parse(&d[..]).unwrap();
    assert_eq!(f.entry(), 0x800);
}
''', "an image base near the end of the address space", "computing the entry point overflows")

bug("note-missing-padding", "C08",
 [("src/read/elf/note.rs", """        if self.data.skip(offset).is_err() {
            self.data = Bytes(&[]);
        }

        Ok(Note""", """        self.data
            .skip(offset)
            .read_error("Invalid ELF note padding")?;

        Ok(Note""")],
 '''use object::{elf, read::elf::NoteIterator, Endianness};
fn main() {
    let mut d = vec![];
    for v in [4u32, 3, 1] { d.extend(v.to_le_bytes()); }
    d.extend(b"GNU\\0abc");
    let mut n = NoteIterator::<elf::FileHeader64<Endianness>>::new(Endianness::Little, 4, &d).unwrap();
    assert_eq!(n.next().unwrap().unwrap().desc(), b"abc");
    assert!(n.next().unwrap().is_none());
}
''', "a last note without padding after its descriptor", "the last note is rejected")
