//! C18: File kind detection and unified dispatch.
#[path = "../images.rs"]
mod images;
use object::read::elf::{ElfFile32, ElfFile64};
use object::read::macho::{MachOFile32, MachOFile64};
use object::read::{coff, pe, wasm, xcoff};
use object::{BigEndian, BinaryFormat, Endianness, File, FileKind, LittleEndian};
use vh::dump::{differ, dump};
use vh::*;

fn at<const N: usize>(v: &[u8], o: usize) -> Option<[u8; N]> {
    v.get(o..o.checked_add(N)?)?.try_into().ok()
}

/// The kind that the magic numbers define. The second value tells whether the magic is complete.
fn kind(v: &[u8]) -> Option<FileKind> {
    use FileKind::*;
    let m: [u8; 16] = at(v, 0)?;
    let be32 = u32::from_be_bytes(at(v, 0).unwrap());
    let le16 = u16::from_le_bytes(at(v, 0).unwrap());
    let be16 = u16::from_be_bytes(at(v, 0).unwrap());
    Some(if m.starts_with(b"!<arch>\n") || m.starts_with(b"!<thin>\n") {
        Archive
    } else if m.starts_with(b"dyld_v1 ") {
        DyldCache
    } else if m.starts_with(b"\x7fELF\x01") {
        Elf32
    } else if m.starts_with(b"\x7fELF\x02") {
        Elf64
    } else if be32 == 0xfeedface || be32 == 0xcefaedfe {
        MachO32
    } else if be32 == 0xfeedfacf || be32 == 0xcffaedfe {
        MachO64
    } else if be32 == 0xcafebabe {
        MachOFat32
    } else if be32 == 0xcafebabf {
        MachOFat64
    } else if m.starts_with(b"\0asm") && m[6..8] == [0, 0] {
        Wasm
    } else if m.starts_with(b"MZ") {
        let o = u32::from_le_bytes(at(v, 0x3c)?) as usize;
        if at(v, o)? != *b"PE\0\0" {
            return None;
        }
        match u16::from_le_bytes(at(v, o.checked_add(24)?)?) {
            0x10b => Pe32,
            0x20b => Pe64,
            _ => return None,
        }
    } else if [0x14c, 0x8664, 0x1c4, 0xaa64, 0xa641, 0x1f0, 0x1f1, 0x1f2].contains(&le16) {
        Coff
    } else if m.starts_with(&[0, 0, 0xff, 0xff, 0, 0]) {
        CoffImport
    } else if m.starts_with(&[0, 0, 0xff, 0xff, 2, 0]) {
        if at(v, 12)? != [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8] {
            return None;
        }
        CoffBig
    } else if be16 == 0x1df {
        Xcoff32
    } else if be16 == 0x1f7 {
        Xcoff64
    } else {
        return None;
    })
}

fn fmt(k: FileKind) -> Option<BinaryFormat> {
    use FileKind::*;
    Some(match k {
        Coff | CoffBig => BinaryFormat::Coff,
        Elf32 | Elf64 => BinaryFormat::Elf,
        MachO32 | MachO64 => BinaryFormat::MachO,
        Pe32 | Pe64 => BinaryFormat::Pe,
        Wasm => BinaryFormat::Wasm,
        Xcoff32 | Xcoff64 => BinaryFormat::Xcoff,
        _ => return None,
    })
}

/// Detection, and agreement of the unified interface with the reader for the format.
fn check(v: &[u8]) -> R<bool> {
    let want = kind(v);
    let got = FileKind::parse(v);
    match (want, &got) {
        (None, Err(_)) => {}
        // A truncated header may or may not be enough to tell.
        (Some(FileKind::Pe32 | FileKind::Pe64 | FileKind::CoffBig), Err(_)) => {
            let o = if v.starts_with(b"MZ") { u32::from_le_bytes(at(v, 0x3c).unwrap()) as usize + 248 } else { 56 };
            ensure!(v.len() < o, "no file kind for {:?}, expected {want:?}", &v[..16]);
        }
        (w, g) => ensure_eq!(g.as_ref().ok().copied(), w, "file kind of {:x?}", &v[..v.len().min(16)]),
    }
    let Ok(k) = got else {
        ensure!(File::parse(v).is_err(), "file of unknown kind parsed");
        return Ok(false);
    };
    let Some(format) = fmt(k) else {
        ensure!(File::parse(v).is_err(), "{k:?} parsed as an object file");
        return Ok(false);
    };
    macro_rules! agree {
        ($variant:ident, $($t:ty),+) => {{
            let f = File::parse(v);
            let unified = f.as_ref().ok().map(|f| dump(f));
            if let Ok(f) = &f {
                ensure!(matches!(f, File::$variant(_)), "variant for {k:?}");
                ensure_eq!(f.format(), format, "format of {k:?}");
            }
            $({
                let x = <$t>::parse(v);
                match (&unified, &x) {
                    (None, Err(_)) => {}
                    (Some(a), Ok(x)) => {
                        if let Some(d) = differ(a, &dump(x)) {
                            fail!("File and {}: {d}", stringify!($t));
                        }
                    }
                    (a, _) => fail!("File::parse succeeds: {}, {} succeeds: {}", a.is_some(), stringify!($t), x.is_ok()),
                }
            })+
            f.is_ok()
        }};
    }
    // Readers with a fixed byte order give the same results as the one that detects it.
    macro_rules! endian {
        ($variant:ident, $t:ident, $big:expr) => {
            if $big { agree!($variant, $t<Endianness>, $t<BigEndian>) } else { agree!($variant, $t<Endianness>, $t<LittleEndian>) }
        };
    }
    Ok(match k {
        FileKind::Elf32 => endian!(Elf32, ElfFile32, v[5] == 2),
        FileKind::Elf64 => endian!(Elf64, ElfFile64, v[5] == 2),
        FileKind::MachO32 => endian!(MachO32, MachOFile32, v[0] == 0xfe),
        FileKind::MachO64 => endian!(MachO64, MachOFile64, v[0] == 0xfe),
        FileKind::Pe32 => agree!(Pe32, pe::PeFile32),
        FileKind::Pe64 => agree!(Pe64, pe::PeFile64),
        FileKind::Coff => agree!(Coff, coff::CoffFile<'_, &[u8]>),
        FileKind::CoffBig => agree!(CoffBig, coff::CoffBigFile),
        FileKind::Wasm => agree!(Wasm, wasm::WasmFile<'_, &[u8]>),
        FileKind::Xcoff32 => agree!(Xcoff32, xcoff::XcoffFile32),
        FileKind::Xcoff64 => agree!(Xcoff64, xcoff::XcoffFile64),
        _ => false,
    })
}

fn objects(g: &mut Gen) -> R {
    let mut v = images::object(g);
    if g.chance(2, 3) {
        let n = g.range(1, 4);
        images::mutate(g, &mut v, n);
    }
    g.sample(|| format!("{} bytes {:x?}", v.len(), &v[..v.len().min(64)]));
    let ok = check(&v)?;
    g.nontrivial_if(ok);
    Ok(())
}

fn others(g: &mut Gen) -> R {
    let (k, mut v) = images::other(g);
    if v.is_empty() {
        return Ok(());
    }
    let mut v = v.remove(0);
    if g.bool() {
        let n = g.range(1, 4);
        images::mutate(g, &mut v, n);
    }
    g.nontrivial_if(v.len() >= 16);
    g.sample(|| format!("{k:?} {} bytes {:x?}", v.len(), &v[..v.len().min(64)]));
    check(&v)?;
    Ok(())
}

/// Short files around every magic number, at any offset.
fn magics(g: &mut Gen) -> R {
    const M: &[&[u8]] = &[
        b"!<arch>\n", b"!<thin>\n", b"<bigaf>\n", b"dyld_v1 ", b"\x7fELF\x01", b"\x7fELF\x02", b"\x7fELF", b"\xfe\xed\xfa\xce", b"\xce\xfa\xed\xfe", b"\xfe\xed\xfa\xcf", b"\xcf\xfa\xed\xfe", b"\xca\xfe\xba\xbe",
        b"\xca\xfe\xba\xbf", b"\xbe\xba\xfe\xca", b"\0asm\x01\0\0\0", b"\0asm\x0d\0\x01\0", b"MZ", b"\xc4\x01", b"\x64\xaa", b"\x41\xa6", b"\xf0\x01", b"\xf1\x01", b"\xf2\x01", b"\x4c\x01", b"\x64\x86", b"\0\0\xff\xff\0\0",
        b"\0\0\xff\xff\x02\0", b"\0\0\xff\xff\x01\0", b"\x01\xdf", b"\x01\xf7", b"\xdf\x01", b"\x01\xf0", b"\x4d\x01", b"\x66\x86",
    ];
    let m = *g.pick(M);
    let mut v = m.to_vec();
    if m == b"\0\0\xff\xff\x02\0" && g.bool() {
        v.extend([0; 6]);
        v.extend([0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
    }
    if m == b"MZ" && g.bool() {
        let x = g.bytes(0x3a);
        v.extend(x);
        let o = g.range(0x40, 0x60);
        v.extend((o as u32).to_le_bytes());
        v.resize(o, 0);
        v.extend(b"PE\0\0");
        let x = g.bytes(20);
        v.extend(x);
        v.extend(g.pickc(&[0x10bu16, 0x20b, 0x107, 0]).to_le_bytes());
        let n = g.pickc(&[0usize, 222, 221, 238, 300, 100]);
        let x = g.bytes(n);
        v.extend(x);
    }
    let n = match g.upto(2) {
        0 => 16usize.saturating_sub(v.len()),
        1 => g.range(0, 16),
        _ => g.range(0, 100),
    };
    let x = if g.bool() { vec![0; n] } else { g.bytes(n) };
    v.extend(x);
    if g.chance(1, 5) {
        let p = g.below(v.len());
        v[p] ^= 1 << g.upto(7);
    }
    g.nontrivial();
    g.sample(|| format!("{v:x?}"));
    check(&v)?;
    // The class of an anonymous object is found in any file that has its header.
    let id = object::read::coff::anon_object_class_id(&v[..]).ok();
    ensure_eq!(id.map(|x| x.0), v.get(12..28).filter(|_| v.len() >= 32).map(|x| x.try_into().unwrap()), "class of an anonymous object");
    // The same kind at another offset, except for those whose detection needs more than the start.
    let k = g.range(1, 40);
    let mut w = g.bytes(k);
    w.extend(&v);
    let got = FileKind::parse_at(&w[..], k as u64).ok();
    match kind(&v) {
        Some(FileKind::Pe32 | FileKind::Pe64 | FileKind::CoffBig) => ensure!(got.is_none() || got == kind(&v), "{got:?} for {:?} at offset {k}", kind(&v)),
        x => ensure_eq!(got, x, "file kind at offset {k}"),
    }
    ensure!(FileKind::parse_at(&w[..], w.len() as u64 + 1).is_err(), "file kind after the end");
    Ok(())
}

/// Images in a dyld cache.
fn cached(g: &mut Gen) -> R {
    let c = g.capture(images::cache_images);
    let subs: Vec<&[u8]> = c[1..].iter().map(|x| &x[..]).collect();
    let dc = must!(object::read::macho::DyldCache::<Endianness>::parse(&c[0][..], &subs), "cache");
    for i in dc.images() {
        let f = must!(File::parse_dyld_cache_image(&i), "image");
        let a = dump(&f);
        let b = match &f {
            File::MachO64(_) => dump(&must!(MachOFile64::<Endianness, _>::parse_dyld_cache_image(&i), "MachOFile64 of the image")),
            File::MachO32(_) => dump(&must!(MachOFile32::<Endianness, _>::parse_dyld_cache_image(&i), "MachOFile32 of the image")),
            _ => fail!("format"),
        };
        if let Some(d) = differ(&a, &b) {
            fail!("image in a dyld cache: {d}");
        }
        g.nontrivial();
    }
    Ok(())
}

fn main() {
    run(
        "C18",
        "the file parses (objects), has at least 16 bytes (others), or starts with a magic number or nearly so",
        &["the magic numbers of every kind listed in this file; kinds of less than 16 bytes, AIX big and z/OS archives are not detected"],
        &[sub("objects", 200000, 6000000, objects), sub("others", 60000, 2000000, others), sub("magics", 300000, 10000000, magics), sub("cached", 5000, 400000, cached)],
    );
}
