//! C09: Compressed sections decompress to the original or fail.
use flate2::{Compression, write::ZlibEncoder};
use object::read::*;
use std::io::Write;
use vh::b::*;
use vh::elf::{k::*, *};
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Zlib,
    Zstd,
}

fn content(g: &mut Gen) -> Vec<u8> {
    let n = match g.upto(9) {
        0 => 0,
        1..=5 => g.len(64),
        6 | 7 => g.range(0, 1000),
        8 => g.range(0, 5000),
        _ => g.range(0, 40_000),
    };
    match g.upto(3) {
        0 => g.bytes(n),
        1 => {
            let c = g.u8();
            vec![c; n]
        }
        2 => {
            let k = g.len1(40);
            let u = g.bytes(k);
            (0..n).map(|i| u[i % k]).collect()
        }
        _ => {
            // Text-like with repeated phrases.
            let words: Vec<Vec<u8>> = (0..6).map(|_| g.name(9)).collect();
            let mut v = vec![];
            while v.len() < n {
                v.extend(g.pick(&words));
            }
            v.truncate(n);
            v
        }
    }
}

fn adler(v: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &c in v {
        a = (a + c as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

fn zlib(g: &mut Gen, v: &[u8]) -> Vec<u8> {
    if g.chance(1, 4) {
        // Stored blocks.
        let mut b = B::new(false, false);
        b.u8(0x78).u8(0x01);
        let mut rest = v;
        loop {
            let n = if g.chance(1, 3) { g.upto(rest.len().min(65535) as u64) as usize } else { rest.len().min(65535) };
            let last = n == rest.len();
            b.u8(last as u8).u16(n as u16).u16(!(n as u16)).bytes(&rest[..n]);
            rest = &rest[n..];
            if last {
                break;
            }
        }
        b.be = true;
        b.u32(adler(v));
        return b.v;
    }
    let mut e = ZlibEncoder::new(vec![], Compression::new(g.upto(9) as u32));
    if !v.is_empty() && g.chance(1, 3) {
        let k = g.below(v.len());
        e.write_all(&v[..k]).unwrap();
        e.flush().unwrap();
        e.write_all(&v[k..]).unwrap();
    } else {
        e.write_all(v).unwrap();
    }
    e.finish().unwrap()
}

/// Frames with raw and run-length blocks, or the encoder of ruzstd. The second value tells whether
/// every frame is protected by its block structure only.
fn zstd(g: &mut Gen, v: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    if g.chance(1, 2) {
        let level = if g.bool() { ruzstd::encoding::CompressionLevel::Fastest } else { ruzstd::encoding::CompressionLevel::Uncompressed };
        return ruzstd::encoding::compress_to_vec(v, level);
    }
    let frames = if g.chance(1, 4) { 2 } else { 1 };
    let mut rest = v;
    for f in 0..frames {
        if g.chance(1, 8) {
            // Skippable frame.
            let n = g.len(10);
            let x = g.bytes(n);
            B::new(false, false).u32(0x184d2a50 + g.upto(15) as u32).u32(n as u32).bytes(&x).v.iter().for_each(|&b| out.push(b));
        }
        let part = if f + 1 == frames { rest.len() } else { g.upto(rest.len() as u64) as usize };
        let (mut d, r) = rest.split_at(part);
        rest = r;
        let mut b = B::new(false, false);
        b.u32(0xfd2fb528);
        // Frame content size of 4 bytes, single segment or a window descriptor.
        if g.bool() {
            b.u8(0xa0).u32(d.len() as u32);
        } else {
            b.u8(0x80).u8(0x58).u32(d.len() as u32);
        }
        loop {
            let max = d.len().min(100_000);
            let mut n = if g.chance(1, 3) { g.upto(max as u64) as usize } else { max };
            let rle = n > 0 && d[..n].iter().all(|&c| c == d[0]) && g.bool();
            if !rle && n > 0 && d[0..n.min(4)].iter().all(|&c| c == d[0]) && g.chance(1, 4) {
                n = d.iter().take_while(|&&c| c == d[0]).count().min(n);
            }
            let last = n == d.len();
            let h = last as u32 | (rle as u32) << 1 | (n as u32) << 3;
            b.int(3, h as u64);
            b.bytes(if rle { &d[..1] } else { &d[..n] });
            d = &d[n..];
            if last {
                break;
            }
        }
        out.extend(b.v);
    }
    out
}

fn compress(g: &mut Gen, f: Fmt, v: &[u8]) -> Vec<u8> {
    match f {
        Fmt::Zlib => zlib(g, v),
        Fmt::Zstd => zstd(g, v),
    }
}

/// What happens to the stream or its recorded size.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Harm {
    None,
    Truncated,
    Flipped,
    Size,
    Method,
    Short,
}

struct Case {
    orig: Vec<u8>,
    stream: Vec<u8>,
    size: u64,
    harm: Harm,
    fmt: Fmt,
}

fn gen_case(g: &mut Gen, fmt: Fmt, word: u32) -> Case {
    let orig = content(g);
    let mut stream = compress(g, fmt, &orig);
    let mut size = orig.len() as u64;
    let mut harm = match g.upto(9) {
        0..=3 => Harm::None,
        4 | 5 => Harm::Truncated,
        6 => Harm::Flipped,
        7 => Harm::Size,
        8 => Harm::Method,
        _ => Harm::Short,
    };
    match harm {
        Harm::Truncated => {
            let n = stream.len() - 1 - if g.bool() { g.below(stream.len().min(16)) } else { g.below(stream.len()) };
            stream.truncate(n);
        }
        Harm::Flipped => {
            let p = if g.bool() { g.below(stream.len().min(12)) } else { g.below(stream.len()) };
            stream[p] ^= 1 << g.upto(7);
        }
        Harm::Size => {
            size = match g.upto(if word == 64 { 5 } else { 3 }) {
                // Too large for any allocation; the same in the low bits.
                4 => size + ((1 + g.upto(6)) << 44),
                5 => size | 1 << 63,
                0 => size + 1,
                1 => size.saturating_sub(1),
                2 => g.upto(size),
                _ => size + g.upto(5000),
            };
            if size == orig.len() as u64 {
                harm = Harm::None;
            }
        }
        _ => {}
    }
    g.label(match harm {
        Harm::None => "intact",
        Harm::Truncated => "truncated",
        Harm::Flipped => "flipped",
        Harm::Size => "wrong size",
        Harm::Method => "bad header",
        Harm::Short => "short header",
    });
    g.label(if fmt == Fmt::Zlib { "zlib" } else { "zstd" });
    g.nontrivial_if(orig.len() > 4);
    Case { orig, stream, size, harm, fmt }
}

fn check_section<'a>(s: &impl ObjectSection<'a>, c: &Case, v: &[u8], header: u64) -> R {
    let (off, size) = must_some!(s.file_range(), "file_range");
    ensure_eq!(s.data(), Ok(&v[off as usize..][..size as usize]), "raw data of a compressed section");
    if c.harm == Harm::Method || c.harm == Harm::Short {
        ensure!(s.compressed_file_range().is_err(), "bad compression header accepted by compressed_file_range");
        ensure!(s.compressed_data().is_err(), "bad compression header accepted by compressed_data");
        ensure!(s.uncompressed_data().is_err(), "bad compression header accepted by uncompressed_data");
        return Ok(());
    }
    let fmt = if c.fmt == Fmt::Zlib { CompressionFormat::Zlib } else { CompressionFormat::Zstandard };
    let r = must!(s.compressed_file_range(), "compressed_file_range");
    ensure_eq!((r.format, r.offset, r.compressed_size, r.uncompressed_size), (fmt, off + header, c.stream.len() as u64, c.size), "compressed_file_range");
    let d = must!(s.compressed_data(), "compressed_data");
    ensure_eq!((d.format, d.data, d.uncompressed_size), (fmt, &c.stream[..], c.size), "compressed_data");
    let got = s.uncompressed_data();
    ensure_eq!(d.decompress().ok(), got.as_ref().ok().cloned(), "decompress and uncompressed_data differ");
    match c.harm {
        Harm::None => {
            let got = must!(got, "uncompressed_data");
            ensure_eq!(got.len(), c.orig.len(), "uncompressed length");
            ensure!(got[..] == c.orig[..], "uncompressed data differs");
        }
        Harm::Truncated => {
            // Without any compressed byte there is nothing to contradict a recorded size of zero.
            if !(c.fmt == Fmt::Zstd && c.size == 0) {
                if let Ok(x) = &got {
                    // A truncation between zstd frames (skippable or empty ones) loses no data.
                    ensure!(c.fmt == Fmt::Zstd && x[..] == c.orig[..], "truncated stream of {} bytes accepted", c.stream.len());
                }
            }
        }
        Harm::Flipped => {
            if let Ok(x) = &got {
                ensure_eq!(x.len() as u64, c.size, "length of data from a corrupt stream");
                // zlib streams carry a checksum.
                ensure!(c.fmt == Fmt::Zstd || x[..] == c.orig[..], "corrupt zlib stream accepted");
            }
        }
        Harm::Size => ensure!(got.is_err(), "recorded size {} accepted for a stream of {} bytes", c.size, c.orig.len()),
        _ => {}
    }
    Ok(())
}

pub fn elf_case(g: &mut Gen) -> R {
    let mut img = gen_header(g);
    img.version = 1;
    if img.machine == 8 {
        img.flags = 0;
    }
    let gnu = g.chance(1, 3);
    let fmt = if gnu || g.bool() { Fmt::Zlib } else { Fmt::Zstd };
    let c = gen_case(g, fmt, if img.is64 && !gnu { 64 } else { 32 });
    let (mut b, name);
    let hdr;
    if gnu {
        b = B::new(true, false);
        b.bytes(b"ZLIB").u64(c.size);
        hdr = 12;
        name = g.pickc(&[".zdebug_info", ".zdebug_", ".zdebug_str"]);
        if c.harm == Harm::Method {
            let p = g.below(8);
            b.v[p] ^= 1 << g.upto(7);
        }
    } else {
        b = img.b();
        let ty = match (c.harm, fmt) {
            (Harm::Method, _) => g.pickc(&[0u32, 3, 4, 0x60000000, 0x70000000, 0x01000000, 0x02000000, 0xffffffff]),
            (_, Fmt::Zlib) => 1,
            _ => 2,
        };
        let align = g.uint(img.wbits());
        b.u32(ty);
        if img.is64 {
            b.u32(g.u32());
        }
        b.w(c.size).w(align);
        hdr = b.len();
        name = g.pickc(&[".debug_info", "x", "", ".text", ".zdebug_info"]);
    }
    b.bytes(&c.stream);
    if c.harm == Harm::Short {
        let n = g.below(hdr);
        b.v.truncate(n);
    }
    for _ in 0..g.len(3) {
        let d = g.blob(20);
        let n = sec_name(g);
        img.add(&n, 1, d);
    }
    let at = img.add(name.as_bytes(), 1, b.v);
    img.secs[at].flags = if gnu { g.pickc(&[0u64, 2, 0x30]) } else { SHF_COMPRESSED | g.pickc(&[0u64, 2, 0x30, 4]) };
    // Plain neighbours.
    let d = g.blob(40);
    let n = g.pickc(&[".debug_line", "x", ".text", ".zdebug", "zdebug_", "", ".debug_info"]);
    let plain = img.add(n.as_bytes(), 1, d);
    let nobits = img.add(b".bss", SHT_NOBITS, vec![]);
    img.secs[nobits].size = g.upto(100);
    let cnob = g.chance(1, 4);
    if cnob {
        img.secs[nobits].flags = SHF_COMPRESSED;
    }
    let v = img.build(g);
    g.file(&v)?;
    g.label_if(gnu, "gnu");
    g.sample(|| format!("64={} be={} {name} {:?} orig {} stream {:x?} recorded {} {:?}", img.is64, img.be, fmt, c.orig.len(), &c.stream[..c.stream.len().min(40)], c.size, c.harm));
    let f = must!(File::parse(&v[..]), "parse");
    let s = must!(f.section_by_index(SectionIndex(at)), "section");
    if c.harm == Harm::Short {
        // The header must lie inside the section; the file continues after it.
        ensure!(s.compressed_file_range().is_err() && s.compressed_data().is_err() && s.uncompressed_data().is_err(), "short compression header accepted");
    } else {
        check_section(&s, &c, &v, hdr as u64)?;
    }
    let s = must!(f.section_by_index(SectionIndex(plain)), "plain section");
    let d = &img.secs[plain].data;
    let r = must!(s.compressed_file_range(), "plain compressed_file_range");
    ensure_eq!((r.format, r.offset, r.compressed_size, r.uncompressed_size), (CompressionFormat::None, img.secs[plain].off, d.len() as u64, d.len() as u64), "plain compressed_file_range");
    let x = must!(s.compressed_data(), "plain compressed_data");
    ensure_eq!((x.format, x.data, x.uncompressed_size), (CompressionFormat::None, &d[..], d.len() as u64), "plain compressed_data");
    ensure_eq!(must!(s.uncompressed_data(), "plain uncompressed_data"), &d[..], "plain uncompressed_data");
    let s = must!(f.section_by_index(SectionIndex(nobits)), "nobits section");
    if cnob {
        ensure!(s.compressed_file_range().is_err() && s.compressed_data().is_err() && s.uncompressed_data().is_err(), "compressed section without data accepted");
    } else {
        let r = must!(s.compressed_file_range(), "nobits compressed_file_range");
        ensure_eq!((r.format, r.compressed_size, r.uncompressed_size), (CompressionFormat::None, 0, 0), "nobits compressed_file_range");
        ensure_eq!(must!(s.uncompressed_data(), "nobits uncompressed_data"), &b""[..], "nobits data");
    }
    Ok(())
}

pub fn macho_case(g: &mut Gen) -> R {
    let c = gen_case(g, Fmt::Zlib, 32);
    let (is64, be) = (g.bool(), g.bool());
    let mut z = B::new(true, false);
    z.bytes(b"ZLIB").u64(c.size);
    if c.harm == Harm::Method {
        let p = g.below(8);
        z.v[p] ^= 1 << g.upto(7);
    }
    z.bytes(&c.stream);
    if c.harm == Harm::Short {
        let n = g.below(12);
        z.v.truncate(n);
    }
    let d = g.blob(40);
    let zname: &[u8] = g.pickc(&[&b"__zdebug_info"[..], b"__zdebug_", b"__zdebug_abbrev1"]);
    let pname: &[u8] = g.pickc(&[&b"__debug_info"[..], b"__zdebug", b".zdebug_info", b"__text"]);
    let first = g.bool();
    let secs: [(&[u8], &[u8]); 2] = if first { [(zname, &z.v), (pname, &d)] } else { [(pname, &d), (zname, &z.v)] };
    let mut b = B::new(be, is64);
    let (hs, ss, xs) = if is64 { (32, 72, 80) } else { (28, 56, 68) };
    let cmdsize = ss + 2 * xs;
    b.u32(if is64 { 0xfeedfacf } else { 0xfeedface });
    b.u32(if is64 { 0x01000007 } else { 7 }).u32(3).u32(1).u32(1).u32(cmdsize).u32(0);
    if is64 {
        b.u32(0);
    }
    let mut off = (hs + cmdsize) as u64 + g.upto(20);
    let mut offs = vec![];
    for s in &secs {
        offs.push(off);
        off += s.1.len() as u64 + g.upto(9);
    }
    b.u32(if is64 { 0x19 } else { 1 }).u32(cmdsize).fixed(b"", 16).w(0).w(off).w(offs[0]).w(off - offs[0]).u32(7).u32(7).u32(2).u32(0);
    for (i, s) in secs.iter().enumerate() {
        b.fixed(s.0, 16).fixed(b"__DWARF", 16).w(0).w(s.1.len() as u64).u32(offs[i] as u32).u32(0).u32(0).u32(0).u32(0x02000000).u32(0).u32(0);
        if is64 {
            b.u32(0);
        }
    }
    let mut v = b.v;
    for (i, s) in secs.iter().enumerate() {
        v.resize(offs[i] as usize, 0x5a);
        v.extend(s.1);
    }
    v.resize(off as usize, 0x5a);
    g.file(&v)?;
    g.sample(|| format!("64={is64} be={be} orig {} stream {:x?} recorded {} {:?}", c.orig.len(), &c.stream[..c.stream.len().min(40)], c.size, c.harm));
    let f = must!(File::parse(&v[..]), "parse");
    let (zi, pi) = if first { (1, 2) } else { (2, 1) };
    let s = must!(f.section_by_index(SectionIndex(zi)), "section");
    check_section(&s, &c, &v, 12)?;
    let s = must!(f.section_by_index(SectionIndex(pi)), "plain section");
    let r = must!(s.compressed_file_range(), "plain compressed_file_range");
    ensure_eq!((r.format, r.offset, r.compressed_size, r.uncompressed_size), (CompressionFormat::None, offs[pi - 1], d.len() as u64, d.len() as u64), "plain compressed_file_range");
    ensure_eq!(must!(s.uncompressed_data(), "plain uncompressed_data"), &d[..], "plain uncompressed_data");
    Ok(())
}

/// A zstd frame whose content checksum does not match.
fn checksum(g: &mut Gen) -> R {
    let n = g.len1(30);
    let v = g.bytes(n);
    let mut b = B::new(false, false);
    b.u32(0xfd2fb528).u8(0xa4).u32(n as u32).int(3, 1 | (n as u64) << 3).bytes(&v);
    // XXH64 of the content is not zero and not all ones at the same time.
    let mut ok = 0;
    for sum in [0u32, u32::MAX] {
        let mut s = b.clone();
        s.u32(sum);
        let d = CompressedData { format: CompressionFormat::Zstandard, data: &s.v, uncompressed_size: n as u64 };
        ok += d.decompress().is_ok() as u32;
    }
    g.nontrivial();
    g.sample(|| format!("{:x?}", b.v));
    if ok > 1 {
        return Err(Failure { sig: "zstd-checksum".into(), msg: "a zstd frame with a wrong content checksum is accepted".into() });
    }
    Ok(())
}

fn main() {
    run(
        "C09",
        "the original content has more than 4 bytes",
        &["the zlib encoder of flate2 and the zstd encoder of ruzstd are correct; stored, raw and run-length blocks are encoded by hand", "zstd frames without a checksum may decode to other data when corrupt, of the recorded size only"],
        &[sub("elf", 150_000, 4_000_000, elf_case), sub("macho", 60_000, 2_000_000, macho_case), sub("zstd-checksum", 200, 2000, checksum)],
    )
}
