//! C14: Mach-O fat files, dyld caches and code signatures are read exactly.
use object::macho as m;
use object::read::macho::*;
use object::read::*;
use object::{Endianness, pod};
use vh::b::*;
use vh::macho::*;
use vh::*;

type Bytes = Vec<u8>;

pub fn fat(g: &mut Gen) -> R {
    let is64 = g.bool();
    let n = g.len(6);
    let esz = if is64 { 32 } else { 20 };
    let claimed = if g.chance(1, 10) { n as u64 + 1 + g.uint(31) } else { n as u64 };
    let mut b = B::new(true, is64);
    b.u32(if is64 { 0xcafe_babf } else { 0xcafe_babe }).u32(claimed as u32);
    let mut want = vec![];
    let mut tail = B::new(true, is64);
    let base = 8 + esz * n;
    for _ in 0..n {
        let mut image = None;
        let mut cpu = g.pickc(&[X86, X86_64, ARM, ARM64, ARM64_32, PPC, PPC64, MIPS, 0x0100_0008]);
        let sub = g.u32();
        let (off, size) = match g.below(4) {
            0 => (g.uint(if is64 { 64 } else { 32 }), g.uint(if is64 { 64 } else { 32 })),
            1 => {
                let a = g.upto((base + tail.len()) as u64);
                (a, (base + tail.len()) as u64 - a)
            }
            _ => {
                let mut mo = gen_header(g);
                gen_segments(g, &mut mo, false);
                cpu = mo.cputype;
                let v = mo.encode(g);
                let pad = g.len(9);
                tail.zeros(pad);
                if g.bool() {
                    let a = (base + tail.len()).next_multiple_of(4) - base - tail.len();
                    tail.zeros(a);
                }
                let o = base + tail.len();
                tail.bytes(&v);
                image = Some(v.clone());
                (o as u64, v.len() as u64)
            }
        };
        let align = if g.chance(1, 6) { g.u32() } else { g.upto(14) as u32 };
        b.u32(cpu).u32(sub).w(off).w(size).u32(align);
        if is64 {
            b.u32(if g.bool() { 0 } else { g.u32() });
        }
        want.push((cpu, sub, off, size, align, image));
    }
    b.bytes(&tail.v);
    let v = b.v;
    g.file(&v)?;
    g.nontrivial_if(n > 1);
    g.sample(|| format!("fat {} with {n} entries, count {claimed}: {:x?}", if is64 { 64 } else { 32 }, want.iter().map(|w| (w.0, w.2, w.3)).collect::<Vec<_>>()));
    macro_rules! go { ($t:ty, $other:ty) => {{
        ensure!(<$other>::parse(&v[..]).is_err(), "fat magic of the other width accepted");
        let r = <$t>::parse(&v[..]);
        if 8 + claimed * esz as u64 > v.len() as u64 {
            ensure!(r.is_err(), "{claimed} entries accepted in {} bytes", v.len());
            return Ok(());
        }
        let f = must!(r, "fat parse");
        ensure_eq!(f.header().nfat_arch.get(object::BigEndian) as u64, claimed, "nfat_arch");
        if claimed == n as u64 {
            ensure_eq!(f.arches().len(), n, "arches");
        }
        for (i, (a, w)) in f.arches().iter().zip(&want).enumerate() {
            ensure_eq!((a.cputype().0, a.cpusubtype().0, a.offset() as u64, a.size() as u64, a.align()), (w.0, w.1, w.2, w.3, w.4), "arch {i}");
            ensure_eq!(a.file_range(), (w.2, w.3), "file range of arch {i}");
            let d = w.2.checked_add(w.3).and_then(|e| v.get(w.2 as usize..e as usize));
            match (a.data(&v[..]), d) {
                (Ok(x), Some(d)) => ensure_eq!(x, d, "data of arch {i}"),
                (Err(_), None) => {}
                (Ok(x), None) => ensure!(x.is_empty() && w.3 == 0, "arch {i} outside the file has data"),
                (Err(_), Some(_)) => fail!("data of arch {i} is an error"),
            }
            if let Some(img) = &w.5 {
                let x = must!(a.data(&v[..]), "arch data");
                ensure_eq!(x, &img[..], "image of arch {i}");
                if let Ok(f) = File::parse(x) {
                    ensure_eq!(a.architecture(), f.architecture(), "architecture of arch {i}, cpu type {:#x}", w.0);
                }
            }
        }
    }} }
    if is64 { go!(MachOFatFile64, MachOFatFile32) } else { go!(MachOFatFile32, MachOFatFile64) }
    // Detection needs 16 bytes of any format.
    if v.len() < 16 {
        return Ok(());
    }
    let k = must!(FileKind::parse(&v[..]), "kind");
    // A 32-bit fat header starts like a Java class file, those are excluded by the number of entries.
    ensure_eq!(k, if is64 { FileKind::MachOFat64 } else { FileKind::MachOFat32 }, "kind");
    Ok(())
}

// dyld shared cache.

type Reloc = (u64, u64, Option<(u8, u16, bool)>);

struct Map {
    addr: u64,
    size: u64,
    off: u64,
    max: u32,
    init: u32,
    flags: u64,
    slide: Option<(u64, u64)>,
    relocs: Vec<Reloc>,
    bad_slide: bool,
}
struct CFile {
    uuid: Bytes,
    v: Bytes,
    maps: Vec<Map>,
}

/// Slide information of one mapping: writes the pointer chains into `data`, and returns the
/// encoded information and the relocations in order.
fn gen_slide(g: &mut Gen, be: bool, data: &mut B, at: usize, size: usize) -> (Bytes, Vec<Reloc>) {
    let version = g.pickc(&[2u32, 2, 3, 5]);
    let page = g.pickc(&[0x40usize, 0x80, 0x1000]);
    let mut npages = size / page;
    if npages > 0 && g.chance(1, 6) {
        npages -= 1;
    }
    let npages = npages.min(6);
    let mut out = vec![];
    let (mut starts, mut extras): (Vec<u16>, Vec<u16>) = (vec![], vec![]);
    let mask = g.pickc(&[0x00ff_ff00_0000_0000u64, 0x007f_ff80_0000_0000, 0xc000_0000_0000_0000, 0x00ff_ff00_0000_0000, 0]);
    let add = if g.bool() { g.uint(40) } else { g.u64() };
    let unit = if version == 2 { 4 } else { 8 };
    let bits = match version {
        2 => mask.count_ones(),
        _ => 11,
    };
    for p in 0..npages {
        let mut offs = vec![];
        let mut o = g.below(4) * unit;
        while o + 8 <= page && offs.len() < 6 {
            offs.push(o);
            let k = g.below(4);
            o += 8 + unit * k;
            if g.chance(1, 5) {
                break;
            }
        }
        if g.chance(1, 5) {
            offs.clear();
        }
        if offs.is_empty() {
            starts.push(if version == 2 { 0x4000 } else { 0xffff });
            continue;
        }
        let mut chains: Vec<Vec<usize>> = vec![vec![offs[0]]];
        for w in offs.windows(2) {
            let d = (w[1] - w[0]) / unit;
            if version != 2 {
                chains.last_mut().unwrap().push(w[1]);
            } else if d >> bits.min(20) != 0 || g.chance(1, 6) {
                chains.push(vec![w[1]]);
            } else {
                chains.last_mut().unwrap().push(w[1]);
            }
        }
        let mut plain = g.bool();
        if chains.len() == 1 && version != 2 {
            plain = true;
        }
        if chains.len() == 1 && plain {
            starts.push((chains[0][0] / if version == 2 { 4 } else { 1 }) as u16);
        } else {
            starts.push(0x8000 | extras.len() as u16);
            let n = chains.len();
            for (i, c) in chains.iter().enumerate() {
                extras.push((c[0] / 4) as u16 | if i + 1 == n { 0x8000 } else { 0 });
            }
        }
        for c in &chains {
            for (i, o) in c.iter().enumerate() {
                let next = c.get(i + 1).map_or(0, |n| (n - o) / unit) as u64;
                let off = (p * page + o) as u64;
                let val;
                match version {
                    2 => {
                        let v = if g.chance(1, 8) { 0 } else { g.u64() & !mask };
                        if v != 0 {
                            out.push((off, v.wrapping_add(add), None));
                        }
                        val = v | if mask == 0 { 0 } else { next << mask.trailing_zeros() };
                    }
                    3 => {
                        if g.bool() {
                            let (t, d, a, k) = (g.uint(32), g.u16(), g.bool(), g.upto(3));
                            out.push((off, t.wrapping_add(add), Some((k as u8, d, a))));
                            val = t | (d as u64) << 32 | (a as u64) << 48 | k << 49 | next << 51 | 1 << 63;
                        } else {
                            let (t, h) = (g.uint(43), if g.bool() { 0 } else { g.u8() as u64 });
                            out.push((off, t | h << 56, None));
                            val = t | h << 43 | next << 51;
                        }
                    }
                    _ => {
                        let t = g.uint(34);
                        if g.bool() {
                            let (d, a, k) = (g.u16(), g.bool(), g.bool());
                            out.push((off, t.wrapping_add(add), Some((if k { 2 } else { 0 }, d, a))));
                            val = t | (d as u64) << 34 | (a as u64) << 50 | (k as u64) << 51 | next << 52 | 1 << 63;
                        } else {
                            let h = if g.bool() { 0 } else { g.u8() as u64 };
                            out.push((off, t.wrapping_add(add) | h << 56, None));
                            val = t | h << 34 | next << 52;
                        }
                    }
                }
                data.put(at + off as usize, 8, val);
            }
        }
    }
    let mut s = B::new(be, true);
    s.u32(version).u32(page as u32);
    let put = |s: &mut B, x: &[u16]| {
        for y in x {
            s.u16(*y);
        }
    };
    if version == 2 {
        let gap = 2 * g.below(3);
        let so = 40 + gap;
        let swap = g.chance(1, 4);
        let (a, b) = if swap { (so + 2 * extras.len(), so) } else { (so, so + 2 * starts.len()) };
        s.u32(a as u32).u32(starts.len() as u32).u32(b as u32).u32(extras.len() as u32).u64(mask).u64(add);
        s.zeros(gap);
        if swap {
            put(&mut s, &extras);
            put(&mut s, &starts);
        } else {
            put(&mut s, &starts);
            put(&mut s, &extras);
        }
    } else {
        s.u32(starts.len() as u32).u32(if g.bool() { 0 } else { g.u32() }).u64(add);
        put(&mut s, &starts);
    }
    (s.v, out)
}

const MAGICS: [(&str, Architecture, bool); 11] = [
    ("dyld_v1    i386", Architecture::I386, false),
    ("dyld_v1  x86_64", Architecture::X86_64, false),
    ("dyld_v1 x86_64h", Architecture::X86_64, false),
    ("dyld_v1     ppc", Architecture::PowerPc, true),
    ("dyld_v1   armv6", Architecture::Arm, false),
    ("dyld_v1   armv7", Architecture::Arm, false),
    ("dyld_v1  armv7f", Architecture::Arm, false),
    ("dyld_v1  armv7s", Architecture::Arm, false),
    ("dyld_v1  armv7k", Architecture::Arm, false),
    ("dyld_v1   arm64", Architecture::Aarch64, false),
    ("dyld_v1  arm64e", Architecture::Aarch64, false),
];

/// One cache file: header with `hsize` as the mapping offset, mappings at increasing addresses.
/// `extra` is placed by the caller; returns the buffer and the mappings.
fn gen_cfile(g: &mut Gen, be: bool, magic: &str, hsize: usize, base: &mut u64, exact: bool) -> (B, CFile) {
    let mut b = B::new(be, true);
    b.zeros(0x228.max(hsize));
    b.align(8);
    for (i, c) in magic.bytes().enumerate() {
        b.v[i] = c;
    }
    let uuid = g.bytes(16);
    b.v[0x58..0x68].copy_from_slice(&uuid);
    b.put(0x10, 4, hsize as u64);
    let v2 = hsize >= 0x140;
    let nmap = if exact { g.range(2, 4) } else { g.len(4) };
    let mut maps = vec![];
    for _ in 0..nmap {
        b.align(8);
        if g.chance(1, 4) {
            b.zeros(8);
        }
        let off = b.len();
        let size = if g.chance(1, 10) { 0 } else { 8 * g.range(1, 48) };
        let d = if g.bool() { g.bytes(size) } else { vec![0; size] };
        b.bytes(&d);
        let gap = if g.bool() { 0 } else { g.upto(0x2000) };
        *base += gap;
        let mut mp = Map {
            addr: *base,
            size: size as u64,
            off: off as u64,
            max: g.upto(7) as u32,
            init: g.upto(7) as u32,
            flags: g.upto(31),
            slide: None,
            relocs: vec![],
            bad_slide: false,
        };
        *base += size as u64;
        if !exact && g.chance(1, 12) {
            // Outside the file.
            mp.off = g.range64(1 << 20, !0 >> 1);
            mp.size = 1 + g.uint(40);
            *base += mp.size;
        } else if v2 && g.chance(2, 3) {
            let (s, r) = gen_slide(g, be, &mut b, off, size);
            b.align(8);
            mp.slide = Some((b.len() as u64, s.len() as u64));
            mp.relocs = r;
            let v = s.clone();
            b.bytes(&v);
            if g.chance(1, 12) {
                mp.bad_slide = true;
                b.put(mp.slide.unwrap().0 as usize, 4, g.pickc(&[0, 1, 4, 6, 0x0200_0000]));
            }
        }
        maps.push(mp);
    }
    b.align(8);
    let at = b.len();
    // The V1 table is also present in files with a V2 table, and must not be used then.
    for mp in &maps {
        b.u64(mp.addr ^ if v2 { 1 } else { 0 }).u64(mp.size).u64(mp.off).u32(mp.max).u32(mp.init);
    }
    if v2 {
        let at = b.len();
        for mp in &maps {
            let (so, ss) = mp.slide.unwrap_or((0, 0));
            b.u64(mp.addr).u64(mp.size).u64(mp.off).u64(so).u64(ss).u64(mp.flags).u32(mp.max).u32(mp.init);
        }
        b.put(0x138, 4, at as u64);
        b.put(0x13c, 4, maps.len() as u64);
        b.put(0x14, 4, if maps.is_empty() { 0 } else { maps.len() as u64 - 1 });
    } else {
        // The offset of the mappings is the size of the header.
        assert!(b.len() >= at);
        b.put(0x14, 4, maps.len() as u64);
    }
    (b, CFile { uuid, v: vec![], maps })
}

struct Cache {
    be: bool,
    arch: Architecture,
    hsize: usize,
    files: Vec<CFile>,
    suffixes: Vec<String>,
    symbols: Option<Bytes>,
    images: Vec<(u64, u64, u64, u32, Bytes)>,
}

/// Mapping tables of old files directly follow the header; the generator puts them there.
fn gen_cache(g: &mut Gen) -> Cache {
    let (magic, arch, be) = *g.pick(&MAGICS);
    let hsize = g.pickc(&[0x48usize, 0x68, 0x138, 0x140, 0x178, 0x1c0, 0x1c8, 0x1d0, 0x200, 0x228]);
    let mut base = g.uint(40);
    let nsub = if hsize >= 0x1c8 { g.len(3) } else { 0 };
    let symbols = hsize >= 0x1c8 && g.chance(1, 3);
    let (mut b, mut main) = gen_cfile(g, be, magic, hsize, &mut base, false);
    let mut files = vec![];
    let mut suffixes = vec![];
    for i in 0..nsub {
        let h = if g.chance(1, 3) { 0x140 } else { hsize };
        // The magic of a subcache is not looked at.
        let (sb, mut f) = gen_cfile(g, be, magic, h, &mut base, false);
        f.v = sb.v;
        files.push(f);
        suffixes.push(format!(".{}", i + 1));
    }
    let sym = if symbols {
        let (sb, f) = gen_cfile(g, be, magic, 0x228, &mut 0, true);
        let uuid = f.uuid;
        b.v[0x190..0x1a0].copy_from_slice(&uuid);
        Some(sb.v)
    } else {
        if hsize < 0x1c8 && g.bool() {
            // Not part of the header.
            b.v[0x190..0x1a0].copy_from_slice(&g.bytes(16));
            b.put(0x188, 8, 0xffff_ffff_ffff);
        }
        None
    };
    if hsize >= 0x1c8 {
        b.align(8);
        let at = b.len();
        for (i, f) in files.iter().enumerate() {
            b.bytes(&f.uuid).u64(g.u64());
            if hsize >= 0x1d0 {
                let s = match g.below(4) {
                    0 => format!(".{:02}.development", i),
                    1 => format!(".{}", i + 1),
                    2 => "0123456789abcdef0123456789abcdef".into(),
                    _ => g.ident(20),
                };
                b.fixed(s.as_bytes(), 32);
                suffixes[i] = s;
            }
        }
        b.put(0x188, 4, at as u64);
        b.put(0x18c, 4, files.len() as u64);
    }
    if sym.is_some() {
        suffixes.push(".symbols".into());
    }
    // Images.
    let mut images = vec![];
    for _ in 0..g.len(5) {
        let path = g.name(20);
        let off = b.len() as u32;
        b.cstr(&path);
        let addr = match g.below(4) {
            0 => g.u64(),
            _ => {
                let all: Vec<&Map> = main.maps.iter().chain(files.iter().flat_map(|f| &f.maps)).collect();
                if all.is_empty() { g.u64() } else { all[g.below(all.len())].addr }
            }
        };
        images.push((addr, g.u64(), g.u64(), off, path));
    }
    b.align(8);
    let at = b.len();
    for i in &images {
        b.u64(i.0).u64(i.1).u64(i.2).u32(i.3).u32(g.u32());
    }
    let (o, c) = if hsize >= 0x1c8 { (0x1c0, 0x1c4) } else { (0x18, 0x1c) };
    b.put(o, 4, at as u64);
    b.put(c, 4, images.len() as u64);
    if hsize >= 0x1c8 {
        b.put(0x18, 8, if g.bool() { 0 } else { g.u64() });
    } else {
        b.put(0x1c0, 8, if g.bool() { 0 } else { g.u64() });
    }
    if hsize < 0x140 {
        fix_v1(&mut b, &main.maps);
    }
    main.v = b.v;
    files.insert(0, main);
    Cache { be, arch, hsize, files, suffixes, symbols: sym, images }
}

/// The V1 mapping table is at the header size: overwrite what is there. The fields after it in the
/// header struct are then unused by definition of that header size.
fn fix_v1(b: &mut B, maps: &[Map]) {
    let h = D::new(b.be, true, &b.v).at(0x10).u32().unwrap() as usize;
    let end = h + 32 * maps.len();
    if b.v.len() < end {
        b.v.resize(end, 0);
    }
    for (i, mp) in maps.iter().enumerate() {
        let o = h + 32 * i;
        b.put(o, 8, mp.addr);
        b.put(o + 8, 8, mp.size);
        b.put(o + 16, 8, mp.off);
        b.put(o + 24, 4, mp.max as u64);
        b.put(o + 28, 4, mp.init as u64);
    }
}

pub fn cache(g: &mut Gen) -> R {
    let mut c = gen_cache(g);
    if c.hsize < 0x140 {
        // Old headers: the table overlaps later header fields, including the UUID for tiny headers.
        let mut uuid = [0; 16];
        uuid.copy_from_slice(&c.files[0].v[0x58..0x68]);
        c.files[0].uuid = uuid.to_vec();
    }
    let n = c.files.len();
    let data = &c.files[0].v[..];
    let mut subs: Vec<&[u8]> = c.files[1..].iter().map(|f| &f.v[..]).collect();
    if let Some(s) = &c.symbols {
        subs.push(s);
    }
    {
        let all: Vec<&[u8]> = std::iter::once(data).chain(subs.iter().copied()).collect();
        g.files(&all)?;
    }
    g.nontrivial_if(c.files.iter().map(|f| f.maps.len()).sum::<usize>() > 1);
    g.label_if(n > 1, "subcaches");
    g.label_if(c.symbols.is_some(), "symbols");
    g.label_if(c.hsize < 0x140, "v1 mappings");
    g.label_if(c.files.iter().any(|f| f.maps.iter().any(|m| m.relocs.len() > 2)), "relocations");
    g.sample(|| format!("cache header {:#x}, mappings {:?}, {} images", c.hsize, c.files.iter().map(|f| f.maps.len()).collect::<Vec<_>>(), c.images.len()));
    ensure_eq!(must!(DyldCache::<Endianness>::subcache_suffixes(data), "suffixes"), c.suffixes, "suffixes");
    let dc = must!(DyldCache::<Endianness>::parse(data, &subs), "parse cache with header size {:#x}", c.hsize);
    ensure_eq!(dc.architecture(), c.arch, "architecture");
    ensure_eq!(dc.is_little_endian(), !c.be, "endianness");
    ensure_eq!(dc.endianness(), if c.be { Endianness::Big } else { Endianness::Little }, "endianness");
    ensure_eq!(dc.data(), data, "data");
    ensure_eq!(must!(FileKind::parse(data), "kind"), FileKind::DyldCache, "kind");
    // Wrong subcaches.
    if !subs.is_empty() {
        ensure!(DyldCache::<Endianness>::parse(data, &subs[1..]).is_err(), "missing subcache accepted");
        let i = g.below(subs.len());
        let mut x = subs[i].to_vec();
        x[0x58 + g.below(16)] ^= 1 << g.below(8);
        let mut s2 = subs.clone();
        s2[i] = &x;
        ensure!(DyldCache::<Endianness>::parse(data, &s2).is_err(), "subcache with another UUID accepted");
    }
    let mut s2 = subs.clone();
    s2.push(data);
    ensure!(DyldCache::<Endianness>::parse(data, &s2).is_err(), "extra subcache accepted");
    // Mappings.
    let maps: Vec<(usize, &Map)> = c.files.iter().enumerate().flat_map(|(i, f)| f.maps.iter().map(move |m| (i, m))).collect();
    let got: Vec<_> = dc.mappings().collect();
    ensure_eq!(got.len(), maps.len(), "mappings");
    for (x, (f, w)) in got.iter().zip(&maps) {
        ensure_eq!((x.address(), x.size(), x.file_offset(), x.max_prot().0, x.init_prot().0), (w.addr, w.size, w.off, w.max, w.init), "mapping");
        let fv = &c.files[*f].v;
        let d = w.off.checked_add(w.size).and_then(|e| fv.get(w.off as usize..e as usize));
        match (x.data(), d) {
            (Ok(x), Some(d)) => ensure_eq!(x, d, "mapping data"),
            (Err(_), None) => {}
            (x, d) => fail!("mapping data {:?} expected {:?}", x.map(|x| x.len()), d.map(|x| x.len())),
        }
        let r = x.relocations();
        if w.bad_slide {
            ensure!(r.is_err(), "unknown slide version accepted");
            continue;
        }
        let mut out: Vec<Reloc> = vec![];
        for y in must!(r, "relocations") {
            let y = must!(y, "relocation");
            out.push((y.offset, y.value, y.auth.map(|a| (a.key as u8, a.diversity, a.addr_div))));
            ensure!(out.len() <= w.relocs.len(), "more than {} relocations: {:x?}", w.relocs.len(), out.last());
        }
        ensure_eq!(out, w.relocs, "relocations of the mapping at {:#x}", w.addr);
    }
    // Addresses.
    for _ in 0..8 {
        let a = match g.below(3) {
            0 => g.u64(),
            _ if maps.is_empty() => g.u64(),
            _ => {
                let m = maps[g.below(maps.len())].1;
                match g.below(4) {
                    0 => m.addr,
                    1 => m.addr.wrapping_add(m.size),
                    2 => m.addr.wrapping_add(m.size).wrapping_sub(1),
                    _ => m.addr.wrapping_add(g.upto(m.size)),
                }
            }
        };
        let w = maps.iter().find(|(_, m)| a >= m.addr && a - m.addr < m.size);
        let got = dc.data_and_offset_for_address(a);
        ensure_eq!(got.map(|(d, o)| (d.as_ptr(), d.len(), o)), w.map(|(f, m)| (c.files[*f].v.as_ptr(), c.files[*f].v.len(), m.off + (a - m.addr))), "address {a:#x}");
    }
    // Images.
    let mut it = dc.images();
    for (i, w) in c.images.iter().enumerate() {
        let x = must_some!(it.next(), "image {i}");
        let e = dc.endianness();
        ensure_eq!((x.info().address.get(e), x.info().mod_time.get(e), x.info().inode.get(e)), (w.0, w.1, w.2), "image {i}");
        ensure_eq!(x.path().ok(), std::str::from_utf8(&w.4).ok(), "path of image {i}");
        ensure_eq!(must!(x.info().path(e, data), "path bytes"), &w.4[..], "path bytes of image {i}");
        let w = maps.iter().find(|(_, m)| w.0 >= m.addr && w.0 - m.addr < m.size).map(|(f, m)| (c.files[*f].v.as_ptr(), m.off + (w.0 - m.addr)));
        ensure_eq!(x.image_data_and_offset().ok().map(|(d, o)| (d.as_ptr(), o)), w, "place of image {i}");
    }
    ensure!(it.next().is_none(), "extra image");
    Ok(())
}

/// Damaged caches end in errors, and iterations end.
fn cache_bad(g: &mut Gen) -> R {
    let c = gen_cache(g);
    let mut subs: Vec<&[u8]> = c.files[1..].iter().map(|f| &f.v[..]).collect();
    if let Some(s) = &c.symbols {
        subs.push(s);
    }
    let mut b = B { be: c.be, is64: true, v: c.files[0].v.clone() };
    g.nontrivial();
    match g.below(4) {
        0 => {
            let i = g.range(0, 15);
            b.v[i] ^= 1 << g.below(7);
            if MAGICS.iter().any(|m| m.0.as_bytes() == &b.v[..15] && b.v[15] == 0) {
                return Ok(());
            }
            ensure!(DyldCache::<Endianness>::parse(&b.v[..], &subs).is_err(), "bad magic accepted");
        }
        1 => {
            let k = g.below(0x228);
            ensure!(DyldCache::<Endianness>::parse(&b.v[..k], &subs).is_err(), "truncated header accepted");
        }
        2 => {
            // Tables outside the file.
            let at = match g.below(3) {
                0 if c.hsize >= 0x140 => 0x13c,
                0 => 0x14,
                1 if c.hsize >= 0x1c8 => 0x1c4,
                1 => 0x1c,
                _ if c.hsize >= 0x1c8 => 0x18c,
                _ => 0x1c,
            };
            b.put(at, 4, g.range64(b.len() as u64 / 20, 0xffff_ffff));
            ensure!(DyldCache::<Endianness>::parse(&b.v[..], &subs).is_err(), "table outside the file accepted");
        }
        _ => {
            // Truncated, or slide information with random contents: every iteration ends, errors end it.
            let (w, p) = (g.range(1, 8), g.below(b.len()));
            let maps = c.files[0].maps.iter().filter_map(|m| m.slide).collect::<Vec<_>>();
            if let Some(s) = maps.first() {
                for _ in 0..w {
                    let q = s.0 as usize + 4 * g.below((s.1 as usize / 4).max(1));
                    b.put(q, 4, g.u32() as u64);
                }
                g.label("slide");
            }
            let v = if g.bool() { &b.v[..] } else { &b.v[..p] };
            let Ok(dc) = DyldCache::<Endianness>::parse(v, &subs) else { return Ok(()) };
            for m in dc.mappings() {
                let Ok(mut it) = m.relocations() else { continue };
                let mut n = 0usize;
                while let Some(r) = it.next() {
                    n += 1;
                    ensure!(n <= v.len() * 4096, "iteration does not end");
                    if r.is_err() {
                        ensure!(it.next().is_none(), "iteration continues after an error");
                        break;
                    }
                }
            }
        }
    }
    Ok(())
}

/// Images in the cache are read from the files that map their segments.
pub fn images(g: &mut Gen) -> R {
    let be = false;
    let e = Endianness::Little;
    let is64 = g.chance(3, 4);
    let magic = if is64 { "dyld_v1  arm64e" } else { "dyld_v1    i386" };
    let mut base = 0x1_8000 + g.uint(30);
    if is64 {
        base |= 0x1_0000_0000;
    } else {
        base &= 0x3fff_ffff;
    }
    let two = g.chance(2, 3);
    let (mut b0, mut f0) = gen_cfile(g, be, magic, 0x1d0, &mut base, true);
    let (mut b1, mut f1) = gen_cfile(g, be, magic, 0x1d0, &mut base, true);
    // An extra mapping per file with the image parts.
    // File A: header, __TEXT. File B (or A): __DATA and __LINKEDIT.
    let nsect = g.range(1, 3);
    let word = if is64 { 8 } else { 4 };
    let (seg_sz, sect_sz) = if is64 { (72, 80) } else { (56, 68) };
    let hdr = if is64 { 32 } else { 28 };
    let cmds = 3 * seg_sz + 2 * nsect * sect_sz + 24;
    let text_map = base + g.upto(0x100) * 8;
    let img_delta = 8 * g.upto(4);
    let text: Bytes = g.bytes(8 * nsect);
    let datav: Bytes = g.bytes(8 * nsect);
    b0.align(8);
    let a_off = b0.len() as u64;
    let text_len = img_delta + (hdr + cmds) as u64 + text.len() as u64;
    let d_map = text_map + text_len.next_multiple_of(16) + g.upto(64) * 16;
    let l_map = d_map + datav.len() as u64 + g.upto(64) * 16;
    // Linkedit: symbols and strings.
    let mut st = StrTab::new(b"\0", false);
    let names: Vec<Bytes> = (0..g.len(4)).map(|_| g.name(8)).collect();
    let nl: Vec<(u32, u64)> = names.iter().map(|n| (st.add(n), g.uint(if is64 { 64 } else { 32 }))).collect();
    let img_addr = text_map + img_delta;
    let mut bx = if two { std::mem::replace(&mut b1, B::new(be, true)) } else { B::new(be, true) };
    // Place the data and linkedit parts.
    let (d_off, l_off, sym_off, str_off);
    {
        let (t, add) = if two { (&mut bx, 0) } else { (&mut b0, text_len.next_multiple_of(8) as usize) };
        if add > 0 {
            t.zeros(add);
        }
        t.align(8);
        d_off = t.len() as u64;
        t.bytes(&datav);
        t.align(8);
        l_off = t.len() as u64;
        let z = 8 * g.below(3);
        t.zeros(z);
        sym_off = t.len();
        for (x, v) in &nl {
            t.u32(*x).u8(0x0f).u8(1).u16(0).int(word, *v);
        }
        str_off = t.len();
        t.bytes(&st.v);
        t.align(8);
    }
    let l_len = (if two { &bx } else { &b0 }).len() as u64 - l_off;
    let mut h = B::new(be, is64);
    h.u32(if is64 { 0xfeed_facf } else { 0xfeed_face }).u32(if is64 { ARM64 } else { X86 }).u32(0).u32(6).u32(4).u32(cmds as u32).u32(0);
    if is64 {
        h.u32(0);
    }
    let text_at = a_off + img_delta + (hdr + cmds) as u64;
    let mut segment = |name: &str, addr: u64, size: u64, off: u64, sects: &[(String, u64, u64, u64)]| {
        h.u32(if is64 { 0x19 } else { 1 }).u32((seg_sz + sects.len() * sect_sz) as u32);
        h.fixed(name.as_bytes(), 16).w(addr).w(size).w(off).w(size).u32(7).u32(7).u32(sects.len() as u32).u32(0);
        for s in sects {
            h.fixed(s.0.as_bytes(), 16).fixed(name.as_bytes(), 16).w(s.1).w(s.2).u32(s.3 as u32).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0);
            if is64 {
                h.u32(0);
            }
        }
    };
    let ts: Vec<_> = (0..nsect as u64).map(|i| (format!("__t{i}"), img_addr + (hdr + cmds) as u64 + 8 * i, 8, text_at + 8 * i)).collect();
    let ds: Vec<_> = (0..nsect as u64).map(|i| (format!("__d{i}"), d_map + 8 * i, 8, d_off + 8 * i)).collect();
    let order = g.below(3);
    for k in 0..3 {
        match (k + order) % 3 {
            0 => segment("__TEXT", img_addr, text_len - img_delta, a_off + img_delta, &ts),
            1 => segment("__DATA", d_map, datav.len() as u64, d_off, &ds),
            _ => segment("__LINKEDIT", l_map, l_len, l_off, &[]),
        }
    }
    h.u32(2).u32(24).u32(sym_off as u32).u32(nl.len() as u32).u32(str_off as u32).u32(st.v.len() as u32);
    assert_eq!(h.len(), hdr + cmds);
    let need = (a_off + text_len) as usize;
    if b0.v.len() < need {
        b0.v.resize(need, 0);
    }
    let at = (a_off + img_delta) as usize;
    b0.v[at..at + h.len()].copy_from_slice(&h.v);
    b0.v[text_at as usize..text_at as usize + text.len()].copy_from_slice(&text);
    let mk = |addr, size, off| Map { addr, size, off, max: 7, init: 7, flags: 0, slide: None, relocs: vec![], bad_slide: false };
    f0.maps.push(mk(text_map, text_len, a_off));
    let t = if two { &mut f1 } else { &mut f0 };
    t.maps.push(mk(d_map, datav.len() as u64, d_off));
    t.maps.push(mk(l_map, l_len, l_off));
    // Rewrite the mapping tables.
    fn table(b: &mut B, f: &CFile) {
        b.align(8);
        let at = b.len();
        for mp in &f.maps {
            let (so, ss) = mp.slide.unwrap_or((0, 0));
            b.u64(mp.addr).u64(mp.size).u64(mp.off).u64(so).u64(ss).u64(mp.flags).u32(mp.max).u32(mp.init);
        }
        b.put(0x138, 4, at as u64);
        b.put(0x13c, 4, f.maps.len() as u64);
    }
    table(&mut b0, &f0);
    let path = b"/usr/lib/libx.dylib".to_vec();
    let poff = b0.len();
    b0.cstr(&path).align(8);
    let iat = b0.len();
    b0.u64(img_addr).u64(0).u64(0).u32(poff as u32).u32(0);
    b0.put(0x1c0, 4, iat as u64);
    b0.put(0x1c4, 4, 1);
    let mut subs: Vec<Bytes> = vec![];
    if two {
        table(&mut bx, &f1);
        let sat = b0.len();
        b0.bytes(&f1.uuid).u64(0).fixed(b".1", 32);
        b0.put(0x188, 4, sat as u64);
        b0.put(0x18c, 4, 1);
        subs.push(bx.v);
    }
    g.nontrivial();
    g.label_if(two, "two files");
    let subrefs: Vec<&[u8]> = subs.iter().map(|s| &s[..]).collect();
    {
        let all: Vec<&[u8]> = std::iter::once(&b0.v[..]).chain(subrefs.iter().copied()).collect();
        g.files(&all)?;
    }
    let dc = must!(DyldCache::<Endianness>::parse(&b0.v[..], &subrefs), "parse");
    let img = must_some!(dc.images().next(), "image");
    ensure_eq!(img.path().ok(), Some("/usr/lib/libx.dylib"), "path");
    let f = must!(img.parse_object(), "object");
    ensure_eq!(f.format(), BinaryFormat::MachO, "format");
    ensure_eq!(f.is_64(), is64, "width");
    let mut want: Vec<(String, u64, Bytes)> = vec![];
    for k in 0..3 {
        match (k + order) % 3 {
            0 => want.extend(ts.iter().enumerate().map(|(i, s)| (s.0.clone(), s.1, text[8 * i..8 * i + 8].to_vec()))),
            1 => want.extend(ds.iter().enumerate().map(|(i, s)| (s.0.clone(), s.1, datav[8 * i..8 * i + 8].to_vec()))),
            _ => {}
        }
    }
    let got: Vec<(String, u64, Bytes)> = f.sections().map(|s| (s.name().unwrap_or("?").to_string(), s.address(), s.data().unwrap_or(b"?").to_vec())).collect();
    ensure_eq!(got, want, "sections of the image");
    for s in f.segments() {
        let n = must!(s.name(), "segment name").unwrap_or("").to_string();
        let d = must!(s.data(), "data of segment {n}");
        let (src, off, len): (&[u8], u64, u64) = match &n[..] {
            "__TEXT" => (&b0.v, a_off + img_delta, text_len - img_delta),
            "__DATA" => (if two { &subs[0] } else { &b0.v }, d_off, datav.len() as u64),
            _ => (if two { &subs[0] } else { &b0.v }, l_off, l_len),
        };
        ensure_eq!(d, &src[off as usize..(off + len) as usize], "data of segment {n}");
    }
    let got: Vec<(Bytes, u64)> = f.symbols().map(|s| (s.name_bytes().unwrap_or(b"?").to_vec(), s.address())).collect();
    let want: Vec<(Bytes, u64)> = names.iter().zip(&nl).map(|(n, x)| (n.clone(), x.1)).collect();
    ensure_eq!(got, want, "symbols of the image");
    let _ = e;
    Ok(())
}

// Code signatures.

pub fn sign(g: &mut Gen) -> R {
    let n = g.len(5);
    let mut b = B::new(true, false);
    b.u32(0xfade_0cc0).u32(0).u32(n as u32).zeros(8 * n);
    struct Cd {
        version: u32,
        ident: Bytes,
        team: Option<Bytes>,
        hs: u8,
        ns: u32,
        nc: u32,
        hashes: Bytes,
        limit: u32,
        limit64: u64,
        scatter: u32,
        exec: (u64, u64, u64),
        words: (u32, u8, u8, u8, u32),
    }
    let mut want: Vec<(u32, u32, u32, Bytes, Option<Cd>)> = vec![];
    for i in 0..n {
        let slot = g.pickc(&[0u32, 1, 2, 5, 7, 0x1000, 0x1001, 0x10000, 0x10002]);
        if g.chance(1, 4) {
            let k = g.len(5);
            b.zeros(k);
        }
        let at = b.len();
        let mut cd = None;
        let mut x = B::new(true, false);
        let magic;
        if g.bool() {
            magic = 0xfade_0c02;
            let version = g.pickc(&[0x20001u32, 0x200ff, 0x20100, 0x20101, 0x20200, 0x20300, 0x202ff, 0x20400, 0x20500, 0x20600]);
            let (hs, ns, nc) = (g.pickc(&[20u8, 32, 32, 48, 0]), g.upto(7) as u32, g.upto(6) as u32);
            let ident: Bytes = g.name(16).into_iter().filter(|c| *c != 0).collect();
            let team = (version >= 0x20200 && g.bool()).then(|| b"TEAM".to_vec());
            let limit = g.u32();
            let limit64 = if g.bool() { 0 } else { g.u64() };
            let scatter = if version >= 0x20100 && g.chance(1, 6) { 1 + g.upto(500) as u32 } else { 0 };
            let words = (g.u32(), g.upto(5) as u8, g.u8(), g.u8(), g.u32());
            let exec = (g.u64(), g.u64(), g.upto(31));
            x.u32(magic).u32(0).u32(version).u32(words.0).u32(0).u32(0).u32(ns).u32(nc).u32(limit);
            x.u8(hs).u8(words.1).u8(words.2).u8(words.3).u32(words.4);
            if version >= 0x20100 {
                x.u32(scatter);
            }
            if version >= 0x20200 {
                x.u32(0);
            }
            if version >= 0x20300 {
                x.u32(g.u32()).u64(limit64);
            }
            if version >= 0x20400 {
                x.u64(exec.0).u64(exec.1).u64(exec.2);
            }
            let z = g.len(8);
            x.zeros(z);
            let io = x.len();
            x.cstr(&ident);
            if let Some(t) = &team {
                let o = x.len();
                x.cstr(t);
                x.put(48, 4, o as u64);
            }
            let hashes = g.bytes(hs as usize * (ns + nc) as usize);
            let ho = x.len() + hs as usize * ns as usize;
            x.bytes(&hashes);
            x.put(16, 4, ho as u64);
            x.put(20, 4, io as u64);
            let len = x.len();
            x.put(4, 4, len as u64);
            cd = Some(Cd { version, ident, team, hs, ns, nc, hashes, limit, limit64, scatter, exec, words });
        } else {
            magic = g.pickc(&[0xfade_0c00u32, 0xfade_0c01, 0xfade_7171, 0xfade_7172, 0xfade_0b01, 1]);
            let d = g.blob(24);
            x.u32(magic).u32(8 + d.len() as u32).bytes(&d);
        }
        b.bytes(&x.v);
        b.put(12 + 8 * i, 4, slot as u64);
        b.put(16 + 8 * i, 4, at as u64);
        want.push((slot, at as u32, magic, x.v, cd));
    }
    let len = b.len();
    b.put(4, 4, len as u64);
    g.nontrivial_if(n > 0);
    g.sample(|| format!("signature with {n} blobs, versions {:x?}", want.iter().map(|w| w.4.as_ref().map(|c| c.version)).collect::<Vec<_>>()));
    // Placed in a file by a load command.
    let be = g.bool();
    let pre = g.len(20);
    let mut file = g.bytes(pre);
    file.extend_from_slice(&b.v);
    let tail = g.len(4);
    file.extend(g.bytes(tail));
    g.file(&b.v)?;
    let mut cmd = B::new(be, true);
    cmd.u32(0x1d).u32(16).u32(pre as u32).u32(b.len() as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&cmd.v), "command");
    let e = if be { Endianness::Big } else { Endianness::Little };
    let short = pre + b.len() - 1;
    ensure!(c.code_signature(e, &file[..short]).is_err(), "signature outside the file accepted");
    let s = must!(c.code_signature(e, &file[..]), "signature");
    ensure_eq!(s.header().count.get(object::BigEndian), n as u32, "count");
    ensure_eq!(s.header().length.get(object::BigEndian), b.len() as u32, "length");
    ensure_eq!(s.index().len(), n, "index");
    let mut it = s.blobs();
    for (i, w) in want.iter().enumerate() {
        let x = must_some!(must!(it.next(), "blob {i}"), "blob {i}");
        ensure_eq!((x.slot().0, x.offset(), x.magic(), x.data(), x.contents()), (w.0, w.1, w.2, &w.3[..], &w.3[8..]), "blob {i}");
        let d = must!(x.code_directory(), "code directory {i}");
        let (Some(d), Some(w)) = (d, &w.4) else {
            ensure!(d.is_none() && w.4.is_none(), "blob {i}: code directory {}", d.is_some());
            continue;
        };
        let be = object::BigEndian;
        let h = d.header();
        ensure_eq!(d.version().0, w.version, "version");
        ensure_eq!((h.flags.get(be).0, h.hash_type.0, h.platform, h.page_size, h.spare2.get(be), h.hash_size), (w.words.0, w.words.1, w.words.2, w.words.3, w.words.4, w.hs), "directory {i} header");
        ensure_eq!((h.n_special_slots.get(be), h.n_code_slots.get(be), h.code_limit.get(be)), (w.ns, w.nc, w.limit), "directory {i} slots");
        ensure_eq!(must!(d.ident(), "ident"), &w.ident[..], "identifier");
        ensure_eq!(must!(d.team_id(), "team"), w.team.as_deref(), "team of version {:#x}", w.version);
        ensure_eq!(d.scatter_offset(), (w.version >= 0x20100).then_some(w.scatter), "scatter");
        ensure_eq!(d.team_offset().is_some(), w.version >= 0x20200, "team offset");
        ensure_eq!(d.code_limit64(), (w.version >= 0x20300).then_some(w.limit64), "limit64");
        ensure_eq!(d.code_limit(), if w.version >= 0x20300 && w.limit64 != 0 { w.limit64 } else { w.limit as u64 }, "limit");
        ensure_eq!(d.exec_seg().map(|x| (x.exec_seg_base.get(be), x.exec_seg_limit.get(be), x.exec_seg_flags.get(be).0)), (w.version >= 0x20400).then_some(w.exec), "exec segment");
        let hs = w.hs as usize;
        for k in [0, 1, 2, w.ns, w.ns + 1, !0] {
            // Special slot k is k hashes before the first code hash.
            let exp = (k >= 1 && k <= w.ns).then(|| &w.hashes[(w.ns - k) as usize * hs..][..hs]);
            ensure_eq!(d.special_hash(m::CsSlot(k)).ok(), exp, "special hash {k} of {}", w.ns);
        }
        for k in [0, 1, w.nc.wrapping_sub(1), w.nc, !0] {
            let exp = (k < w.nc && w.scatter == 0).then(|| &w.hashes[(w.ns + k) as usize * hs..][..hs]);
            ensure_eq!(d.code_hash(k).ok(), exp, "code hash {k} of {}", w.nc);
        }
    }
    ensure!(matches!(it.next(), Ok(None)), "extra blob");
    // Truncated data: the blobs that fit, errors for the others.
    let k = g.below(b.len());
    match CodeSignature::parse(&b.v[..k]) {
        Err(_) => ensure!(k < 12 + 8 * n, "signature truncated to {k} is an error"),
        Ok(s) => {
            ensure!(k >= 12 + 8 * n, "index truncated to {k} accepted");
            let mut it = s.blobs();
            for (i, w) in want.iter().enumerate() {
                let ok = w.1 as usize + w.3.len() <= k;
                let r = it.next();
                ensure!(r.is_ok() == ok, "blob {i} in truncated data: {r:?}");
            }
            ensure!(matches!(it.next(), Ok(None)), "extra blob");
        }
    }
    let mut x = b.v.clone();
    x[g.below(4)] ^= 1 << g.below(8);
    ensure!(CodeSignature::parse(&x).is_err(), "bad magic accepted");
    // Damaged directories.
    if let Some(w) = want.iter().find(|w| w.4.is_some()) {
        let k = g.below(w.3.len());
        let c = w.4.as_ref().unwrap();
        let hl = 44 + if c.version >= 0x20100 { 4 } else { 0 } + if c.version >= 0x20200 { 4 } else { 0 } + if c.version >= 0x20300 { 12 } else { 0 } + if c.version >= 0x20400 { 24 } else { 0 };
        let r = CodeDirectory::parse(&w.3[..k]);
        ensure!(r.is_ok() == (k >= hl), "directory of {hl} bytes truncated to {k}");
        if let Ok(d) = r {
            let hs = c.hs as usize;
            let start = w.3.len() - hs * (c.ns + c.nc) as usize;
            for i in 0..c.nc {
                let end = start + hs * (c.ns + i + 1) as usize;
                let r = d.code_hash(i);
                ensure!(r.is_ok() == (c.scatter == 0 && (end <= k || hs == 0)) || hs == 0, "hash {i} of a truncated directory");
            }
        }
    }
    Ok(())
}

fn main() {
    run(
        "C14",
        "more than one architecture, mapping or blob, or a damaged file",
        &[
            "layouts follow mach-o/fat.h, dyld_cache_format.h and cs_blobs.h",
            "slide information versions 1 and 4 are reported as unsupported by the reader and are not generated",
        ],
        &[
            sub("fat", 80_000, 8_000_000, fat),
            sub("cache", 100_000, 12_000_000, cache),
            sub("cache_bad", 60_000, 4_000_000, cache_bad),
            sub("images", 60_000, 6_000_000, images),
            sub("sign", 100_000, 10_000_000, sign),
        ],
    )
}
