//! C12: Mach-O commands, sections, symbols and relocations are read exactly.
use object::macho::{self as m, LcStr};
use object::read::macho::{LoadCommandData, LoadCommandVariant as V, MachHeader, MachOFile, Nlist, Section as _, Segment as _};
use object::read::*;
use object::{Endian, Endianness, U32, pod};
use vh::b::*;
use vh::macho::*;
use vh::*;

pub fn sect_kind(filetype: u32, seg: &Seg, s: &Sect) -> SectionKind {
    use SectionKind as K;
    if s.seg == b"__DWARF" {
        return K::Debug;
    }
    if s.flags & 0x0200_0000 != 0 {
        return K::Unknown;
    }
    match s.flags & 0xff {
        1 | 0xc => K::UninitializedData,
        2 => K::ReadOnlyString,
        3 | 4 | 0xe | 5 => K::ReadOnlyData,
        8 => K::Text,
        0x11 => K::Tls,
        0x12 => K::UninitializedTls,
        0x13 => K::TlsVariables,
        0 | 6 | 7 | 9 | 0xa | 0xb | 0xd | 0x10 | 0x14 | 0x15 | 0x16 => {
            let ro = if filetype == 1 { s.seg == b"__TEXT" } else { seg.initprot & 2 == 0 || seg.flags & 0x10 != 0 };
            if s.flags & 0x8000_0400 != 0 {
                K::Text
            } else if ro {
                K::ReadOnlyData
            } else {
                K::Data
            }
        }
        _ => K::Unknown,
    }
}

fn arch(c: u32) -> Architecture {
    match c {
        ARM => Architecture::Arm,
        ARM64 => Architecture::Aarch64,
        ARM64_32 => Architecture::Aarch64_Ilp32,
        X86 => Architecture::I386,
        X86_64 => Architecture::X86_64,
        MIPS => Architecture::Mips,
        PPC => Architecture::PowerPc,
        PPC64 => Architecture::PowerPc64,
        _ => Architecture::Unknown,
    }
}

type Mean = (u64, RelocationKind, RelocationEncoding, u8, RelocationTarget, Option<SymbolIndex>, i64, bool, (u8, bool, u8));

/// Expected unified relocations of a section.
fn relocs(mo: &Mo, s: &Sect) -> Vec<Mean> {
    use RelocationEncoding as E;
    use RelocationKind as K;
    let mut out = vec![];
    let (mut add, mut sub) = (0i64, None);
    for &(w0, w) in &s.rels {
        if mo.cputype != X86_64 && w0 >> 31 == 1 {
            continue;
        }
        let (sym, pc, len, ext, ty) = if mo.be {
            (w >> 8, w >> 7 & 1, w >> 5 & 3, w >> 4 & 1, w & 15)
        } else {
            (w & 0xff_ffff, w >> 24 & 1, w >> 25 & 3, w >> 27 & 1, w >> 28)
        };
        let (pc, ext) = (pc != 0, ext != 0);
        let arm64 = mo.cputype == ARM64 || mo.cputype == ARM64_32;
        if arm64 && ty == 10 {
            add = ((sym << 8) as i32 >> 8) as i64;
            continue;
        }
        if (arm64 && ty == 1) || (mo.cputype == X86_64 && ty == 5) {
            sub = Some(SymbolIndex(sym as usize));
            continue;
        }
        let mut size = 8u8 << len;
        let (k, e) = match (mo.cputype, ty, pc) {
            (ARM | ARM64 | ARM64_32 | X86 | X86_64 | PPC | PPC64, 0, false) => (K::Absolute, E::Generic),
            (ARM64 | ARM64_32, 2, true) => {
                size = 26;
                (K::PltRelative, E::AArch64Call)
            }
            (ARM64 | ARM64_32, 7, true) => (K::GotRelative, E::Generic),
            (X86_64, 1, true) => (K::Relative, E::X86RipRelative),
            (X86_64, 2, true) => (K::PltRelative, E::X86Branch),
            (X86_64, 3, true) => (K::GotRelative, E::X86RipRelativeMovq),
            (X86_64, 4, true) => (K::GotRelative, E::Generic),
            _ => (K::Unknown, E::Unknown),
        };
        let target = if ext {
            RelocationTarget::Symbol(SymbolIndex(sym as usize))
        } else if sym == 0 {
            RelocationTarget::Absolute
        } else {
            RelocationTarget::Section(SectionIndex(sym as usize))
        };
        let implicit = add == 0;
        let mut a = add;
        if pc && (mo.cputype == X86 || mo.cputype == X86_64) {
            a -= 1 << len;
            if mo.cputype == X86_64 {
                a -= match ty {
                    6 => 1,
                    7 => 2,
                    8 => 4,
                    _ => 0,
                };
            }
        }
        out.push((w0 as u64, k, e, size, target, sub.take(), a, implicit, (ty as u8, pc, len as u8)));
        add = 0;
    }
    out
}

fn want_name(mo: &Mo, y: &Nl) -> Option<Vec<u8>> {
    if y.strx == 0 { Some(vec![]) } else { cstr_at(&mo.strtab, y.strx as usize).map(|x| x.to_vec()) }
}

/// Model of `section_by_name`: the first section whose name matches directly, or in the
/// Mach-O spelling of an ELF-style name.
fn name_matches(sect: &[u8], query: &[u8]) -> bool {
    let tr = |p: &[u8], rest: &[u8]| -> Vec<u8> {
        let mut v = p.to_vec();
        v.extend_from_slice(rest);
        v.truncate(16);
        v
    };
    sect == query || query.strip_prefix(b".").is_some_and(|r| sect == tr(b"__", r)) || query.strip_prefix(b".debug_").is_some_and(|r| sect == tr(b"__zdebug_", r))
}

fn entry(mo: &Mo) -> u64 {
    for (cmd, _, e) in &mo.enc {
        let d = D::new(mo.be, mo.is64, e);
        match *cmd {
            LC_MAIN => {
                if let (true, Some(x)) = (e.len() >= 24, d.at(8).u64()) {
                    return x;
                }
            }
            LC_UNIXTHREAD => {
                let x = match mo.cputype {
                    X86_64 => d.at(16 + 128).u64(),
                    ARM64 => d.at(16 + 256).u64(),
                    X86 => d.at(16 + 40).u32().map(|x| x as u64),
                    ARM => d.at(16 + 60).u32().map(|x| x as u64),
                    _ => None,
                };
                if let Some(x) = x {
                    return x;
                }
            }
            _ => {}
        }
    }
    0
}

/// Commands of every kind with plausible bodies.
fn gen_cmds(g: &mut Gen, mo: &mut Mo) {
    let n = g.len(8);
    for _ in 0..n {
        let cmd = match g.below(4) {
            0 => g.pickc(&DYLIBS),
            1 => g.pickc(&[LC_UUID, LC_MAIN, LC_UNIXTHREAD, LC_BUILD_VERSION]),
            2 => {
                let c = g.range(3, 0x3b) as u32;
                if c == LC_DYSYMTAB || c == LC_SEGMENT_64 { 0x1b } else { c | if g.chance(1, 4) || [0x18, 0x1c, 0x1f, 0x23, 0x28, 0x33, 0x34, 0x35].contains(&c) { REQ } else { 0 } }
            }
            _ => g.pickc(&LINKEDIT),
        };
        let mut body = match cmd {
            c if DYLIBS.contains(&c) || c == 0xd => {
                let name = g.name(30);
                if g.chance(1, 3) {
                    let f = [0x1a74_1800, g.u32(), g.u32(), g.u32()];
                    mo.str_cmd(&f, &name)
                } else {
                    let f = [if g.chance(1, 4) { 0x1a74_1800 } else { g.u32() }, g.u32(), g.u32()];
                    mo.str_cmd(&f, &name)
                }
            }
            0xe | 0xf | 0x27 | 0x12..=0x15 | 0x39 => {
                let name = g.name(30);
                mo.str_cmd(&[], &name)
            }
            0x8000_001c => {
                let name = g.name(30);
                mo.str_cmd(&[], &name)
            }
            LC_UUID => g.bytes(16),
            LC_UNIXTHREAD | 4 => {
                let n = match mo.cputype {
                    X86_64 => 42,
                    ARM64 => 68,
                    X86 => 16,
                    ARM => 17,
                    _ => g.range(0, 20),
                };
                let mut b = mo.b();
                let n = if g.chance(1, 6) { g.range(0, n) } else { n };
                b.u32(g.u32()).u32(n as u32);
                for _ in 0..n {
                    b.u32(g.u32());
                }
                b.v
            }
            LC_BUILD_VERSION => {
                let n = g.len(3);
                let mut b = mo.b();
                b.u32(g.u32()).u32(g.u32()).u32(g.u32()).u32(n as u32);
                for _ in 0..2 * n {
                    b.u32(g.u32());
                }
                b.v
            }
            _ => {
                let n = g.range(0, 20);
                let n = if g.chance(1, 3) { n } else { 20 };
                let mut b = mo.b();
                for _ in 0..n {
                    b.u32(g.u32());
                }
                b.v
            }
        };
        if g.chance(1, 10) && !body.is_empty() {
            // Too short for its kind.
            let k = g.below(body.len());
            body.truncate(k);
        }
        if g.chance(1, 400) {
            // A command of more than 64 KiB, with a string far from its start.
            let o = 0x10000 + 4 * g.range(0, 9);
            body.resize(o, b'x');
            body.extend_from_slice(b"far");
            body.resize(body.len() + g.range(0, 9), 0);
            if body.len() >= 4 {
                let at = mo.b().u32(o as u32 + 8).v.clone();
                body[..4].copy_from_slice(&at);
            }
        }
        mo.cmds.push(Lc::Raw(cmd, body, vec![]));
    }
}

/// Field values after the header, with their widths, for each fixed-size command.
fn fields<E: Endian>(e: E, v: &V<'_, E>) -> Option<(Vec<(usize, u64)>, u32, u32)> {
    macro_rules! f { ($c:expr; $($t:tt)*) => {{ let c = $c; let mut o = vec![]; f!(@ o, c, $($t)*); (o, c.cmd.get(e).0, c.cmdsize.get(e)) }};
        (@ $o:ident, $c:ident, ) => {};
        (@ $o:ident, $c:ident, s $n:ident, $($r:tt)*) => { $o.push((4, $c.$n.offset.get(e) as u64)); f!(@ $o, $c, $($r)*) };
        (@ $o:ident, $c:ident, n $n:ident, $($r:tt)*) => { $o.push((4, $c.$n.get(e).0 as u64)); f!(@ $o, $c, $($r)*) };
        (@ $o:ident, $c:ident, q $n:ident, $($r:tt)*) => { $o.push((8, $c.$n.get(e))); f!(@ $o, $c, $($r)*) };
        (@ $o:ident, $c:ident, $n:ident, $($r:tt)*) => { $o.push((4, $c.$n.get(e) as u64)); f!(@ $o, $c, $($r)*) };
    }
    let lc = |x: LcStr<E>| x.offset.get(e) as u64;
    Some(match v {
        V::Symtab(c) => f!(c; symoff, nsyms, stroff, strsize,),
        V::Thread(c, _) => f!(c;),
        V::Dysymtab(c) => f!(c; ilocalsym, nlocalsym, iextdefsym, nextdefsym, iundefsym, nundefsym, tocoff, ntoc, modtaboff, nmodtab,
            extrefsymoff, nextrefsyms, indirectsymoff, nindirectsyms, extreloff, nextrel, locreloff, nlocrel,),
        V::Dylib(c) | V::IdDylib(c) => {
            let d = c.dylib;
            let o = vec![(4, lc(d.name)), (4, d.timestamp.get(e) as u64), (4, d.current_version.get(e).0 as u64), (4, d.compatibility_version.get(e).0 as u64)];
            (o, c.cmd.get(e).0, c.cmdsize.get(e))
        }
        V::LoadDylinker(c) | V::IdDylinker(c) | V::DyldEnvironment(c) => f!(c; s name,),
        V::PreboundDylib(c) => f!(c; s name, nmodules, s linked_modules,),
        V::Routines32(c) => f!(c; init_address, init_module, reserved1, reserved2, reserved3, reserved4, reserved5, reserved6,),
        V::Routines64(c) => f!(c; q init_address, q init_module, q reserved1, q reserved2, q reserved3, q reserved4, q reserved5, q reserved6,),
        V::SubFramework(c) => f!(c; s umbrella,),
        V::SubUmbrella(c) => f!(c; s sub_umbrella,),
        V::SubClient(c) => f!(c; s client,),
        V::SubLibrary(c) => f!(c; s sub_library,),
        V::TwolevelHints(c) => f!(c; offset, nhints,),
        V::PrebindCksum(c) => f!(c; cksum,),
        V::Uuid(c) => (c.uuid.iter().map(|x| (1, *x as u64)).collect(), c.cmd.get(e).0, c.cmdsize.get(e)),
        V::Rpath(c) => f!(c; s path,),
        V::TargetTriple(c) => f!(c; s triple,),
        V::LinkeditData(c) => f!(c; dataoff, datasize,),
        V::EncryptionInfo32(c) => f!(c; cryptoff, cryptsize, cryptid,),
        V::EncryptionInfo64(c) => f!(c; cryptoff, cryptsize, cryptid, pad,),
        V::DyldInfo(c) => f!(c; rebase_off, rebase_size, bind_off, bind_size, weak_bind_off, weak_bind_size, lazy_bind_off, lazy_bind_size, export_off, export_size,),
        V::VersionMin(c) => f!(c; n version, n sdk,),
        V::EntryPoint(c) => f!(c; q entryoff, q stacksize,),
        V::SourceVersion(c) => f!(c; q version,),
        V::LinkerOption(c) => f!(c; count,),
        V::Note(c) => {
            let mut o: Vec<_> = c.data_owner.iter().map(|x| (1, *x as u64)).collect();
            o.push((8, c.offset.get(e)));
            o.push((8, c.size.get(e)));
            (o, c.cmd.get(e).0, c.cmdsize.get(e))
        }
        V::BuildVersion(c, _) => f!(c; n platform, n minos, n sdk, ntools,),
        V::FilesetEntry(c) => f!(c; q vmaddr, q fileoff, s entry_id, reserved,),
        V::Segment32(c, _) => f!(c;),
        V::Segment64(c, _) => f!(c;),
        _ => return None,
    })
}
/// Variant tag and its minimum size, from the loader header.
fn spec(cmd: u32) -> Option<(&'static str, usize)> {
    Some(match cmd {
        1 => ("Segment32", 56),
        2 => ("Symtab", 24),
        4 | 5 => ("Thread", 8),
        0xb => ("Dysymtab", 80),
        c if DYLIBS.contains(&c) => ("Dylib", 24),
        0xd => ("IdDylib", 24),
        0xe => ("LoadDylinker", 12),
        0xf => ("IdDylinker", 12),
        0x10 => ("PreboundDylib", 20),
        0x11 => ("Routines32", 40),
        0x12 => ("SubFramework", 12),
        0x13 => ("SubUmbrella", 12),
        0x14 => ("SubClient", 12),
        0x15 => ("SubLibrary", 12),
        0x16 => ("TwolevelHints", 16),
        0x17 => ("PrebindCksum", 12),
        0x19 => ("Segment64", 72),
        0x1a => ("Routines64", 72),
        0x1b => ("Uuid", 24),
        0x8000_001c => ("Rpath", 12),
        c if LINKEDIT.contains(&c) => ("LinkeditData", 16),
        0x21 => ("EncryptionInfo32", 20),
        0x22 | 0x8000_0022 => ("DyldInfo", 48),
        0x24 | 0x25 | 0x2f | 0x30 => ("VersionMin", 16),
        0x27 => ("DyldEnvironment", 12),
        LC_MAIN => ("EntryPoint", 24),
        0x2a => ("SourceVersion", 16),
        0x2c => ("EncryptionInfo64", 24),
        0x2d => ("LinkerOption", 12),
        0x31 => ("Note", 40),
        0x32 => ("BuildVersion", 24),
        0x8000_0035 => ("FilesetEntry", 32),
        0x39 => ("TargetTriple", 12),
        _ => return None,
    })
}

fn check_cmd<'a, E: Endian>(mo: &Mo, e: E, c: &LoadCommandData<'a, E>, w: &(u32, u64, Vec<u8>)) -> R {
    let (cmd, off, enc) = w;
    ensure_eq!((c.cmd().0, c.offset(), c.cmdsize() as usize), (*cmd, *off, enc.len()), "load command header");
    ensure_eq!(c.raw_data(), &enc[..], "load command data");
    let d = D::new(mo.be, mo.is64, enc);
    for o in [0, 8, enc.len() / 2, enc.len() - 4, enc.len() - 1, enc.len(), 0x10000, 0x10009] {
        let s = m::LcStr { offset: object::U32::new(e, o as u32) };
        ensure_eq!(c.string(e, s).ok(), cstr_at(enc, o), "string of command {cmd:#x} at {o}");
    }
    let sp = spec(*cmd);
    let v = c.variant();
    match sp {
        None => ensure!(matches!(v, Ok(V::Other)), "command {cmd:#x}: {v:?} for an unknown command"),
        Some((tag, min)) if enc.len() >= min => {
            let v = must!(v, "command {cmd:#x} variant, size {}", enc.len());
            let s = format!("{v:?}");
            ensure_eq!(s.split('(').next().unwrap(), tag, "command {cmd:#x} variant");
            let (fs, gc, gs) = must_some!(fields(e, &v), "fields");
            ensure_eq!((gc, gs as usize), (*cmd, enc.len()), "command {cmd:#x} structure header");
            let mut p = d.at(8);
            for (i, (n, x)) in fs.iter().enumerate() {
                ensure_eq!(Some(*x), p.int(*n), "command {cmd:#x} field {i}");
            }
            let tail = match v {
                V::Segment32(_, x) | V::Segment64(_, x) | V::BuildVersion(_, x) | V::Thread(_, x) => Some(x),
                _ => None,
            };
            if let Some(x) = tail {
                ensure_eq!(x, &enc[min..], "command {cmd:#x} trailing data");
            }
            if let V::Dylib(y) | V::IdDylib(y) = v {
                let o = d.at(8).u32().unwrap() as usize;
                ensure_eq!(c.string(e, y.dylib.name).ok(), cstr_at(enc, o), "dylib name");
                let use_ = (o == 28 && d.at(12).u32() == Some(0x1a74_1800)).then(|| d.at(24).u32());
                match use_ {
                    None => ensure_eq!(c.dylib_use_flags(e, y), Ok(None), "dylib_use_flags"),
                    Some(None) => ensure!(c.dylib_use_flags(e, y).is_err(), "dylib_use_flags outside the command"),
                    Some(Some(f)) => ensure_eq!(c.dylib_use_flags(e, y), Ok(Some(m::DylibUseFlags(f))), "dylib_use_flags"),
                }
            }
            if let V::Rpath(y) = v {
                ensure_eq!(c.string(e, y.path).ok(), cstr_at(enc, d.at(8).u32().unwrap() as usize), "rpath");
            }
        }
        Some((tag, _)) => ensure!(v.is_err(), "{tag} command of {} bytes accepted", enc.len()),
    }
    // The typed accessors apply exactly to their command.
    let small = sp.is_some_and(|x| enc.len() < x.1);
    macro_rules! acc { ($f:expr, $c:expr) => {{ let r = $f; let hit: bool = $c;
        if hit && small { ensure!(r.is_err(), "{} accepted a short command {cmd:#x}", stringify!($f)) }
        else { ensure_eq!(r.as_ref().map(|x| x.is_some()).map_err(|x| x.to_string()), Ok(hit), "{} on {cmd:#x}", stringify!($f)) } }} }
    acc!(c.segment_32(), *cmd == 1);
    acc!(c.segment_64(), *cmd == 0x19);
    acc!(c.symtab(), *cmd == 2);
    acc!(c.dysymtab(), *cmd == 0xb);
    acc!(c.dylib(), DYLIBS.contains(cmd));
    acc!(c.uuid(), *cmd == 0x1b);
    acc!(c.dyld_info(), *cmd & !REQ == 0x22);
    acc!(c.dyld_exports_trie(), *cmd == 0x33 | REQ);
    acc!(c.dyld_chained_fixups(), *cmd == 0x34 | REQ);
    acc!(c.entry_point(), *cmd == LC_MAIN);
    acc!(c.unix_thread(), *cmd == LC_UNIXTHREAD);
    if *cmd == LC_BUILD_VERSION {
        let want = d.at(20).u32().filter(|n| enc.len() as u64 >= 24 + *n as u64 * 8);
        match (c.build_version(e), want) {
            (Ok(Some((_, t))), Some(n)) => {
                ensure_eq!(t.len(), n as usize, "build tools");
                for (i, t) in t.iter().enumerate() {
                    let mut p = d.at(24 + 8 * i);
                    ensure_eq!((t.tool.get(e).0, t.version.get(e).0), (p.u32().unwrap(), p.u32().unwrap()), "build tool {i}");
                }
            }
            (Err(_), None) => {}
            (r, w) => fail!("build_version {r:?}, expected {w:?} tools"),
        }
    } else {
        ensure!(matches!(c.build_version(e), Ok(None)), "build_version on {cmd:#x}");
    }
    Ok(())
}

fn check<'a, H: MachHeader<Endian = Endianness>>(g: &mut Gen, mo: &Mo, v: &'a [u8]) -> R {
    let f = must!(MachOFile::<H>::parse(v), "parse");
    let e = f.endian();
    let h = f.macho_header();
    ensure_eq!(pod::bytes_of(h), &v[..mo.hdr()], "header bytes");
    ensure_eq!(
        (h.cputype(e).0, h.cpusubtype(e).0, h.filetype(e).0, h.ncmds(e), h.sizeofcmds(e), h.flags(e).0, h.is_big_endian(), h.is_type_64()),
        (mo.cputype, mo.cpusubtype, mo.filetype, mo.cmds.len() as u32, mo.cmds_size() as u32, mo.flags, mo.be, mo.is64),
        "header"
    );
    ensure_eq!(f.architecture(), arch(mo.cputype), "architecture");
    let sub = (mo.cputype == ARM64 && mo.cpusubtype & 0xff_ffff == 2).then_some(SubArchitecture::Arm64E);
    ensure_eq!(f.sub_architecture(), sub, "sub_architecture {:#x}", mo.cpusubtype);
    let kind = match mo.filetype {
        1 => ObjectKind::Relocatable,
        2 => ObjectKind::Executable,
        4 => ObjectKind::Core,
        6 => ObjectKind::Dynamic,
        _ => ObjectKind::Unknown,
    };
    ensure_eq!((f.is_little_endian(), f.is_64(), f.kind()), (!mo.be, mo.is64, kind), "file properties");
    ensure_eq!(f.flags(), FileFlags::MachO { flags: m::FileFlags(mo.flags) }, "flags");
    ensure_eq!(f.relative_address_base(), 0, "relative_address_base");
    ensure_eq!(f.entry(), entry(mo), "entry");
    // Commands.
    let mut it = must!(f.macho_load_commands(), "load commands");
    for w in &mo.enc {
        let c = must_some!(must!(it.next(), "command"), "load commands ended early");
        check_cmd(mo, e, &c, w)?;
    }
    ensure!(matches!(it.next(), Ok(None)), "extra load commands");
    let uuid = mo.enc.iter().find(|c| c.0 == LC_UUID && c.2.len() >= 24).map(|c| <[u8; 16]>::try_from(&c.2[8..24]).unwrap());
    ensure_eq!(f.mach_uuid(), Ok(uuid), "mach_uuid");
    let bv = mo.enc.iter().find(|c| c.0 == LC_BUILD_VERSION);
    match (f.build_version(), bv) {
        (Ok(None), None) => {}
        (Ok(Some((b, t))), Some(c)) => ensure_eq!((pod::bytes_of(b), pod::bytes_of_slice(t)), (&c.2[..24], &c.2[24..24 + 8 * t.len()]), "build_version"),
        (Err(_), Some(_)) => {}
        (r, w) => fail!("build_version {r:?} for {w:?}"),
    }
    // Segments.
    let segs = mo.segs_in_order();
    let mut it = f.segments();
    for (i, w) in segs.iter().enumerate() {
        let s = must_some!(it.next(), "segment {i}");
        ensure_eq!((s.address(), s.size(), s.align(), s.file_range()), (w.vmaddr, w.vmsize, 0x1000, (w.fileoff, w.filesize)), "segment {i}");
        let nm = w.name.split(|&x| x == 0).next().unwrap();
        ensure_eq!(s.name_bytes(), Ok(Some(nm)), "segment {i} name");
        ensure_eq!(s.name().ok(), std::str::from_utf8(nm).ok().map(Some), "segment {i} name");
        ensure_eq!(s.permissions(), Permissions::new(w.maxprot & 1 != 0, w.maxprot & 2 != 0, w.maxprot & 4 != 0), "segment {i} permissions {:#x}", w.maxprot);
        ensure_eq!(s.flags(), SegmentFlags::MachO { flags: m::SegmentFlags(w.flags), maxprot: m::VmProt(w.maxprot), initprot: m::VmProt(w.initprot) }, "segment {i} flags");
        let want = v.get(w.fileoff as usize..).and_then(|x| x.get(..w.filesize as usize));
        ensure_eq!(s.data().ok(), want, "segment {i} data");
        if let Some(d) = want {
            let (o, k) = (g.upto(d.len() as u64), g.upto(6));
            ensure_eq!(s.data_range(w.vmaddr.wrapping_add(o), k), Ok(d.get(o as usize..(o + k) as usize)), "segment {i} data_range");
        }
        let raw = s.macho_segment();
        ensure_eq!((raw.nsects(e) as usize, &raw.segname()[..w.name.len()]), (w.sects.len(), &w.name[..]), "segment {i} raw");
    }
    ensure!(it.next().is_none(), "extra segments");
    // Sections.
    let sects: Vec<(&Seg, &Sect)> = segs.iter().flat_map(|s| s.sects.iter().map(move |x| (*s, x))).collect();
    ensure_eq!(f.sections().map(|s| s.index().0).collect::<Vec<_>>(), (1..=sects.len()).collect::<Vec<_>>(), "section indices");
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(sects.len() + 1)).is_err(), "section index out of range");
    for (i, (seg, w)) in sects.iter().enumerate() {
        let s = must!(f.section_by_index(SectionIndex(i + 1)), "section");
        let nm = w.name.split(|&x| x == 0).next().unwrap();
        let sn = w.seg.split(|&x| x == 0).next().unwrap();
        ensure_eq!((s.name_bytes(), s.segment_name_bytes()), (Ok(nm), Ok(Some(sn))), "section {i} names");
        ensure_eq!(s.name().ok(), std::str::from_utf8(nm).ok(), "section {i} name");
        ensure_eq!(s.segment_name().ok(), std::str::from_utf8(sn).ok().map(Some), "section {i} segment name");
        let align = if w.align < 64 { 1u64 << w.align } else { 0 };
        ensure_eq!((s.address(), s.size(), s.align()), (w.addr, w.size, align), "section {i}");
        ensure_eq!(s.flags(), SectionFlags::MachO { flags: m::SectionFlags(w.flags), reserved2: w.r2 }, "section {i} flags");
        ensure_eq!(s.kind(), sect_kind(mo.filetype, seg, w), "section {i} kind, flags {:#x} in {:?}", w.flags, w.seg);
        let range = if w.zerofill() { None } else { Some((w.offset, w.size)) };
        ensure_eq!(s.file_range(), range, "section {i} file_range");
        match (&w.data, w.zerofill()) {
            (_, true) => ensure_eq!(s.data(), Ok(&[][..]), "section {i} zerofill data"),
            (Some(d), _) => {
                ensure_eq!(s.data(), Ok(&d[..]), "section {i} data");
                let (o, k) = (g.upto(d.len() as u64), g.upto(6));
                ensure_eq!(s.data_range(w.addr + o, k), Ok(d.get(o as usize..(o + k) as usize)), "section {i} data_range");
                if w.addr > 0 {
                    ensure_eq!(s.data_range(w.addr - 1, 1), Ok(None), "section {i} data_range");
                }
            }
            (None, _) => ensure!(s.data().is_err(), "section {i} outside the file has data"),
        }
        let raw = s.macho_section();
        let stub = if w.flags & 0xff == 8 { w.r2 } else { 0 };
        ensure_eq!(
            (raw.offset(e), raw.reloff(e), raw.nreloc(e), raw.reserved1(e), raw.reserved2(e), raw.reserved3(e), raw.symbol_stub_size(e), raw.section_type(e).0),
            (w.offset as u32, w.reloff, w.rels.len() as u32, w.r1, w.r2, if mo.is64 { w.r3 } else { 0 }, stub, w.flags as u8),
            "section {i} raw"
        );
        // Indirect symbols.
        let ind: Vec<U32<Endianness, m::IndirectSymbol>> = mo.indirect.iter().map(|x| U32::new(e, m::IndirectSymbol(*x))).collect();
        let es = match w.flags & 0xff {
            6 | 7 | 0x10 | 0x14 => Some(if mo.is64 { 8 } else { 4 }),
            8 => Some(w.r2 as u64),
            _ => None,
        };
        let got = raw.indirect_symbols(e, &ind);
        let want = match es {
            None => Some(&[][..]),
            Some(0) => None,
            Some(n) => mo.indirect.get(w.r1 as usize..).and_then(|x| x.get(..(w.size / n) as usize)),
        };
        ensure_eq!(got.ok().map(|x| x.iter().map(|y| y.get(e).0).collect::<Vec<_>>()), want.map(|x| x.to_vec()), "section {i} indirect symbols");
        // Relocations.
        let raws = must!(s.macho_relocations(), "raw relocations");
        ensure_eq!(raws.len(), w.rels.len(), "section {i} raw relocations");
        for (r, &(w0, w1)) in raws.iter().zip(&w.rels) {
            let sc = mo.cputype != X86_64 && w0 >> 31 == 1;
            ensure_eq!((r.r_word0.get(e), r.r_word1.get(e), r.r_scattered(e, m::CpuType(mo.cputype))), (w0, w1, sc), "raw relocation");
            if sc {
                let x = r.scattered_info(e);
                ensure_eq!(
                    (x.r_address, x.r_type.0 as u32, x.r_length as u32, x.r_pcrel, x.r_value),
                    (w0 & 0xff_ffff, w0 >> 24 & 15, w0 >> 28 & 3, w0 >> 30 & 1 == 1, w1),
                    "scattered relocation"
                );
            }
        }
        let want = relocs(mo, w);
        let mut it = s.relocations();
        for (j, w) in want.iter().enumerate() {
            let (o, r) = must_some!(it.next(), "section {i} relocation {j} of {}", want.len());
            let RelocationFlags::MachO { r_type, r_pcrel, r_length } = r.flags() else { fail!("relocation flags") };
            let got = (o, r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.has_implicit_addend(), (r_type.0, r_pcrel, r_length));
            ensure_eq!(got, *w, "section {i} relocation {j}");
        }
        ensure!(it.next().is_none(), "extra relocations");
    }
    for _ in 0..3 {
        let q: Vec<u8> = match g.below(4) {
            0 => b".debug_str_offsets".to_vec(),
            1 => g.pick(&[&b".debug_info"[..], b".text", b".eh_frame", b".0123456789abcdefgh", b"__debug_str_offsets", b".debug_str_offs", b".", b"", b".swift5_types_and_more"]).to_vec(),
            _ if !sects.is_empty() => {
                let s = &sects[g.below(sects.len())].1.name;
                match s.strip_prefix(b"__") {
                    Some(r) if g.bool() => [b".", r].concat(),
                    _ => s.clone(),
                }
            }
            _ => g.name(20),
        };
        let want = sects.iter().position(|s| name_matches(s.1.name.split(|&x| x == 0).next().unwrap(), &q)).map(|x| x + 1);
        ensure_eq!(f.section_by_name_bytes(&q).map(|s| s.index().0), want, "section_by_name {:?}", String::from_utf8_lossy(&q));
        if let Ok(q) = std::str::from_utf8(&q) {
            ensure_eq!(f.section_by_name(q).map(|s| s.index().0), want, "section_by_name {q:?}");
        }
    }
    ensure_eq!(f.has_debug_symbols(), sects.iter().any(|s| name_matches(s.1.name.split(|&x| x == 0).next().unwrap(), b".debug_info")), "has_debug_symbols");
    // Symbols.
    let have = mo.cmds.iter().any(|c| matches!(c, Lc::Symtab));
    let t = f.macho_symbol_table();
    ensure_eq!(t.len(), if have { mo.syms.len() } else { 0 }, "symbol count");
    ensure_eq!(t.is_empty(), t.len() == 0, "symbol table empty");
    let mut it = f.symbols();
    for (i, y) in mo.syms.iter().enumerate() {
        let n = must!(t.symbol(SymbolIndex(i)), "symbol {i}");
        ensure_eq!((n.n_strx(e), n.n_type().0, n.n_sect(), n.n_desc(e).0, n.n_value(e).into()), (y.strx, y.ty, y.sect, y.desc, y.value), "nlist {i}");
        let name = want_name(mo, y);
        ensure_eq!(t.symbol_name(e, n).ok().map(|x| x.to_vec()), name, "symbol {i} name");
        ensure_eq!(n.library_ordinal(e).0, (y.desc >> 8) as u8, "library ordinal");
        let stab = y.ty & 0xe0 != 0;
        ensure_eq!((n.is_stab(), n.stab().map(|x| x.0)), (stab, stab.then_some(y.ty)), "symbol {i} stab");
        let s = f.symbol_by_index(SymbolIndex(i));
        if stab {
            ensure!(s.is_err(), "STAB symbol by index");
            continue;
        }
        let s = must!(s, "symbol by index {i}");
        ensure_eq!(must_some!(it.next(), "symbol {i} in iteration").index(), SymbolIndex(i), "symbol order");
        ensure_eq!(s.name_bytes().ok().map(|x| x.to_vec()), name, "symbol {i} name");
        ensure_eq!(s.name().ok().map(|x| x.to_string()), name.clone().and_then(|x| String::from_utf8(x).ok()), "symbol {i} name");
        let ty = y.ty & 0xe;
        let common = ty == 0 && y.value != 0;
        let undef = ty == 0 && y.value == 0;
        ensure_eq!((s.address(), s.size()), if common { (0, y.value) } else { (y.value, 0) }, "symbol {i} address and size");
        let section = match ty {
            0 if common => SymbolSection::Common,
            0 => SymbolSection::Undefined,
            2 => SymbolSection::Absolute,
            0xe if y.sect != 0 => SymbolSection::Section(SectionIndex(y.sect as usize)),
            _ => SymbolSection::Unknown,
        };
        ensure_eq!(s.section(), section, "symbol {i} section");
        let scope = match (undef, y.ty & 1, y.ty & 0x10) {
            (true, ..) => SymbolScope::Unknown,
            (_, 0, _) => SymbolScope::Compilation,
            (_, _, 0) => SymbolScope::Dynamic,
            _ => SymbolScope::Linkage,
        };
        ensure_eq!(s.scope(), scope, "symbol {i} scope, type {:#x}", y.ty);
        let local = scope == SymbolScope::Compilation;
        ensure_eq!((s.is_local(), s.is_global()), (local, !local), "symbol {i} locality");
        ensure_eq!((s.is_undefined(), s.is_common(), s.is_definition(), s.is_weak()), (undef, common, ty == 0xe, y.desc & 0xc0 != 0), "symbol {i} predicates");
        ensure_eq!(s.flags(), SymbolFlags::MachO { n_type: m::SymbolFlags(y.ty), n_desc: m::SymbolDesc(y.desc) }, "symbol {i} flags");
        let sec = if ty == 0xe && y.sect != 0 { sects.get(y.sect as usize - 1) } else { None };
        let kind = match sec {
            Some((seg, w)) => {
                let nm = name.unwrap_or_default();
                let ltmp = local && nm.len() > 4 && nm.starts_with(b"ltmp") && nm[4..].iter().all(|b| b.is_ascii_digit()) && y.value == w.addr;
                use SectionKind as K;
                match sect_kind(mo.filetype, seg, w) {
                    _ if ltmp => SymbolKind::Section,
                    K::Text => SymbolKind::Text,
                    K::Data | K::ReadOnlyData | K::ReadOnlyString | K::UninitializedData => SymbolKind::Data,
                    K::Tls | K::UninitializedTls | K::TlsVariables => SymbolKind::Tls,
                    _ => SymbolKind::Unknown,
                }
            }
            None if common => SymbolKind::Data,
            None => SymbolKind::Unknown,
        };
        ensure_eq!(s.kind(), kind, "symbol {i} kind");
    }
    ensure!(it.next().is_none(), "extra symbols");
    ensure!(t.symbol(SymbolIndex(mo.syms.len())).is_err() || !have, "symbol index out of range");
    ensure!(f.dynamic_symbols().next().is_none() && f.dynamic_symbol_table().is_none() && f.comdats().next().is_none(), "dynamic symbols or comdats");
    // Indirect symbol table.
    for (c, w) in must!(f.macho_load_commands(), "commands").zip(&mo.enc) {
        let c = must!(c, "command");
        if let Ok(Some(d)) = c.dysymtab() {
            if w.2.len() == 80 {
                ensure_eq!(must!(d.indirect_symbols(e, v), "indirect symbols").iter().map(|x| x.get(e).0).collect::<Vec<_>>(), mo.indirect, "indirect symbols");
            }
        }
    }
    Ok(())
}

fn dispatch(g: &mut Gen, mo: &Mo, v: &[u8]) -> R {
    if mo.is64 { check::<m::MachHeader64<Endianness>>(g, mo, v) } else { check::<m::MachHeader32<Endianness>>(g, mo, v) }
}

fn shuffle(g: &mut Gen, mo: &mut Mo) {
    for i in (1..mo.cmds.len()).rev() {
        if g.bool() {
            let j = g.below(i + 1);
            mo.cmds.swap(i, j);
        }
    }
}

pub fn files(g: &mut Gen) -> R {
    let mut mo = gen_header(g);
    let outside = g.chance(1, 4);
    gen_segments(g, &mut mo, outside);
    gen_rels(g, &mut mo);
    gen_syms(g, &mut mo, 10);
    gen_cmds(g, &mut mo);
    shuffle(g, &mut mo);
    if outside && g.chance(1, 2) {
        let n = mo.syms.len();
        if n > 0 {
            let i = g.below(n);
            mo.syms[i].strx = g.range64(mo.strtab.len() as u64, 0xffff_ffff) as u32;
        }
    }
    let v = mo.encode(g);
    g.file(&v)?;
    g.nontrivial_if(mo.sects().len() + mo.syms.len() >= 2);
    g.sample(|| format!("{} commands, {} sections, {} symbols, cpu {:#x}, type {}", mo.cmds.len(), mo.sects().len(), mo.syms.len(), mo.cputype, mo.filetype));
    dispatch(g, &mo, &v)
}

/// Section offsets above 4 GiB are recovered from the segment.
fn large(g: &mut Gen) -> R {
    let mut mo = gen_header(g);
    mo.is64 = true;
    let mut s = Seg { name: b"__TEXT".to_vec(), fileoff: g.range64(1 << 30, 1 << 36), maxprot: 7, initprot: 5, ..Default::default() };
    let mut o = s.fileoff;
    for _ in 0..g.range(1, 6) {
        let flags = gen_sect_flags(g);
        let mut x = Sect { name: g.name(8), seg: b"__TEXT".to_vec(), flags, ..Default::default() };
        if x.zerofill() {
            x.size = g.u32() as u64;
        } else {
            o += if g.bool() { g.upto(64) } else { g.upto(0xffff_ffff) };
            x.offset = o;
            x.size = if g.bool() { g.upto(64) } else { g.upto(0x1_ffff_ffff) };
            o += x.size;
        }
        s.sects.push(x);
    }
    let short = g.chance(1, 6) && o > s.fileoff + 1;
    s.filesize = o - s.fileoff + if short { 0 } else { g.upto(0xffff) };
    if s.fileoff + s.filesize <= 0xffff_ffff {
        s.filesize = 0x1_0000_0000;
    }
    mo.segs.push(s);
    mo.cmds.push(Lc::Seg(0));
    let v = mo.encode(g);
    g.nontrivial_if(o > 0xffff_ffff);
    let f = must!(MachOFile::<m::MachHeader64<Endianness>>::parse(&v[..]), "parse");
    for (i, (w, s)) in mo.segs[0].sects.iter().zip(f.sections()).enumerate() {
        let range = if w.zerofill() { None } else { Some((w.offset, w.size)) };
        ensure_eq!(s.file_range(), range, "section {i} of {} file_range in segment at {:#x}", mo.segs[0].sects.len(), mo.segs[0].fileoff);
        let empty = w.zerofill() || w.size == 0;
        ensure!(s.data().is_ok_and(|d| d.is_empty()) == empty || w.offset + w.size <= v.len() as u64, "section {i} data outside the file");
    }
    ensure_eq!(f.sections().count(), mo.segs[0].sects.len(), "sections");
    Ok(())
}

/// Counts around 2^16: symbols, indirect symbols, relocations of a section, sections and commands.
pub fn many(g: &mut Gen) -> R {
    let mut mo = gen_header(g);
    gen_segments(g, &mut mo, false);
    gen_rels(g, &mut mo);
    gen_syms(g, &mut mo, 10);
    let n = g.range(65_530, 65_545);
    match g.below(4) {
        0 | 1 if !mo.syms.is_empty() => {
            g.label("symbols");
            let old = mo.syms.clone();
            while mo.syms.len() < n {
                let mut y = old[mo.syms.len() % old.len()].clone();
                y.value ^= mo.syms.len() as u64 & 0xffff;
                mo.syms.push(y);
            }
        }
        2 => {
            g.label("indirect symbols");
            let k = mo.syms.len().max(1) as u32;
            mo.indirect = (0..n as u32).map(|i| (i / 7) % k).collect();
            if !mo.cmds.iter().any(|c| matches!(c, Lc::Dysymtab)) {
                mo.cmds.push(Lc::Dysymtab);
            }
        }
        _ => {
            let be = mo.be;
            let k = mo.segs.iter().position(|s| s.sects.iter().any(|x| !x.rels.is_empty()));
            if let Some(k) = k {
                g.label("relocations");
                let x = mo.segs[k].sects.iter_mut().find(|x| !x.rels.is_empty()).unwrap();
                let (sym, ty) = (g.upto(8) as u32, g.upto(3) as u8);
                x.rels = (0..n as u32).map(|i| rel(be, i, sym, false, 2, true, ty)).collect();
            }
        }
    }
    gen_cmds(g, &mut mo);
    shuffle(g, &mut mo);
    let v = mo.encode(g);
    g.file(&v)?;
    g.nontrivial_if(v.len() > 65_536 * 4);
    g.sample(|| format!("{} commands, {} sections, {} symbols, {} indirect, {} bytes", mo.cmds.len(), mo.sects().len(), mo.syms.len(), mo.indirect.len(), v.len()));
    dispatch(g, &mo, &v)
}

/// Damaged tables are errors, and the rest of the file is still reported as encoded.
fn damaged(g: &mut Gen) -> R {
    let mut mo = gen_header(g);
    gen_segments(g, &mut mo, false);
    gen_rels(g, &mut mo);
    gen_syms(g, &mut mo, 6);
    gen_cmds(g, &mut mo);
    let v = mo.encode(g);
    let parse_err = |v: &[u8]| if mo.is64 { MachOFile::<m::MachHeader64<Endianness>>::parse(v).is_err() } else { MachOFile::<m::MachHeader32<Endianness>>::parse(v).is_err() };
    match g.below(4) {
        0 => {
            // Truncation: an error, or exactly the bytes that remain.
            let k = g.below(v.len());
            let t = &v[..k];
            g.label("truncated");
            if k < mo.hdr() {
                ensure!(parse_err(t), "truncated header accepted");
                return Ok(());
            }
            g.nontrivial();
            macro_rules! go { ($t:ty) => {{
                let Ok(f) = MachOFile::<$t>::parse(t) else { return Ok(()) };
                let sects = mo.sects();
                for (w, s) in sects.iter().zip(f.sections()) {
                    let want = if w.zerofill() { Some(&[][..]) } else { v.get(w.offset as usize..(w.offset + w.size) as usize).filter(|_| w.offset + w.size <= k as u64) };
                    match (s.data(), want) {
                        (Ok(d), Some(w)) => ensure_eq!(d, w, "data after truncation"),
                        (Ok(d), None) => ensure!(d.is_empty() && w.size == 0, "data outside the file"),
                        (Err(_), None) => {}
                        (Err(_), Some(_)) => fail!("data inside the file is an error"),
                    }
                    let n = w.rels.len();
                    ensure_eq!(s.macho_relocations().is_ok(), n == 0 || w.reloff as usize + 8 * n <= k, "relocation table after truncation");
                }
                let e = f.endian();
                for (i, (n, y)) in f.macho_symbol_table().iter().zip(&mo.syms).enumerate() {
                    let full = mo.stroff as usize + mo.strtab.len() <= k;
                    let got = n.name(e, f.macho_symbol_table().strings()).ok().map(|x| x.to_vec());
                    ensure!(got == want_name(&mo, y) || (!full && got.is_none()), "symbol {i} name after truncation");
                }
            }} }
            if mo.is64 { go!(m::MachHeader64<Endianness>) } else { go!(m::MachHeader32<Endianness>) }
        }
        1 => {
            // More sections than the segment command holds.
            let Some((_, off, c)) = mo.enc.iter().find(|c| c.0 == 1 || c.0 == 0x19) else { return Ok(()) };
            g.nontrivial();
            g.label("nsects");
            let mut b = B { be: mo.be, is64: mo.is64, v: v.clone() };
            let at = *off as usize + if mo.is64 { 64 } else { 48 };
            let n = (c.len() - if mo.is64 { 72 } else { 56 }) / if mo.is64 { 80 } else { 68 };
            b.put(at, 4, g.range64(n as u64 + 1, 0xffff_ffff));
            ensure!(parse_err(&b.v), "segment with too many sections accepted");
        }
        2 => {
            // Symbol table outside the file.
            let Some((_, off, _)) = mo.enc.iter().find(|c| c.0 == 2) else { return Ok(()) };
            g.nontrivial();
            g.label("symtab");
            let mut b = B { be: mo.be, is64: mo.is64, v: v.clone() };
            let rest = (v.len() - mo.symoff as usize) / if mo.is64 { 16 } else { 12 };
            b.put(*off as usize + 12, 4, g.range64(rest as u64 + 1, 0xffff_ffff));
            ensure!(parse_err(&b.v), "symbol table outside the file accepted");
        }
        _ => {
            // A command that ends outside the command area ends the iteration with an error.
            if mo.enc.is_empty() {
                return Ok(());
            }
            g.nontrivial();
            g.label("cmdsize");
            let i = g.below(mo.enc.len());
            let mut b = B { be: mo.be, is64: mo.is64, v: v.clone() };
            let (_, off, _) = &mo.enc[i];
            let rest = mo.hdr() as u64 + mo.cmds_size() as u64 - off;
            let sz = if g.bool() { g.upto(7) } else { g.range64(rest + 1, 0xffff_ffff) };
            b.put(*off as usize + 4, 4, sz);
            macro_rules! go { ($t:ty) => {{
                let h = must!(<$t>::parse(&b.v[..], 0), "header");
                let e = must!(h.endian(), "endian");
                let mut it = must!(h.load_commands(e, &b.v[..], 0), "load commands");
                for w in &mo.enc[..i] {
                    let c = must_some!(must!(it.next(), "command"), "command");
                    ensure_eq!(c.raw_data(), &w.2[..], "command before the damage");
                }
                ensure!(it.next().is_err(), "command of size {sz} accepted");
                ensure!(matches!(it.next(), Ok(None)), "iteration continues after an error");
                let f = MachOFile::<$t>::parse(&b.v[..]);
                if let Ok(f) = f {
                    ensure!(f.build_version().is_err() || mo.enc[..i].iter().any(|c| c.0 == LC_BUILD_VERSION), "build_version ignores the damage");
                    ensure!(f.mach_uuid().is_err() || mo.enc[..i].iter().any(|c| c.0 == LC_UUID), "mach_uuid ignores the damage");
                }
            }} }
            if mo.is64 { go!(m::MachHeader64<Endianness>) } else { go!(m::MachHeader32<Endianness>) }
        }
    }
    Ok(())
}

fn main() {
    run(
        "C12",
        "a file with at least two sections or symbols, section offsets above 4 GiB, or a damaged table",
        &["the encoder in harness/src/macho.rs follows mach-o/loader.h, nlist.h and reloc.h", "scattered relocations are only available through the raw relocation entries"],
        &[sub("files", 150_000, 15_000_000, files), sub("large", 60_000, 4_000_000, large), sub("many", 400, 20_000, many), sub("damaged", 60_000, 6_000_000, damaged)],
    )
}
