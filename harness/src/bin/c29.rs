//! C29: the bytes of the low-level Mach-O and code signature encoders, against an independent encoding.
use object::write::macho as wm;
use object::write::{StringTable, WritableBuffer};
use object::{macho, pod, Endianness};
use std::fmt::Debug;
use vh::b::*;
use vh::*;

fn same<A: Debug>(a: A, b: A, what: &str) -> R {
    ensure_eq!(format!("{a:?}"), format!("{b:?}"), "{} from its encoding", what);
    Ok(())
}
fn name16(g: &mut Gen) -> [u8; 16] {
    let mut r = [0; 16];
    let n = g.len(16);
    for b in &mut r[..n] {
        *b = g.u8();
    }
    r
}
fn raw<'a, T: pod::Pod>(v: &'a [u8], what: &str) -> R<&'a T> {
    let (r, rest) = must!(pod::from_bytes::<T>(v).map_err(|_| "short"), "{}", what);
    ensure!(rest.is_empty(), "{what} is encoded in {} bytes more than its structure", rest.len());
    Ok(r)
}

fn commands(g: &mut Gen) -> R {
    let (be, is64) = (g.bool(), g.bool());
    let end = if be { Endianness::Big } else { Endianness::Little };
    let en = wm::Encoder::new(end, is64);
    ensure_eq!((en.endian(), en.is_64(), en.address_size()), (end, is64, if is64 { 8 } else { 4 }), "configuration");
    let word: u32 = if is64 { 64 } else { 32 };
    // Everything goes to one buffer, as in a file.
    let mut file: Vec<u8> = vec![];
    let dynamic = g.bool();
    let n = g.range(1, 14);
    let mut kinds = 0u32;
    macro_rules! emit {
        ($f:ident ( $($a:expr),* )) => {
            if dynamic {
                let w: &mut dyn WritableBuffer = &mut file;
                en.$f(w $(, $a)*)
            } else {
                en.$f(&mut file $(, $a)*)
            }
        };
    }
    for _ in 0..n {
        let at = file.len();
        let mut b = B::new(be, is64);
        let k = g.upto(15);
        kinds |= 1 << k;
        let (what, size) = match k {
            0 => {
                let h = wm::MachHeader {
                    cputype: macho::CpuType(g.u32()),
                    cpusubtype: macho::CpuSubtype(g.u32()),
                    filetype: macho::FileType(g.u32()),
                    ncmds: g.u32(),
                    sizeofcmds: g.u32(),
                    flags: macho::FileFlags(g.u32()),
                };
                emit!(mach_header(&h));
                b.u32(if is64 { 0xfeed_facf } else { 0xfeed_face }).u32(h.cputype.0).u32(h.cpusubtype.0).u32(h.filetype.0).u32(h.ncmds).u32(h.sizeofcmds).u32(h.flags.0);
                if is64 {
                    b.u32(0);
                    same(wm::MachHeader::from_raw(end, raw::<macho::MachHeader64<Endianness>>(&b.v, "header")?), h, "header")?;
                } else {
                    same(wm::MachHeader::from_raw(end, raw::<macho::MachHeader32<Endianness>>(&b.v, "header")?), h, "header")?;
                }
                ("header", en.mach_header_size())
            }
            1 => {
                let (cmd, data) = (g.u32(), g.blob(30));
                emit!(load_command(macho::LoadCommandType(cmd), &data));
                b.u32(cmd).u32(8 + data.len() as u32).bytes(&data);
                ("load command", en.load_command_size(data.len() as u64))
            }
            2 => {
                let nsects = g.len(4) as u32;
                let s = wm::SegmentCommand {
                    segname: name16(g),
                    vmaddr: g.uint(word),
                    vmsize: g.uint(word),
                    fileoff: g.uint(word),
                    filesize: g.uint(word),
                    maxprot: macho::VmProt(g.u32()),
                    initprot: macho::VmProt(g.u32()),
                    nsects,
                    flags: macho::SegmentFlags(g.u32()),
                };
                emit!(segment_command(&s));
                let each = if is64 { 80 } else { 68 };
                let head = if is64 { 72 } else { 56 };
                b.u32(if is64 { 0x19 } else { 1 }).u32(head + nsects * each).bytes(&s.segname).w(s.vmaddr).w(s.vmsize).w(s.fileoff).w(s.filesize);
                b.u32(s.maxprot.0).u32(s.initprot.0).u32(nsects).u32(s.flags.0);
                if is64 {
                    same(wm::SegmentCommand::from_raw(end, raw::<macho::SegmentCommand64<Endianness>>(&b.v, "segment")?), s, "segment")?;
                } else {
                    same(wm::SegmentCommand::from_raw(end, raw::<macho::SegmentCommand32<Endianness>>(&b.v, "segment")?), s, "segment")?;
                }
                for _ in 0..nsects {
                    let s = wm::SectionHeader {
                        sectname: name16(g),
                        segname: name16(g),
                        addr: g.uint(word),
                        size: g.uint(word),
                        offset: g.u32(),
                        align: g.u32(),
                        reloff: g.u32(),
                        nreloc: g.u32(),
                        flags: macho::SectionFlags(g.u32()),
                        reserved1: g.u32(),
                        reserved2: g.u32(),
                        reserved3: if is64 { g.u32() } else { 0 },
                    };
                    emit!(section_header(&s));
                    let mut c = B::new(be, is64);
                    c.bytes(&s.sectname).bytes(&s.segname).w(s.addr).w(s.size).u32(s.offset).u32(s.align).u32(s.reloff).u32(s.nreloc).u32(s.flags.0).u32(s.reserved1).u32(s.reserved2);
                    if is64 {
                        c.u32(s.reserved3);
                        same(wm::SectionHeader::from_raw(end, raw::<macho::Section64<Endianness>>(&c.v, "section")?), s, "section")?;
                    } else {
                        same(wm::SectionHeader::from_raw(end, raw::<macho::Section32<Endianness>>(&c.v, "section")?), s, "section")?;
                    }
                    ensure_eq!(en.section_header_size(), c.len() as u64, "size of a section header");
                    b.bytes(&c.v);
                }
                ("segment", en.segment_command_size(nsects))
            }
            3 | 4 => {
                let r = macho::RelocationInfo {
                    r_address: g.u32(),
                    r_symbolnum: g.uint(24) as u32,
                    r_pcrel: g.bool(),
                    r_length: g.upto(3) as u8,
                    r_extern: g.bool(),
                    r_type: macho::RelocationType(g.upto(15) as u8),
                };
                emit!(relocation(&r));
                let (p, x) = (u32::from(r.r_pcrel), u32::from(r.r_extern));
                let (l, t) = (u32::from(r.r_length), u32::from(r.r_type.0));
                b.u32(r.r_address);
                b.u32(if be { r.r_symbolnum << 8 | p << 7 | l << 5 | x << 4 | t } else { r.r_symbolnum | p << 24 | l << 25 | x << 27 | t << 28 });
                same(raw::<macho::Relocation<Endianness>>(&b.v, "relocation")?.info(end), r, "relocation")?;
                ("relocation", en.relocation_size())
            }
            5 => {
                let c = wm::SymtabCommand { symoff: g.u32(), nsyms: g.u32(), stroff: g.u32(), strsize: g.u32() };
                emit!(symtab_command(&c));
                b.u32(2).u32(24).u32(c.symoff).u32(c.nsyms).u32(c.stroff).u32(c.strsize);
                same(wm::SymtabCommand::from_raw(end, raw::<macho::SymtabCommand<Endianness>>(&b.v, "symtab")?), c, "symtab")?;
                ("symtab", en.symtab_command_size())
            }
            6 | 7 => {
                let s = wm::Nlist { n_strx: g.u32(), n_type: macho::SymbolFlags(g.u8()), n_sect: g.u8(), n_desc: macho::SymbolDesc(g.u16()), n_value: g.uint(word) };
                emit!(nlist(&s));
                b.u32(s.n_strx).u8(s.n_type.0).u8(s.n_sect).u16(s.n_desc.0).w(s.n_value);
                if is64 {
                    same(wm::Nlist::from_raw(end, raw::<macho::Nlist64<Endianness>>(&b.v, "symbol")?), s, "symbol")?;
                } else {
                    same(wm::Nlist::from_raw(end, raw::<macho::Nlist32<Endianness>>(&b.v, "symbol")?), s, "symbol")?;
                }
                ("symbol", en.nlist_size())
            }
            8 => {
                let mut f = [0u32; 18];
                for x in &mut f {
                    *x = g.u32();
                }
                let c = wm::DysymtabCommand {
                    ilocalsym: f[0],
                    nlocalsym: f[1],
                    iextdefsym: f[2],
                    nextdefsym: f[3],
                    iundefsym: f[4],
                    nundefsym: f[5],
                    tocoff: f[6],
                    ntoc: f[7],
                    modtaboff: f[8],
                    nmodtab: f[9],
                    extrefsymoff: f[10],
                    nextrefsyms: f[11],
                    indirectsymoff: f[12],
                    nindirectsyms: f[13],
                    extreloff: f[14],
                    nextrel: f[15],
                    locreloff: f[16],
                    nlocrel: f[17],
                };
                emit!(dysymtab_command(&c));
                b.u32(0xb).u32(80);
                f.iter().for_each(|x| {
                    b.u32(*x);
                });
                same(wm::DysymtabCommand::from_raw(end, raw::<macho::DysymtabCommand<Endianness>>(&b.v, "dysymtab")?), c, "dysymtab")?;
                ("dysymtab", en.dysymtab_command_size())
            }
            9 => {
                let s = g.u32();
                emit!(indirect_symbol(macho::IndirectSymbol(s)));
                b.u32(s);
                ("indirect symbol", en.indirect_symbol_size())
            }
            10 | 11 => {
                let mut name = g.name(20);
                name.retain(|b| *b != 0);
                let c = wm::DylibCommand {
                    cmd: macho::LoadCommandType(if g.bool() { g.pickc(&[0xc, 0xd, 0x8000_0018, 0x8000_001f]) } else { g.u32() }),
                    name: &name,
                    timestamp: g.u32(),
                    current_version: macho::Version(g.u32()),
                    compatibility_version: macho::Version(g.u32()),
                };
                emit!(dylib_command(&c));
                let size = (24 + name.len() + 1).next_multiple_of(word as usize / 8);
                b.u32(c.cmd.0).u32(size as u32).u32(24).u32(c.timestamp).u32(c.current_version.0).u32(c.compatibility_version.0).fixed(&name, size - 24);
                let (r, _) = pod::from_bytes::<macho::DylibCommand<Endianness>>(&b.v).unwrap();
                same(wm::DylibCommand::from_raw(end, r, &name), c.clone(), "library")?;
                ("library", en.dylib_command_size(name.len()))
            }
            12 => {
                let ntools = g.len(4) as u32;
                let c = wm::BuildVersionCommand { platform: macho::Platform(g.u32()), minos: macho::Version(g.u32()), sdk: macho::Version(g.u32()), ntools };
                emit!(build_version_command(&c));
                b.u32(0x32).u32(24 + 8 * ntools).u32(c.platform.0).u32(c.minos.0).u32(c.sdk.0).u32(ntools);
                same(wm::BuildVersionCommand::from_raw(end, raw::<macho::BuildVersionCommand<Endianness>>(&b.v, "build version")?), c, "build version")?;
                for _ in 0..ntools {
                    let (t, v) = (g.u32(), g.u32());
                    emit!(build_tool_version(macho::Tool(t), macho::Version(v)));
                    b.u32(t).u32(v);
                }
                ("build version", en.build_version_command_size(ntools))
            }
            13 => {
                let (cmd, off, size) = (g.u32(), g.u32(), g.u32());
                emit!(linkedit_data_command(macho::LoadCommandType(cmd), off, size));
                b.u32(cmd).u32(16).u32(off).u32(size);
                ("linkedit data", en.linkedit_data_command_size())
            }
            14 => {
                let cmd = if g.bool() { g.pickc(&[0x22, 0x8000_0022]) } else { g.u32() };
                let mut f = [0u32; 10];
                for x in &mut f {
                    *x = g.u32();
                }
                let c = wm::DyldInfoCommand {
                    rebase_off: f[0],
                    rebase_size: f[1],
                    bind_off: f[2],
                    bind_size: f[3],
                    weak_bind_off: f[4],
                    weak_bind_size: f[5],
                    lazy_bind_off: f[6],
                    lazy_bind_size: f[7],
                    export_off: f[8],
                    export_size: f[9],
                };
                emit!(dyld_info_command(macho::LoadCommandType(cmd), &c));
                b.u32(cmd).u32(48);
                f.iter().for_each(|x| {
                    b.u32(*x);
                });
                same(wm::DyldInfoCommand::from_raw(end, raw::<macho::DyldInfoCommand<Endianness>>(&b.v, "dyld info")?), c, "dyld info")?;
                ("dyld info", en.dyld_info_command_size())
            }
            _ => {
                let mut strs = vec![];
                for _ in 0..g.len(8) {
                    let mut s = g.name(12);
                    s.retain(|b| *b != 0);
                    strs.push(s);
                }
                let mut t = StringTable::new();
                let ids: Vec<_> = strs.iter().map(|s| t.add(s)).collect();
                let len = must!(emit!(strtab(&mut t)), "strtab");
                let v = &file[at..];
                ensure_eq!(v.len(), len as usize, "size of the string table");
                ensure_eq!(len % (word / 8), 0, "padding of the string table");
                ensure!(v[0] == 0 && *v.last().unwrap() == 0, "string table {v:?}");
                for (s, id) in strs.iter().zip(ids) {
                    let o = t.get_offset(id) as usize;
                    ensure!(o > 0, "string {s:?} is at the start of the table");
                    ensure_eq!(cstr_at(v, o), Some(&s[..]), "string at {} of {:?}", o, v);
                }
                let text: usize = strs.iter().map(|s| s.len() + 1).sum();
                ensure!(v.len() < 1 + text + 8, "string table of {} bytes for {} bytes of strings", v.len(), text);
                b.bytes(v);
                ("string table", len.into())
            }
        };
        ensure_eq!(&file[at..], &b.v[..], "{}", what);
        ensure_eq!(size, b.len() as u64, "size of {}", what);
    }
    g.nontrivial_if(kinds.count_ones() >= 4);
    g.sample(|| format!("big {be}, 64-bit {is64}: {n} structures in {} bytes", file.len()));
    Ok(())
}

fn signature(g: &mut Gen) -> R {
    let en = wm::CodeSignatureEncoder;
    let mut file: Vec<u8> = vec![];
    let mut kinds = 0u32;
    let n = g.range(1, 8);
    for _ in 0..n {
        let at = file.len();
        let mut b = B::new(true, true);
        let k = g.upto(6);
        kinds |= 1 << k;
        let w: &mut dyn WritableBuffer = &mut file;
        let (what, size) = match k {
            0 => {
                let (l, c) = (g.u32(), g.u32());
                en.signature_super_blob(w, l, c);
                b.u32(0xfade_0cc0).u32(l).u32(c);
                ("signature", en.super_blob_size())
            }
            1 => {
                let (l, c) = (g.u32(), g.u32());
                en.requirements_super_blob(w, l, c);
                b.u32(0xfade_0c01).u32(l).u32(c);
                ("requirements", en.super_blob_size())
            }
            2 => {
                let (s, o) = (g.u32(), g.u32());
                en.blob_index(w, macho::CsSlot(s), o);
                b.u32(s).u32(o);
                ("index", en.blob_index_size())
            }
            3 => {
                let (m, l) = (g.u32(), g.u32());
                en.generic_blob(w, m, l);
                b.u32(m).u32(l);
                ("blob", en.generic_blob_size())
            }
            _ => {
                let vs = [0x20001u32, 0x20100, 0x20200, 0x20300, 0x20400];
                let version = match g.upto(2) {
                    0 | 1 => g.pickc(&vs),
                    _ => g.upto(0x20400) as u32,
                };
                let has = |i: usize| version >= vs[i];
                let limit = g.pickc(&[0u64, 1, 0xffff_ffff, 0xffff_fffe, 0x1_0000_0000, u64::MAX]);
                let limit = if g.bool() { g.uint(32) } else { limit };
                let limit = if has(3) { limit } else { limit.min(0xffff_ffff) };
                let len = [44, 48, 52, 64, 88][(1..5).filter(|i| has(*i)).count()];
                let mut f = wm::CodeDirectory {
                    length: if g.bool() { len } else { g.u32() },
                    version: macho::CsVersion(version),
                    flags: macho::CsFlags(g.u32()),
                    hash_offset: g.u32(),
                    ident_offset: g.u32(),
                    n_special_slots: g.u32(),
                    n_code_slots: g.u32(),
                    code_limit: limit,
                    hash_size: g.u8(),
                    hash_type: macho::CsHashType(g.u8()),
                    platform: g.u8(),
                    page_size: g.u8(),
                    scatter_offset: g.u32(),
                    team_offset: g.u32(),
                    exec_seg_base: g.u64(),
                    exec_seg_limit: g.u64(),
                    exec_seg_flags: macho::CsExecSegFlags(g.u64()),
                };
                en.code_directory(w, &f);
                b.u32(0xfade_0c02).u32(f.length).u32(version).u32(f.flags.0).u32(f.hash_offset).u32(f.ident_offset).u32(f.n_special_slots).u32(f.n_code_slots);
                b.u32(limit.min(0xffff_ffff) as u32).u8(f.hash_size).u8(f.hash_type.0).u8(f.platform).u8(f.page_size).u32(0);
                if has(1) {
                    b.u32(f.scatter_offset);
                } else {
                    f.scatter_offset = 0;
                }
                if has(2) {
                    b.u32(f.team_offset);
                } else {
                    f.team_offset = 0;
                }
                if has(3) {
                    b.u32(0).u64(if limit > 0xffff_ffff { limit } else { 0 });
                }
                if has(4) {
                    b.u64(f.exec_seg_base).u64(f.exec_seg_limit).u64(f.exec_seg_flags.0);
                } else {
                    (f.exec_seg_base, f.exec_seg_limit, f.exec_seg_flags) = (0, 0, macho::CsExecSegFlags(0));
                }
                // Back to the writable form.
                let mut v = b.v.clone();
                v.extend(g.blob(5));
                if f.length as usize == b.len() && version >= 0x20001 {
                    let r = must!(object::read::macho::CodeDirectory::parse(&v[..b.len()]), "parsing the code directory");
                    same(wm::CodeDirectory::from_raw(&r), f.clone(), "code directory")?;
                    g.label("converted code directory");
                }
                ("code directory", en.code_directory_size(macho::CsVersion(version)))
            }
        };
        ensure_eq!(&file[at..], &b.v[..], "{}", what);
        ensure_eq!(size as usize, b.len(), "size of {}", what);
    }
    g.nontrivial_if(kinds.count_ones() >= 3);
    g.sample(|| format!("{n} structures in {} bytes", file.len()));
    Ok(())
}

fn main() {
    run(
        "C29",
        "a case is non-trivial when at least four kinds of structures are encoded, or three of code signatures",
        &[
            "values fit in the fields of the width, as the documentation demands",
            "where strings are placed in a string table is open as long as every reported offset leads to its string",
        ],
        &[sub("commands", 1_500_000, 40_000_000, commands), sub("signature", 300_000, 20_000_000, signature)],
    )
}
