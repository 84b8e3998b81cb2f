//! The low-level Mach-O interface.
use super::*;
use object::read::macho::*;
use object::read::{Object, SymbolIndex};
use object::{Endianness, macho};

type D<'d> = &'d [u8];
type E = Endianness;

pub fn file<'d, H: MachHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>) {
    let max = w.max();
    for o in [1, 4, d.len() as u64, u64::MAX] {
        u(H::parse(d, o).is_ok());
    }
    let Some(h) = w.ok("mach header", H::parse(d, 0)) else { return };
    let Ok(e) = h.endian() else { return };
    u((h.is_type_64(), h.is_big_endian(), h.is_little_endian(), H::pointer_size(), h.magic(), h.cputype(e), h.cpusubtype(e), h.filetype(e), h.ncmds(e), h.sizeofcmds(e), h.flags(e), h.is_supported()));
    u(h.uuid(e, d, 0).is_ok());
    // The offset is where a header was found, so it can be followed by something.
    for o in [0, 1, d.len() as u64 / 2, d.len() as u64] {
        if let Some(mut it) = w.ok("load commands", h.load_commands(e, d, o)) {
            w.steps("load command", max, || it.next(), |w, c| {
                if o == 0 {
                    command::<H>(w, d, e, c)
                } else {
                    u(c.variant().is_ok())
                }
            });
        }
    }
    if let Ok(f) = MachOFile::<H>::parse(d) {
        w.saw("mach-o file");
        u((f.endian(), f.data().len(), f.macho_header().magic(), f.macho_load_commands().is_ok(), f.build_version().is_ok()));
        table::<H>(w, e, f.macho_symbol_table());
        w.each("mach-o sections", max, f.sections(), |w, s| {
            u(s.macho_section().size(e).into());
            if let Ok(r) = s.macho_relocations() {
                w.array("mach-o relocations", r);
            }
        });
        w.each("mach-o segments", max, f.segments(), |_, s| u(s.macho_segment().vmaddr(e).into()));
        w.each("mach-o symbols", max, f.symbols(), |_, s| u(s.macho_symbol().n_strx(e)));
    }
}

fn table<'d, H: MachHeader<Endian = Endianness>>(w: &mut W<'d>, e: E, t: &SymbolTable<'d, H>) {
    let max = w.max();
    strings(w, t.strings());
    u((t.is_empty(), t.len()));
    w.array("nlist", t.symbols());
    w.each("nlist", max, t.enumerate(), |w, (i, s)| {
        w.bytes("nlist name", t.symbol_name(e, s));
        u((t.symbol(i).is_ok(), s.n_type(), s.n_sect(), s.n_desc(e), s.n_value(e).into(), s.is_stab(), s.stab(), s.is_undefined(), s.is_common(), s.is_definition(), s.library_ordinal(e)));
    });
    for i in [0, t.len(), usize::MAX] {
        u(t.symbol(SymbolIndex(i)).is_ok());
    }
    u(t.object_map(e).symbols().len());
}

fn segment<'d, H: MachHeader<Endian = Endianness>, S: Segment<Endian = E>>(w: &mut W<'d>, d: D<'d>, e: E, s: &'d S, data: D<'d>, ind: &[&'d DysymtabCommand]) {
    let max = w.max();
    u((s.cmd(e), s.cmdsize(e), s.vmaddr(e).into(), s.vmsize(e).into(), s.fileoff(e).into(), s.filesize(e).into(), s.maxprot(e), s.initprot(e), s.nsects(e), s.flags(e), s.file_range(e)));
    w.inside("segment name", s.name());
    w.bytes("segment data", s.data(e, d));
    let Some(secs) = w.ok("segment sections", s.sections(e, data)) else { return };
    w.array("segment sections", secs);
    // The file offsets of the sections, which the readers compute from their sizes.
    w.results("section offsets", max, s.section_offsets(e, secs), |_, x| u(x.map(|x| x.1).ok()));
    w.results("section", max, s.section_offsets(e, secs), |w, x| {
        let Ok((x, o)) = x else { return };
        u((x.addr(e).into(), x.size(e).into(), x.offset(e), x.align(e), x.reloff(e), x.nreloc(e), x.flags(e), x.reserved1(e), x.reserved2(e), x.reserved3(e), x.section_type(e), x.file_size(e), x.file_range(e, o), x.symbol_stub_size(e)));
        w.inside("section name", x.name());
        w.inside("section segment", x.segment_name());
        w.bytes("section data", x.data(e, d, o));
        w.bytes("section data", x.data(e, d, u64::MAX));
        if let Some(r) = w.ok("section relocations", x.relocations(e, d)) {
            w.array("section relocations", r);
            w.each("relocation", max, r.iter(), |_, r| {
                for cpu in [macho::CPU_TYPE_X86_64, macho::CPU_TYPE_ARM] {
                    u((r.r_scattered(e, cpu), format!("{:?}", r.info(e)), format!("{:?}", r.scattered_info(e))));
                }
            });
        }
        for i in ind {
            if let Ok(l) = i.indirect_symbols(e, d) {
                if let Ok(x) = x.indirect_symbols(e, l) {
                    w.array("section indirect symbols", x);
                }
            }
        }
    });
}
type DysymtabCommand = macho::DysymtabCommand<Endianness>;

pub fn chained<'d>(w: &mut W<'d>, e: E, f: &DyldChainedFixups<'d, E>, datas: &[D<'d>]) {
    let max = w.max();
    u(f.header().imports_count.get(e));
    if let Some(mut it) = w.ok("chained imports", f.imports(e)) {
        w.steps("chained import", max, || it.next(), |w, x| {
            w.inside("chained import", x.name);
            u((x.dylib, x.weak_import, x.addend));
        });
    }
    if let Some(mut it) = w.ok("chained segments", f.segments(e)) {
        w.steps("chained segment", max, || it.next(), |w, s| {
            u((s.index(), s.header().page_count.get(e)));
            for (k, &x) in datas.iter().enumerate() {
                let o = [0, s.header().segment_offset.get(e), u64::MAX][k % 3];
                let mut it = s.fixups(e, o, x);
                // Chains of different page starts may meet: pages times fixups.
                w.steps("fixup", max * 64, || it.next(), |_, (o, x)| u((o, format!("{x:?}"))));
            }
        });
    }
}

pub fn trie(w: &mut W, mut it: ExportsTrieIterator) {
    // Nodes may be shared, so the number of names is not bounded by the size.
    let mut n = 0;
    w.steps("trie export", u64::MAX, || if n > 10_000 { Ok(None) } else { n += 1; it.next() }, |_, x| {
        u((x.name().len(), x.flags(), format!("{:?}", x.data())));
    });
}

pub fn rebases<E1>(w: &mut W, mut next: impl FnMut() -> Result<Option<Rebase>, E1>) {
    let mut n = 0;
    w.steps("rebase", u64::MAX, || if n > 10_000 { Ok(None) } else { n += 1; next() }, |_, x| u(format!("{x:?}")));
}

fn command<'d, H: MachHeader<Endian = Endianness>>(w: &mut W<'d>, d: D<'d>, e: E, c: LoadCommandData<'d, E>) {
    let max = w.max();
    u((c.cmd(), c.cmdsize(), c.offset()));
    w.inside("command", c.raw_data());
    u((c.data::<macho::SegmentCommand64<E>>().is_ok(), c.data::<[u8; 4096]>().is_ok()));
    for o in [0, 8, c.cmdsize(), u32::MAX] {
        w.bytes("command string", c.string(e, macho::LcStr { offset: object::U32::new(e, o) }));
    }
    u((c.segment_32().is_ok(), c.segment_64().is_ok(), c.symtab().is_ok(), c.dysymtab().is_ok(), c.dylib().is_ok(), c.uuid().is_ok(), c.dyld_info().is_ok()));
    u((c.dyld_exports_trie().is_ok(), c.dyld_chained_fixups().is_ok(), c.entry_point().is_ok(), c.unix_thread().is_ok(), c.build_version(e).is_ok()));
    let Some(v) = w.ok("variant", c.variant()) else { return };
    use LoadCommandVariant as V;
    let lc = |w: &mut W<'d>, s| {
        w.bytes("command string", c.string(e, s));
    };
    match v {
        V::Segment32(s, x) => segment::<H, _>(w, d, e, s, x, &[]),
        V::Segment64(s, x) => segment::<H, _>(w, d, e, s, x, &[]),
        V::Symtab(s) => {
            if let Some(t) = w.ok("symtab", s.symbols::<H, _>(e, d)) {
                table::<H>(w, e, &t);
            }
        }
        V::Thread(t, x) => {
            u(t.cmd.get(e));
            w.inside("thread", x);
        }
        V::Dysymtab(s) => {
            if let Some(l) = w.ok("indirect symbols", s.indirect_symbols(e, d)) {
                w.array("indirect symbols", l);
                w.each("indirect symbol", max, l.iter(), |_, i| u((i.get(e).is_local(), i.get(e).is_abs(), i.get(e).index())));
            }
            if let Ok(h) = H::parse(d, 0) {
                if let Ok(mut it) = h.load_commands(e, d, 0) {
                    w.steps("indirect", max, || it.next(), |w, c| {
                        if let Ok(Some((x, data))) = c.segment_32() {
                            segment::<H, _>(w, d, e, x, data, &[s]);
                        }
                        if let Ok(Some((x, data))) = c.segment_64() {
                            segment::<H, _>(w, d, e, x, data, &[s]);
                        }
                    });
                }
            }
        }
        V::Dylib(l) | V::IdDylib(l) => {
            lc(w, l.dylib.name);
            u((c.dylib_use_flags(e, l).is_ok(), l.dylib.current_version.get(e)));
        }
        V::LoadDylinker(l) | V::IdDylinker(l) | V::DyldEnvironment(l) => lc(w, l.name),
        V::PreboundDylib(l) => lc(w, l.name),
        V::SubFramework(l) => lc(w, l.umbrella),
        V::SubUmbrella(l) => lc(w, l.sub_umbrella),
        V::SubClient(l) => lc(w, l.client),
        V::SubLibrary(l) => lc(w, l.sub_library),
        V::Rpath(l) => lc(w, l.path),
        V::TargetTriple(l) => lc(w, l.triple),
        V::FilesetEntry(l) => lc(w, l.entry_id),
        V::LinkeditData(l) => {
            w.bytes("linkedit", l.data(e, d));
            if let Some(s) = w.ok("code signature", l.code_signature(e, d)) {
                signature(w, &s);
            }
            if let Some(f) = w.ok("chained fixups", l.chained_fixups(e, d)) {
                chained(w, e, &f, &[d, d, d, &[]]);
            }
            for b in [0, u64::MAX] {
                if let Some(mut it) = w.ok("function starts", l.function_starts(e, d, b)) {
                    w.steps("function start", max, || it.next(), |_, x| u(x));
                }
            }
            if let Some(it) = w.ok("exports trie", l.exports_trie(e, d)) {
                trie(w, it);
            }
        }
        V::DyldInfo(l) => {
            w.bytes("rebase data", l.rebase_data(e, d));
            w.bytes("bind data", l.bind_data(e, d));
            w.bytes("weak bind data", l.weak_bind_data(e, d));
            w.bytes("lazy bind data", l.lazy_bind_data(e, d));
            w.bytes("export data", l.export_data(e, d));
            if let Some(mut it) = w.ok("rebase operations", l.rebase_operations(e, d)) {
                w.steps("rebase operation", max, || it.next(), |_, x| u(format!("{x:?}")));
            }
            for it in [l.bind_operations(e, d), l.weak_bind_operations(e, d), l.lazy_bind_operations(e, d)] {
                if let Some(mut it) = w.ok("bind operations", it) {
                    w.steps("bind operation", max, || it.next(), |_, x| u(format!("{x:?}")));
                }
            }
            for p in [4, 8] {
                if let Some(mut it) = w.ok("rebases", l.rebases(e, d, p)) {
                    rebases(w, || it.next());
                }
                for it in [l.binds(e, d, p), l.weak_binds(e, d, p), l.lazy_binds(e, d, p)] {
                    if let Some(mut it) = w.ok("binds", it) {
                        let mut n = 0;
                        w.steps("bind", u64::MAX, || if n > 10_000 { Ok(None) } else { n += 1; it.next() }, |_, x| u(format!("{x:?}")));
                    }
                }
            }
            if let Some(it) = w.ok("exports trie", l.exports_trie(e, d)) {
                trie(w, it);
            }
        }
        V::BuildVersion(b, x) => {
            if let Ok(t) = b.tools(e, x) {
                w.array("build tools", t);
            }
        }
        _ => {}
    }
}

pub fn signature<'d>(w: &mut W<'d>, s: &CodeSignature<'d>) {
    let max = w.max();
    u(s.header().magic);
    w.array("blob index", s.index());
    let mut it = s.blobs();
    w.steps("blob", max, || it.next(), |w, b| {
        u((b.slot(), b.offset(), b.magic()));
        w.inside("blob", b.data());
        w.inside("blob", b.contents());
        if let Some(c) = w.some("code directory", b.code_directory()) {
            directory(w, &c);
        }
    });
}
pub fn directory<'d>(w: &mut W<'d>, c: &CodeDirectory<'d>) {
    u((c.header().flags, c.version(), c.scatter_offset(), c.team_offset(), c.code_limit(), c.code_limit64(), c.exec_seg().is_some()));
    w.bytes("ident", c.ident());
    w.obytes("team", c.team_id());
    for i in [0, 1, 2, 5, 7, 11, 0x1000, u32::MAX - 1, u32::MAX] {
        w.bytes("special hash", c.special_hash(macho::CsSlot(i)));
        w.bytes("code hash", c.code_hash(i));
    }
}

pub fn fat<'d, A: FatArch>(w: &mut W<'d>, d: D<'d>) {
    let max = w.max();
    let Some(f) = w.ok("fat", MachOFatFile::<A>::parse(d)) else { return };
    u(f.header().magic);
    w.array("fat arches", f.arches());
    w.each("fat arch", max, f.arches().iter(), |w, a| {
        u((a.cputype(), a.cpusubtype(), a.offset().into(), a.size().into(), a.align(), a.architecture(), a.file_range()));
        if let Some(x) = w.ok("fat data", a.data(d)) {
            w.inside("fat data", x);
            if x.len() < d.len() && w.left > 20_000 && object::read::FileKind::parse(x).is_ok_and(|k| !matches!(k, object::read::FileKind::MachOFat32 | object::read::FileKind::MachOFat64)) {
                super::all(w, x);
            }
        }
    });
}

pub fn cache<'d>(w: &mut W<'d>, d: D<'d>) {
    cache_files(w, d, &[])
}
pub fn cache_files<'d>(w: &mut W<'d>, d: D<'d>, subs: &[D<'d>]) {
    let max = w.max();
    u(DyldCache::<E, &[u8]>::subcache_suffixes(d).is_ok());
    if let Some(h) = w.ok("cache header", macho::DyldCacheHeader::<E>::parse(d)) {
        if let Some((_, e)) = w.ok("cache magic", h.parse_magic()) {
            let mut slides: Vec<&macho::DyldCacheMappingAndSlideInfo<E>> = vec![];
            match w.ok("cache mappings", h.mappings(e, d)) {
                Some(DyldCacheMappingSlice::V1(m)) => w.array("mappings", m),
                Some(DyldCacheMappingSlice::V2(m)) => {
                    w.array("mappings", m);
                    slides.extend(m);
                }
                _ => {}
            }
            for m in slides {
                match w.ok("slide", m.slide(e, d)) {
                    Some(DyldCacheSlideInfo::V2 { page_starts, page_extras, .. }) => {
                        w.array("page starts", page_starts);
                        w.array("page extras", page_extras);
                    }
                    Some(DyldCacheSlideInfo::V3 { page_starts, .. } | DyldCacheSlideInfo::V5 { page_starts, .. }) => w.array("page starts", page_starts),
                    _ => {}
                }
            }
            u((h.subcaches(e, d).is_ok(), h.symbols_subcache_uuid(e)));
            if let Some(l) = w.ok("cache image infos", h.images(e, d)) {
                w.array("images", l);
                w.each("image info", max, l.iter(), |w, i| {
                    w.bytes("image path", i.path(e, d));
                });
            }
        }
    }
    let Some(c) = w.ok("cache", DyldCache::<E, &[u8]>::parse(d, subs)) else { return };
    u((c.architecture(), c.endianness(), c.is_little_endian(), c.data().len()));
    let mut adr = vec![0, 1, u64::MAX];
    w.each("cache mapping", max, c.mappings(), |w, m| {
        u((m.address(), m.size(), m.file_offset(), m.max_prot(), m.init_prot()));
        addresses(&mut adr, m.address(), m.size());
        w.bytes("mapping data", m.data());
        if let Some(it) = w.ok("cache relocations", m.relocations()) {
            // Pages may share their chains: pages times entries.
            w.results("cache relocation", u64::MAX, it.take(20_000), |_, r| {
                if let Ok(r) = r {
                    u(format!("{r:?}"));
                }
            });
        }
    });
    for a in adr {
        u(c.data_and_offset_for_address(a).map(|x| x.1));
    }
    w.each("cache image", max, c.images(), |w, i| {
        u(i.info().address);
        u(i.path().is_ok());
        u(i.image_data_and_offset().map(|x| x.1).is_ok());
        if w.left > 30_000 {
            if let Some(f) = w.ok("cache object", i.parse_object()) {
                unified(w, &f);
            }
            u(MachOFile::<macho::MachHeader64<E>, &[u8]>::parse_dyld_cache_image(&i).is_ok());
        }
    });
}
