//! C31: edits in the ELF builder change exactly what was edited. Every edit is applied to a builder
//! and to an independent model in lock step.
use object::Endianness;
use object::build::elf as be;
use object::build::elf::{Builder, SectionData};
use object::elf as c;
use vh::elf::k::*;
use vh::elfmodel::*;
use vh::sink::*;
use vh::*;

struct St<'a> {
    b: Builder<'a>,
    m: Model,
    sec: Vec<be::SectionId>,
    seg: Vec<be::SegmentId>,
    sym: Vec<be::SymbolId>,
    dsym: Vec<be::DynamicSymbolId>,
    ver: Vec<be::VersionId>,
    file: Vec<be::VersionFileId>,
    /// New loaded sections without file contents, that need a place.
    place: Vec<usize>,
    phoff: u64,
    /// Deleted segments may leave loaded contents unmapped.
    unmapped: bool,
}

fn s(v: &[u8]) -> object::build::ByteString<'static> {
    v.to_vec().into()
}
fn rel<const D: bool>(r: &MRel, ids: &[be::SymbolId<D>]) -> be::Relocation<D> {
    be::Relocation { r_offset: r.off, symbol: r.sym.map(|i| ids[i]), r_type: c::RelocationType(r.ty), r_addend: r.addend }
}
fn dynamic(tag: i64, v: &DVal) -> be::Dynamic<'static> {
    let tag = c::DynamicTag(tag);
    match v {
        DVal::Auto => be::Dynamic::Auto { tag },
        DVal::Int(v) => be::Dynamic::Integer { tag, val: *v },
        DVal::Str(v) => be::Dynamic::String { tag, val: s(v) },
    }
}

impl<'a> St<'a> {
    fn read(v: &'a [u8], m: &Model) -> R<St<'a>> {
        let b = must!(Builder::read(v), "Builder::read");
        let st = St {
            sec: b.sections.iter().map(|x| x.id()).collect(),
            seg: b.segments.iter().map(|x| x.id()).collect(),
            sym: b.symbols.iter().map(|x| x.id()).collect(),
            dsym: b.dynamic_symbols.iter().map(|x| x.id()).collect(),
            ver: b.versions.iter().map(|x| x.id()).collect(),
            file: b.version_files.iter().map(|x| x.id()).collect(),
            m: m.clone(),
            place: vec![],
            phoff: b.header.e_phoff,
            unmapped: false,
            b,
        };
        let n = (m.secs.len(), m.segs.len(), m.syms.len(), m.dsyms.len(), m.vers.len(), m.vfiles.len());
        ensure_eq!((st.sec.len(), st.seg.len(), st.sym.len(), st.dsym.len(), st.ver.len(), st.file.len()), n, "items read");
        for (i, v) in st.m.vers.iter().enumerate() {
            let same = match (&st.b.versions.get(st.ver[i]).data, &v.d) {
                (be::VersionData::Def(d), VData::Def { names, flags }) => d.names.iter().map(|x| x.as_slice()).eq(names.iter().map(|x| &x[..])) && d.flags.0 == *flags,
                (be::VersionData::Need(d), VData::Need { flags, name, file }) => d.name.as_slice() == &name[..] && d.flags.0 == *flags && d.file == st.file[*file],
                _ => false,
            };
            ensure!(same, "version {i} read as {:?}, expected {v:?}", st.b.versions.get(st.ver[i]));
        }
        for (i, p) in m.segs.iter().enumerate() {
            let got: Vec<_> = st.b.segments.get(st.seg[i]).sections.clone();
            ensure_eq!(got, p.secs.iter().map(|&i| st.sec[i]).collect::<Vec<_>>(), "sections of segment {i}");
        }
        Ok(st)
    }
    /// Build a laid out model from nothing.
    fn create(m: &Model) -> St<'a> {
        let e = if m.be { Endianness::Big } else { Endianness::Little };
        let mut st = St { b: Builder::new(e, m.is64), m: m.clone(), sec: vec![], seg: vec![], sym: vec![], dsym: vec![], ver: vec![], file: vec![], place: vec![], phoff: if m.is64 { 64 } else { 52 }, unmapped: false };
        st.header();
        st.b.header.e_phoff = st.phoff;
        st.params();
        for _ in &m.secs {
            st.sec.push(st.b.sections.add().id());
        }
        for _ in &m.syms {
            st.sym.push(st.b.symbols.add().id());
        }
        for f in &m.vfiles {
            st.file.push(st.b.version_files.add(s(&f.name)));
        }
        for v in &m.vers {
            let d = st.version(v);
            st.ver.push(st.b.versions.add(d));
        }
        for _ in &m.dsyms {
            st.dsym.push(st.b.dynamic_symbols.add().id());
        }
        for i in 0..m.secs.len() {
            st.put_sec(i);
        }
        for i in 0..m.syms.len() {
            st.put_sym(i);
        }
        for i in 0..m.dsyms.len() {
            st.put_dsym(i);
        }
        for p in &m.segs {
            let x = st.b.segments.add();
            (x.p_type, x.p_flags, x.p_offset, x.p_vaddr, x.p_paddr) = (c::ProgramType(p.s.ty), c::ProgramFlags(p.s.flags), p.s.off, p.s.vaddr, p.s.paddr);
            (x.p_filesz, x.p_memsz, x.p_align) = (p.s.filesz, p.s.memsz, p.s.align);
            x.sections = p.secs.iter().map(|&i| st.sec[i]).collect();
            st.seg.push(x.id());
        }
        st
    }
    fn header(&mut self) {
        let (b, h) = (&mut self.b.header, &self.m.h);
        b.os_abi = c::OsAbi(h.osabi);
        b.abi_version = h.abiver;
        b.e_type = c::FileType(h.ety);
        b.e_machine = c::Machine(h.machine);
        b.e_entry = h.entry;
        b.e_flags = c::FileFlags(h.flags);
    }
    fn params(&mut self) {
        let (b, m) = (&mut self.b, &self.m);
        b.version_base = m.vbase.as_ref().map(|v| s(v));
        b.hash_bucket_count = m.nbucket;
        b.gnu_hash_bloom_shift = m.gnu_shift;
        b.gnu_hash_bloom_count = m.gnu_bloom;
        b.gnu_hash_bucket_count = m.gnu_nbucket;
    }
    fn version(&self, v: &MVer) -> be::VersionData<'static> {
        match &v.d {
            VData::Def { flags, names } => be::VersionData::Def(be::VersionDef { names: names.iter().map(|n| s(n)).collect(), flags: c::VersionFlags(*flags) }),
            VData::Need { flags, name, file } => be::VersionData::Need(be::VersionNeed { file: self.file[*file], name: s(name), flags: c::VersionFlags(*flags) }),
        }
    }
    fn data(&self, d: &Data) -> SectionData<'a> {
        use SectionData as S;
        match d {
            Data::Bytes(v) => S::Data(v.clone().into()),
            Data::NoBits(n) => S::UninitializedData(*n),
            Data::Rel(r) => S::Relocation(r.iter().map(|r| rel(r, &self.sym)).collect()),
            Data::DRel(r) => S::DynamicRelocation(r.iter().map(|r| rel(r, &self.dsym)).collect()),
            Data::Dynamic(d) => S::Dynamic(d.iter().map(|(t, v)| dynamic(*t, v)).collect()),
            Data::Attrs(a) => {
                let mut out = be::AttributesSection::new();
                for a in a {
                    let mut x = be::AttributesSubsection::new(s(&a.vendor));
                    for (sc, d) in &a.subs {
                        let scope = match sc {
                            Scope::File => be::AttributeScope::File,
                            Scope::Secs(v) => be::AttributeScope::Section(v.iter().map(|&i| self.sec[i]).collect()),
                            Scope::Syms(v) => be::AttributeScope::Symbol(v.iter().map(|&i| self.sym[i]).collect()),
                        };
                        x.subsubsections.push(be::AttributesSubsubsection { scope, data: d.clone().into() });
                    }
                    out.subsections.push(x);
                }
                S::Attributes(out)
            }
            Data::ShStr => S::SectionString,
            Data::Sym => S::Symbol,
            Data::Shndx => S::SymbolSectionIndex,
            Data::Str => S::String,
            Data::DSym => S::DynamicSymbol,
            Data::DStr => S::DynamicString,
            Data::Hash => S::Hash,
            Data::Gnu => S::GnuHash,
            Data::Versym => S::GnuVersym,
            Data::Verdef => S::GnuVerdef,
            Data::Verneed => S::GnuVerneed,
        }
    }
    fn put_sec(&mut self, i: usize) {
        let m = &self.m.secs[i];
        let mut d = self.data(&m.data);
        if let (SectionData::Data(v), SHT_NOTE) = (&d, m.ty) {
            d = SectionData::Note(v.clone());
        }
        let (link, info) = (m.link.map(|i| self.sec[i]), m.info_sec.map(|i| self.sec[i]));
        let x = self.b.sections.get_mut(self.sec[i]);
        x.delete = m.del;
        x.name = s(&m.name);
        (x.sh_type, x.sh_flags) = (c::SectionType(m.ty), c::SectionFlags(m.flags));
        (x.sh_addr, x.sh_offset, x.sh_size, x.sh_addralign, x.sh_entsize) = (m.addr, m.off, m.size, m.align, m.entsize);
        (x.sh_link_section, x.sh_info_section, x.sh_info) = (link, info, m.info);
        x.data = d;
    }
    fn put_sym(&mut self, i: usize) {
        let m = &self.m.syms[i];
        let sec = m.sec.map(|i| self.sec[i]);
        let x = self.b.symbols.get_mut(self.sym[i]);
        (x.delete, x.name, x.section) = (m.del, s(&m.name), sec);
        (x.st_info, x.st_other, x.st_shndx, x.st_value, x.st_size) = (c::SymbolInfo(m.info), c::SymbolOther(m.other), c::SymbolSection(m.shndx), m.value, m.size);
    }
    fn put_dsym(&mut self, i: usize) {
        let m = &self.m.dsyms[i];
        let sec = m.sec.map(|i| self.sec[i]);
        let ver = match m.ver {
            Vr::Local => be::VersionId::local(),
            Vr::Global => be::VersionId::global(),
            Vr::Id(i) => self.ver[i],
        };
        let x = self.b.dynamic_symbols.get_mut(self.dsym[i]);
        (x.delete, x.name, x.section) = (m.del, s(&m.name), sec);
        (x.st_info, x.st_other, x.st_shndx, x.st_value, x.st_size) = (c::SymbolInfo(m.info), c::SymbolOther(m.other), c::SymbolSection(m.shndx), m.value, m.size);
        (x.version, x.version_hidden) = (ver, m.hidden);
    }
    fn live_secs(&self) -> Vec<usize> {
        (0..self.m.secs.len()).filter(|&i| !self.m.secs[i].del).collect()
    }

    // ------------------------------------------------------------ edits

    fn edit(&mut self, g: &mut Gen) -> &'static str {
        let live = self.live_secs();
        let w = self.m.word();
        let wb = self.m.img().wbits();
        match g.upto(27) {
            0 | 1 => {
                // Mostly sections that nothing needs.
                let v: Vec<usize> = live.into_iter().filter(|&i| !self.m.secs[i].data.is_meta()).collect();
                let Some(i) = some(g, &v) else { return "" };
                self.m.secs[i].del = true;
                self.b.sections.get_mut(self.sec[i]).delete = true;
                "delete section"
            }
            2 if g.chance(1, 4) => {
                let Some(i) = some(g, &live) else { return "" };
                self.m.secs[i].del = true;
                self.b.sections.get_mut(self.sec[i]).delete = true;
                // Then what it is for.
                if g.chance(3, 4) {
                    match self.m.secs[i].data {
                        Data::Sym | Data::Str => {
                            for j in 0..self.m.syms.len() {
                                self.m.syms[j].del = true;
                                self.b.symbols.get_mut(self.sym[j]).delete = true;
                            }
                        }
                        Data::DSym | Data::DStr => {
                            for j in 0..self.m.dsyms.len() {
                                self.m.dsyms[j].del = true;
                                self.b.dynamic_symbols.get_mut(self.dsym[j]).delete = true;
                            }
                        }
                        _ => {}
                    }
                    if g.bool() {
                        let (kind, link) = (self.m.secs[i].data.clone(), i);
                        for j in 0..self.m.secs.len() {
                            if self.m.secs[j].link == Some(link) || matches!((&kind, &self.m.secs[j].data), (Data::Sym, Data::Str | Data::Shndx)) {
                                self.m.secs[j].del = true;
                                self.b.sections.get_mut(self.sec[j]).delete = true;
                            }
                        }
                    }
                }
                "delete table"
            }
            2 => {
                let v: Vec<usize> = (0..self.m.secs.len()).filter(|&i| self.m.secs[i].del).collect();
                let Some(i) = some(g, &v) else { return "" };
                if self.m.secs[i].data.is_meta() && self.m.find(&self.m.secs[i].data).is_some() {
                    return "";
                }
                self.m.secs[i].del = false;
                self.b.sections.get_mut(self.sec[i]).delete = false;
                "undelete section"
            }
            3 => {
                let Some(i) = below(g, self.m.syms.len()) else { return "" };
                self.m.syms[i].del = true;
                self.b.symbols.get_mut(self.sym[i]).delete = true;
                "delete symbol"
            }
            4 => {
                let Some(i) = below(g, self.m.dsyms.len()) else { return "" };
                self.m.dsyms[i].del = true;
                self.b.dynamic_symbols.get_mut(self.dsym[i]).delete = true;
                "delete dynamic symbol"
            }
            5 if g.chance(1, 2) => {
                let Some(i) = below(g, self.m.segs.len()) else { return "" };
                self.m.segs[i].del = true;
                self.b.segments.get_mut(self.seg[i]).delete = true;
                self.unmapped |= self.m.segs[i].s.ty == PT_LOAD;
                "delete segment"
            }
            5 => {
                let Some(i) = below(g, self.m.vers.len()) else { return "" };
                self.m.vers[i].del = true;
                self.b.versions.get_mut(self.ver[i]).delete = true;
                for j in 0..self.m.dsyms.len() {
                    if self.m.dsyms[j].ver == Vr::Id(i) {
                        self.m.dsyms[j].ver = Vr::Global;
                        self.put_dsym(j);
                    }
                }
                "delete version"
            }
            6 => {
                let v: Vec<usize> = live.into_iter().filter(|&i| matches!(self.m.secs[i].data, Data::Rel(_) | Data::DRel(_) | Data::Dynamic(_) | Data::Attrs(_))).collect();
                let Some(i) = some(g, &v) else { return "" };
                let id = self.sec[i];
                match (&mut self.m.secs[i].data, &mut self.b.sections.get_mut(id).data) {
                    (Data::Rel(a), SectionData::Relocation(b)) => remove(g, a, b),
                    (Data::DRel(a), SectionData::DynamicRelocation(b)) => remove(g, a, b),
                    (Data::Dynamic(a), SectionData::Dynamic(b)) => remove(g, a, b),
                    (Data::Attrs(a), SectionData::Attributes(b)) => {
                        if g.bool() {
                            remove(g, a, &mut b.subsections)
                        } else if let Some(i) = below(g, a.len()) {
                            remove(g, &mut a[i].subs, &mut b.subsections[i].subsubsections)
                        }
                    }
                    _ => unreachable!(),
                }
                "remove entry"
            }
            7 | 8 => {
                // Add a section.
                let name = if g.bool() { g.name(8) } else { b".new".to_vec() };
                let mut flags = g.pickc(&[0u64, SHF_WRITE, SHF_EXECINSTR, SHF_MERGE]);
                let alloc = g.chance(2, 5);
                if alloc {
                    flags |= SHF_ALLOC;
                }
                let (ny, nd) = (self.m.syms.len(), self.m.dsyms.len());
                let rela = g.bool();
                let mut x = match g.upto(5) {
                    0 if self.place.is_empty() || !alloc => MSec::new(&name, SHT_NOBITS, flags, 1 << g.upto(5), Data::NoBits(g.upto(500))),
                    1 if !alloc && self.m.find(&Data::Sym).is_some() => {
                        let mut x = MSec::new(&name, if rela { SHT_RELA } else { SHT_REL }, flags, w, Data::Rel(gen_mrels(g, &self.m, ny, rela, 5)));
                        (x.link, x.entsize) = (self.m.find(&Data::Sym), w * (2 + rela as u64));
                        x.info_sec = some(g, &live);
                        x
                    }
                    2 if alloc && self.m.linked() && self.m.find(&Data::DSym).is_some() => {
                        let mut x = MSec::new(&name, if rela { SHT_RELA } else { SHT_REL }, flags, w, Data::DRel(gen_mrels(g, &self.m, nd, rela, 5)));
                        (x.link, x.entsize) = (self.m.find(&Data::DSym), w * (2 + rela as u64));
                        x
                    }
                    3 if !alloc => MSec::new(&name, SHT_GNU_ATTRIBUTES, 0, 1, Data::Attrs(gen_attrs(g, &self.m))),
                    4 => MSec::new(&name, SHT_NOTE, flags, g.pickc(&[4u64, 8, 0, 1]), Data::Bytes(g.blob(30))),
                    _ => MSec::new(&name, SHT_PROGBITS, flags, if g.chance(1, 6) { 0 } else { 1 << g.upto(6) }, Data::Bytes(g.blob(30))),
                };
                if !matches!(x.data, Data::Rel(_) | Data::DRel(_)) {
                    x.entsize = if g.chance(1, 4) { g.upto(20) } else { 0 };
                    x.info = if g.chance(1, 4) { g.u32() } else { 0 };
                    if g.chance(1, 4) {
                        x.link = some(g, &live);
                    }
                    if g.chance(1, 4) {
                        x.info_sec = some(g, &live);
                        if x.info_sec.is_some() {
                            x.flags |= SHF_INFO_LINK;
                        }
                    }
                }
                if alloc && x.ty == SHT_NOBITS && self.m.linked() {
                    self.place.push(self.m.secs.len());
                }
                if let Data::NoBits(n) = x.data {
                    x.size = n;
                }
                self.m.secs.push(x);
                self.sec.push(self.b.sections.add().id());
                self.put_sec(self.m.secs.len() - 1);
                if alloc { "add loaded section" } else { "add section" }
            }
            9 => {
                // Copy a section.
                let v: Vec<usize> = live.into_iter().filter(|&i| !self.m.secs[i].data.is_meta() && self.m.secs[i].ty != SHT_DYNAMIC && !(self.m.secs[i].ty == SHT_NOBITS && self.m.secs[i].alloc())).collect();
                let Some(i) = some(g, &v) else { return "" };
                let mut x = self.m.secs[i].clone();
                x.off = 0;
                self.m.secs.push(x);
                self.sec.push(self.b.sections.copy(self.sec[i]).id());
                "copy section"
            }
            10 | 11 => {
                let names = pool(g, self.m.syms.iter().map(|s| &s.name));
                let x = gen_msym(g, &self.m, &names, false);
                self.m.syms.push(x);
                self.sym.push(self.b.symbols.add().id());
                self.put_sym(self.m.syms.len() - 1);
                "add symbol"
            }
            12 | 13 => {
                if self.m.find(&Data::DSym).is_none() && g.chance(7, 8) {
                    return "";
                }
                let names = pool(g, self.m.dsyms.iter().map(|s| &s.name));
                let mut x = gen_msym(g, &self.m, &names, true);
                x.ver = self.pick_ver(g);
                x.hidden = g.bool();
                self.m.dsyms.push(x);
                self.dsym.push(self.b.dynamic_symbols.add().id());
                self.put_dsym(self.m.dsyms.len() - 1);
                "add dynamic symbol"
            }
            14 => {
                // A version, used by some symbol.
                if self.m.dsyms.is_empty() {
                    return "";
                }
                let d = if g.bool() && self.m.find(&Data::Verdef).is_some() {
                    VData::Def { flags: g.pickc(&[0u16, 2]), names: (0..g.range(1, 3)).map(|_| g.name(6)).collect() }
                } else if self.m.find(&Data::Verneed).is_some() || g.chance(1, 8) {
                    let v: Vec<usize> = (0..self.m.vfiles.len()).filter(|&i| !self.m.vfiles[i].del).collect();
                    let file = match some(g, &v) {
                        Some(i) if g.bool() => i,
                        _ => {
                            let name = g.name(6);
                            self.file.push(self.b.version_files.add(s(&name)));
                            self.m.vfiles.push(MFile { del: false, name });
                            self.m.vfiles.len() - 1
                        }
                    };
                    VData::Need { flags: g.pickc(&[0u16, 2]), name: g.name(6), file }
                } else {
                    return "";
                };
                let v = MVer { del: false, d };
                let d = self.version(&v);
                self.ver.push(self.b.versions.add(d));
                self.m.vers.push(v);
                let j = g.below(self.m.dsyms.len());
                self.m.dsyms[j].ver = Vr::Id(self.m.vers.len() - 1);
                self.put_dsym(j);
                "add version"
            }
            15 => {
                // Add a relocation.
                let v: Vec<usize> = live.into_iter().filter(|&i| matches!(self.m.secs[i].data, Data::Rel(_) | Data::DRel(_))).collect();
                let Some(i) = some(g, &v) else { return "" };
                let dynsym = self.m.find(&Data::DSym);
                let by_dyn = dynsym.is_some() && self.m.secs[i].link == dynsym;
                let rela = self.m.secs[i].ty == SHT_RELA;
                let n = match &self.m.secs[i].data {
                    Data::Rel(_) => self.m.syms.len(),
                    _ if by_dyn => self.m.dsyms.len(),
                    _ => 0,
                };
                let r = gen_mrel(g, &self.m, n, rela);
                match (&mut self.m.secs[i].data, &mut self.b.sections.get_mut(self.sec[i]).data) {
                    (Data::Rel(a), SectionData::Relocation(b)) => {
                        b.push(rel(&r, &self.sym));
                        a.push(r);
                    }
                    (Data::DRel(a), SectionData::DynamicRelocation(b)) => {
                        b.push(rel(&r, &self.dsym));
                        a.push(r);
                    }
                    _ => unreachable!(),
                }
                "add relocation"
            }
            16 | 17 => {
                let Some(i) = self.m.find(&Data::Dynamic(vec![])) else { return "" };
                let e = match g.upto(2) {
                    0 => (g.pickc(STRING_TAGS), DVal::Str(g.name(8))),
                    1 => (g.pickc(AUTO), DVal::Auto),
                    _ => (g.pickc(&[2i64, 7, 12, 21, 23, 30, 0x6ffffffb]), DVal::Int(g.uint(wb))),
                };
                let Data::Dynamic(a) = &mut self.m.secs[i].data else { unreachable!() };
                let SectionData::Dynamic(b) = &mut self.b.sections.get_mut(self.sec[i]).data else { unreachable!() };
                let at = g.below(a.len() + 1);
                b.insert(at, dynamic(e.0, &e.1));
                a.insert(at, e);
                "add dynamic entry"
            }
            18 => {
                let Some(i) = below(g, self.m.syms.len()) else { return "" };
                if self.m.syms[i].del {
                    return "";
                }
                let names = pool(g, self.m.syms.iter().map(|s| &s.name));
                self.m.syms[i] = gen_msym(g, &self.m, &names, false);
                self.put_sym(i);
                "change symbol"
            }
            19 => {
                let Some(i) = below(g, self.m.dsyms.len()) else { return "" };
                if self.m.dsyms[i].del {
                    return "";
                }
                let names = pool(g, self.m.dsyms.iter().map(|s| &s.name));
                let old = self.m.dsyms[i].clone();
                self.m.dsyms[i] = gen_msym(g, &self.m, &names, true);
                (self.m.dsyms[i].ver, self.m.dsyms[i].hidden) = if g.bool() { (old.ver, old.hidden) } else { (self.pick_ver(g), g.bool()) };
                self.put_dsym(i);
                "change dynamic symbol"
            }
            20 => {
                let Some(i) = some(g, &live) else { return "" };
                if self.m.secs[i].ty == SHT_STRTAB && !self.m.secs[i].data.is_meta() {
                    return ""; // recognised by name
                }
                let name = g.name(9);
                self.b.sections.get_mut(self.sec[i]).name = s(&name);
                self.m.secs[i].name = name;
                "rename section"
            }
            21 => {
                // Replace the contents.
                let v: Vec<usize> = live.into_iter().filter(|&i| matches!(self.m.secs[i].data, Data::Bytes(_))).collect();
                let Some(i) = some(g, &v) else { return "" };
                let Data::Bytes(a) = &mut self.m.secs[i].data else { unreachable!() };
                let (SectionData::Data(b) | SectionData::Note(b)) = &mut self.b.sections.get_mut(self.sec[i]).data else { unreachable!() };
                match g.upto(2) {
                    0 if !a.is_empty() => {
                        let at = g.below(a.len());
                        a[at] = !a[at];
                        b.to_mut()[at] = a[at];
                    }
                    1 => {
                        a.push(7);
                        b.to_mut().push(7);
                    }
                    _ => {
                        *a = g.blob(40);
                        *b = a.clone().into();
                    }
                }
                "change contents"
            }
            22 => {
                // Other section fields.
                let v: Vec<usize> = live.iter().copied().filter(|&i| !self.m.secs[i].data.is_meta() && !matches!(self.m.secs[i].data, Data::Rel(_) | Data::DRel(_) | Data::Dynamic(_) | Data::Attrs(_))).collect();
                let Some(i) = some(g, &v) else { return "" };
                let x = &mut self.m.secs[i];
                match g.upto(4) {
                    0 => x.link = some(g, &live),
                    1 => {
                        x.info_sec = some(g, &live);
                        x.flags |= SHF_INFO_LINK;
                    }
                    2 => x.entsize = g.upto(64),
                    3 => x.flags ^= SHF_WRITE,
                    _ if !x.alloc() => x.align = 1 << g.upto(6),
                    _ => x.flags ^= SHF_EXECINSTR,
                }
                if x.info_sec.is_none() {
                    x.flags &= !SHF_INFO_LINK;
                }
                self.put_sec(i);
                "change section"
            }
            23 => {
                self.m.h = Header { osabi: g.u8(), abiver: g.u8(), ety: self.m.h.ety, machine: self.m.h.machine, entry: g.uint(wb), flags: g.u32() };
                self.header();
                "change header"
            }
            24 => {
                let m = &mut self.m;
                match g.upto(2) {
                    0 if m.find(&Data::Hash).is_some() => m.nbucket = g.range(1, 7) as u32,
                    1 if m.find(&Data::Gnu).is_some() => {
                        m.gnu_nbucket = g.range(1, 7) as u32;
                        m.gnu_shift = g.upto(31) as u32;
                        m.gnu_bloom = 1 << g.upto(3);
                    }
                    2 if m.find(&Data::Verdef).is_some() => m.vbase = if g.bool() { None } else { Some(g.name(6)) },
                    _ => {}
                }
                self.params();
                "change parameters"
            }
            25 => {
                let v: Vec<usize> = (0..self.m.segs.len()).filter(|&i| !self.m.segs[i].del).collect();
                let Some(i) = some(g, &v) else { return "" };
                let (p, x) = (&mut self.m.segs[i].s, self.b.segments.get_mut(self.seg[i]));
                match g.upto(2) {
                    0 => p.flags = g.upto(7) as u32,
                    1 => p.paddr = g.uint(wb),
                    _ if p.ty != PT_LOAD => p.ty = g.pickc(&[PT_NOTE, 0x6474e550, 0x6474e552]),
                    _ => p.align = g.upto(1),
                }
                (x.p_type, x.p_flags, x.p_paddr, x.p_align) = (c::ProgramType(p.ty), c::ProgramFlags(p.flags), p.paddr, p.align);
                "change segment"
            }
            26 => {
                let Some(i) = below(g, self.m.segs.len()) else { return "" };
                let x = self.b.segments.copy(self.seg[i]);
                let p = &self.m.segs[i].s;
                let new = vh::elf::Seg { ty: p.ty, flags: p.flags, off: x.p_offset, vaddr: x.p_vaddr, paddr: x.p_paddr, filesz: 0, memsz: 0, align: p.align };
                self.seg.push(x.id());
                self.m.segs.push(MSeg { s: new, ..MSeg::default() });
                "copy segment"
            }
            _ => {
                let x = self.b.segments.add();
                let p = vh::elf::Seg { ty: 0x6474e551, flags: g.upto(7) as u32, align: g.pickc(&[0, 16]), ..vh::elf::Seg::default() };
                (x.p_type, x.p_flags, x.p_align) = (c::ProgramType(p.ty), c::ProgramFlags(p.flags), p.align);
                self.seg.push(x.id());
                if self.phoff == 0 {
                    self.phoff = if self.m.is64 { 64 } else { 52 };
                    self.b.header.e_phoff = self.phoff;
                }
                self.m.segs.push(MSeg { s: p, ..MSeg::default() });
                "add segment"
            }
        }
    }
    fn pick_ver(&self, g: &mut Gen) -> Vr {
        let v: Vec<usize> = (0..self.m.vers.len()).filter(|&i| !self.m.vers[i].del).collect();
        match g.upto(4) {
            0 => Vr::Local,
            1 => Vr::Global,
            _ => some(g, &v).map_or(Vr::Global, Vr::Id),
        }
    }

    // ------------------------------------------------------------ layout

    fn nseg(&self) -> usize {
        self.m.segs.iter().filter(|p| !p.del).count()
    }
    fn layout(&mut self, g: &mut Gen) -> R {
        if !self.m.linked() {
            return Ok(());
        }
        // What has to move.
        let mut mv: Vec<usize> = vec![];
        let n = self.nseg();
        for round in 0..2 {
            // What grew is moved out of the way even when there is room, for it has to be mapped.
            for i in self.m.conflicts(n + round) {
                if !mv.contains(&i) {
                    mv.push(i);
                }
            }
            for (i, x) in self.m.secs.iter().enumerate() {
                if x.alloc() && !x.del && x.ty != SHT_NOBITS && x.size > 0 && !mv.contains(&i) {
                    let ok = self.m.segs.iter().any(|p| !p.del && p.s.ty == PT_LOAD && x.off >= p.s.off && x.off + x.size <= p.s.off + p.s.filesz && x.addr.wrapping_sub(p.s.vaddr) == x.off - p.s.off);
                    if !ok {
                        mv.push(i);
                    }
                }
            }
            if mv.is_empty() && self.place.is_empty() {
                return Ok(());
            }
        }
        mv.retain(|&i| !self.m.secs[i].del);
        mv.extend(std::mem::take(&mut self.place).into_iter().filter(|&i| !self.m.secs[i].del));
        if mv.is_empty() {
            return Ok(());
        }
        for &i in &mv {
            for (p, &id) in self.m.segs.iter_mut().zip(&self.seg) {
                if p.s.ty == PT_LOAD {
                    p.secs.retain(|&x| x != i);
                    let sid = self.sec[i];
                    self.b.segments.get_mut(id).sections.retain(|&x| x != sid);
                }
            }
        }
        let align = g.pickc(&[0x40u64, 0x100, 0x1000]);
        let before: Vec<(u64, u64)> = self.m.segs.iter().filter(|p| !p.del && p.s.ty == PT_LOAD).map(|p| (p.s.vaddr, p.s.vaddr + p.s.memsz)).collect();
        let ends: Vec<u64> = self.m.segs.iter().filter(|p| !p.del).map(|p| p.s.off + p.s.filesz).collect();
        let flags = g.upto(7) as u32;
        let x = self.b.segments.add_load_segment(c::ProgramFlags(flags), align);
        let id = x.id();
        for &i in &mv {
            let y = self.b.sections.get_mut(self.sec[i]);
            let x = self.b.segments.get_mut(id);
            x.append_section(y);
            (self.m.secs[i].off, self.m.secs[i].addr) = (y.sh_offset, y.sh_addr);
        }
        let x = self.b.segments.get(id);
        let p = vh::elf::Seg { ty: PT_LOAD, flags, off: x.p_offset, vaddr: x.p_vaddr, paddr: x.p_vaddr, filesz: x.p_filesz, memsz: x.p_memsz, align };
        ensure!(p.off % align == p.vaddr % align, "new segment at {:#x}, offset {:#x} with alignment {align:#x}", p.vaddr, p.off);
        ensure!(before.iter().all(|&(a, b)| b <= p.vaddr || a >= p.vaddr + p.memsz || a == b || p.memsz == 0), "new segment at {:#x}+{:#x} among {before:x?}", p.vaddr, p.memsz);
        ensure!(ends.iter().all(|&e| e <= p.off || p.filesz == 0), "new segment at offset {:#x}, segments end at {ends:x?}", p.off);
        for &i in &mv {
            let y = &self.m.secs[i];
            ensure!(y.addr >= p.vaddr && y.addr + y.size <= p.vaddr + p.memsz || y.size == 0, "section {i} at {:#x}+{:#x} appended to a segment at {:#x}+{:#x}", y.addr, y.size, p.vaddr, p.memsz);
        }
        self.seg.push(id);
        self.m.segs.push(MSeg { del: false, s: p, secs: mv.clone() });
        // Other segments follow the sections that moved.
        for k in 0..self.m.segs.len() - 1 {
            let p = &mut self.m.segs[k];
            if p.s.ty == PT_LOAD || p.secs.iter().any(|&i| self.m.secs[i].ty == SHT_NOBITS) || !p.secs.iter().any(|i| mv.contains(i)) || g.chance(1, 4) {
                continue;
            }
            self.b.segments.get_mut(self.seg[k]).recalculate_ranges(&self.b.sections);
            (p.s.off, p.s.vaddr, p.s.filesz, p.s.memsz) = (0, 0, 0, 0);
            for &i in &p.secs {
                let x = &self.m.secs[i];
                let s = &mut p.s;
                if s.memsz == 0 {
                    (s.off, s.vaddr, s.filesz, s.memsz) = (x.off, x.addr, x.size, x.size);
                } else {
                    let (fe, me) = ((s.off + s.filesz).max(x.off + x.size), (s.vaddr + s.memsz).max(x.addr + x.size));
                    (s.off, s.vaddr) = (s.off.min(x.off), s.vaddr.min(x.addr));
                    (s.filesz, s.memsz) = (fe - s.off, me - s.vaddr);
                }
            }
            p.s.paddr = p.s.vaddr;
        }
        Ok(())
    }

    // ------------------------------------------------------------ writing

    /// Write, and compare with the model. The new file, if there is one.
    fn write(mut self, g: &mut Gen) -> R<Option<(Vec<u8>, Model)>> {
        let explicit = g.chance(7, 8);
        if explicit {
            self.b.delete_orphans();
            self.b.delete_unused_versions();
            self.b.set_section_sizes();
            self.m.delete_orphans();
            self.m.delete_unused_versions();
            for (i, x) in self.m.secs.iter_mut().enumerate() {
                if !x.del && x.alloc() {
                    let y = self.b.sections.get(self.sec[i]);
                    ensure_eq!(self.b.section_size(y), y.sh_size, "section_size of section {i}");
                    x.size = y.sh_size;
                }
            }
            let segs = self.b.segments.count();
            ensure_eq!(segs, self.nseg(), "segments after delete_orphans");
            ensure_eq!(self.b.program_headers_size(), (segs * self.m.img().phentsize()) as u64, "program_headers_size");
            ensure_eq!(self.b.file_header_size(), self.m.img().ehsize() as u64, "file_header_size");
        }
        let mut r = Recorder { default_zeros: g.bool(), ..Recorder::new() };
        let laid = explicit && g.chance(7, 8);
        if laid {
            self.layout(g)?;
        }
        // Without explicit sizes, the sizes are only known after the fact.
        let problem = self.m.problem().filter(|p| explicit || *p != "loaded sections overlap");
        if problem == Some(ODD) {
            let _ = self.b.write(&mut r);
            g.label(ODD);
            return Ok(None);
        }
        let want = if problem.is_some() {
            None
        } else {
            let mut m = self.m.clone();
            m.delete_orphans();
            m.delete_unused_versions();
            Some(m.compact()?)
        };
        let unmapped = self.unmapped || !laid || want.as_ref().is_some_and(|w| w.segs.iter().all(|p| p.s.ty != PT_LOAD)) || !self.place.is_empty();
        let out = self.b.write(&mut r);
        let Some(want) = want else {
            ensure!(out.is_err(), "written in spite of: {}", problem.unwrap());
            g.label(problem.unwrap());
            return Ok(None);
        };
        if let Err(e) = out {
            ensure!(!explicit, "Builder::write: unexpected error {e:?}");
            g.label("failed");
            return Ok(None);
        }
        r.check()?;
        let got = decode(&r.data)?;
        same(&got, &want)?;
        if explicit {
            for (i, (a, b)) in got.secs.iter().zip(&want.secs).enumerate() {
                if b.alloc() {
                    ensure_eq!(b.size, a.size, "section_size of written section {i} {:?}", String::from_utf8_lossy(&b.name));
                }
            }
        }
        if !unmapped {
            mapped(&got, &r.data)?;
        }
        Ok(Some((r.data, got)))
    }
}

fn some(g: &mut Gen, v: &[usize]) -> Option<usize> {
    if v.is_empty() { None } else { Some(*g.pick(v)) }
}
fn below(g: &mut Gen, n: usize) -> Option<usize> {
    if n == 0 { None } else { Some(g.below(n)) }
}
fn remove<A, B>(g: &mut Gen, a: &mut Vec<A>, b: &mut Vec<B>) {
    if let Some(i) = below(g, a.len()) {
        a.remove(i);
        b.remove(i);
    }
}
fn pool<'a>(g: &mut Gen, v: impl Iterator<Item = &'a Vec<u8>>) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = v.take(4).cloned().collect();
    v.push(g.name(8));
    v
}

fn edits(g: &mut Gen) -> R {
    let mut m = gen_model(g);
    let mut v = m.encode(g);
    g.file(&v)?;
    let mut total = 0;
    for round in 0..2 {
        let file = v.clone();
        let mut st = if round == 0 && g.chance(1, 4) { St::create(&m) } else { St::read(&file, &m)? };
        for _ in 0..g.range(1, 10) {
            let l = st.edit(g);
            if l != "" {
                g.label(l);
                total += 1;
            }
        }
        match st.write(g)? {
            None => {
                g.nontrivial_if(round == 1);
                return Ok(());
            }
            Some((out, got)) => (v, m) = (out, got),
        }
        // The builder does not read files without section headers.
        if g.bool() || m.secs.is_empty() {
            break;
        }
    }
    g.nontrivial_if(total > 1);
    g.label("written");
    g.sample(|| format!("{total} edits, {} sections, {} segments, {} + {} symbols", m.secs.len(), m.segs.len(), m.syms.len(), m.dsyms.len()));
    Ok(())
}

fn create(g: &mut Gen) -> R {
    let mut m = gen_model(g);
    let v = m.encode(g);
    g.file(&v)?;
    let mut want = m.clone();
    want.delete_unused_versions();
    let want = want.compact()?;
    let st = St::create(&m);
    let mut r = Recorder { default_zeros: g.bool(), ..Recorder::new() };
    must!(st.b.write(&mut r), "Builder::write");
    r.check()?;
    let got = decode(&r.data)?;
    same(&got, &want)?;
    mapped(&got, &r.data)?;
    g.nontrivial_if(m.secs.len() > 3);
    g.sample(|| format!("{} sections, {} segments, {} + {} symbols", m.secs.len(), m.segs.len(), m.syms.len(), m.dsyms.len()));
    Ok(())
}

/// Segment ranges always cover the sections appended to them.
fn segments(g: &mut Gen) -> R {
    let is64 = g.bool();
    let mut b = Builder::new(Endianness::Little, is64);
    let mut load: Vec<(u64, u64, u64, u64)> = vec![];
    for _ in 0..g.range(1, 4) {
        let is_load = g.chance(2, 3);
        let align = if g.chance(1, 8) { g.upto(1) } else { 1 << g.upto(12) };
        let id = if is_load {
            b.segments.add_load_segment(c::PF_R, align).id()
        } else {
            let p = b.segments.add();
            p.p_type = c::PT_NOTE;
            p.id()
        };
        let appended = is_load;
        let only_ranges = !is_load && g.bool();
        let mut secs = vec![];
        let mut end = (0, 0);
        for k in 0..g.range(1, 5) {
            let size = g.upto(100);
            let x = b.sections.add();
            let sid = x.id();
            let bss = only_ranges && g.chance(1, 3);
            x.sh_type = if bss { c::SHT_NOBITS } else { c::SHT_PROGBITS };
            let (w, e) = (g.bool(), g.bool());
            x.sh_flags = c::SHF_ALLOC | c::SectionFlags(if w { c::SHF_WRITE.0 } else { 0 } | if e { c::SHF_EXECINSTR.0 } else { 0 });
            ensure_eq!(x.p_flags().0, 4 | if w { 2 } else { 0 } | e as u32, "p_flags of a section with flags {:?}", x.sh_flags);
            x.sh_size = size;
            x.sh_addralign = if g.chance(1, 5) { 0 } else { 1 << g.upto(if align < 2 { 0 } else { align.trailing_zeros() as u64 }) };
            if !is_load {
                x.sh_offset = g.upto(1000);
                x.sh_addr = 0x10000 + x.sh_offset;
            }
            let p = b.segments.get_mut(id);
            let before = (p.p_offset, p.p_filesz, p.p_vaddr, p.p_memsz);
            if appended || !only_ranges && g.bool() {
                p.append_section(x);
            } else {
                p.append_section_range(x);
                p.sections.push(sid);
            }
            if appended {
                ensure!(x.sh_offset % x.sh_addralign.max(1) == 0 && x.sh_addr % x.sh_addralign.max(1) == 0, "section appended at {:#x}, offset {:#x} with alignment {}", x.sh_addr, x.sh_offset, x.sh_addralign);
                ensure!(k == 0 || x.sh_offset >= end.0 && x.sh_addr >= end.1, "section appended at {:#x}, offset {:#x} over the previous ending at {:#x}, offset {:#x}", x.sh_addr, x.sh_offset, end.1, end.0);
                ensure!(x.sh_offset >= before.0 + before.1 && x.sh_addr >= before.2 + before.3, "section appended at {:#x}, offset {:#x} inside {before:x?}", x.sh_addr, x.sh_offset);
            }
            end = (x.sh_offset + size, x.sh_addr + size);
            secs.push((sid, x.sh_offset, x.sh_addr, size, bss));
            if g.chance(1, 4) {
                let p = b.segments.get_mut(id);
                p.recalculate_ranges(&b.sections);
            }
            let p = b.segments.get(id);
            for (i, x) in secs.iter().enumerate() {
                if x.3 > 0 && x.4 {
                    ensure!(x.2 >= p.p_vaddr && x.2 + x.3 <= p.p_vaddr + p.p_memsz, "section {i} at {:#x}+{:#x} is not in its segment at {:#x}+{:#x}", x.2, x.3, p.p_vaddr, p.p_memsz);
                } else if x.3 > 0 {
                    ensure!(x.1 >= p.p_offset && x.1 + x.3 <= p.p_offset + p.p_filesz, "section {i} at offset {:#x}+{:#x} is not in its segment at offset {:#x}+{:#x}", x.1, x.3, p.p_offset, p.p_filesz);
                    ensure!(x.2 >= p.p_vaddr && x.2 + x.3 <= p.p_vaddr + p.p_memsz, "section {i} at {:#x}+{:#x} is not in its segment at {:#x}+{:#x}", x.2, x.3, p.p_vaddr, p.p_memsz);
                    ensure!(p.contains_address(x.2) && p.contains_offset(x.1) && p.contains_address(x.2 + x.3 - 1) && p.contains_offset(x.1 + x.3 - 1), "contains_address, contains_offset of section {i}");
                    ensure_eq!(p.address_from_offset(x.1), x.2, "address_from_offset of section {i}");
                }
            }
            // The segment covers no more of the file than its sections do.
            let end = secs.iter().map(|x| x.1 + if x.4 { 0 } else { x.3 }).max().unwrap_or(0);
            ensure!(p.p_filesz == 0 || p.p_offset + p.p_filesz <= end, "segment at offset {:#x}+{:#x} covers more than its sections, which end at {end:#x}", p.p_offset, p.p_filesz);
            let end = secs.iter().map(|x| x.2 + x.3).max().unwrap_or(0);
            ensure!(p.p_vaddr + p.p_memsz <= end, "segment at {:#x}+{:#x} covers more than its sections, which end at {end:#x}", p.p_vaddr, p.p_memsz);
            ensure!(!p.contains_offset(p.p_offset + p.p_filesz) && !p.contains_address(p.p_vaddr + p.p_memsz), "a segment contains its end");
            ensure_eq!(p.sections, secs.iter().map(|x| x.0).collect::<Vec<_>>(), "sections of the segment");
            ensure_eq!(p.p_vaddr, p.p_paddr, "p_paddr");
        }
        let p = b.segments.get(id);
        if is_load {
            ensure!(align < 2 || p.p_offset % align == p.p_vaddr % align, "load segment at {:#x}, offset {:#x} with alignment {align:#x}", p.p_vaddr, p.p_offset);
            for l in &load {
                ensure!(p.p_filesz == 0 || p.p_offset >= l.0 + l.1 && p.p_vaddr >= l.2 + l.3, "load segment at {:#x}, offset {:#x} overlaps {l:x?}", p.p_vaddr, p.p_offset);
            }
            load.push((p.p_offset, p.p_filesz, p.p_vaddr, p.p_memsz));
            let at = p.p_offset + p.p_filesz / 2;
            if p.p_filesz > 0 {
                let f = must_some!(b.segments.find_load_segment_from_offset(at), "find_load_segment_from_offset({at:#x})");
                ensure!(f.id() == id && f.is_load(), "find_load_segment_from_offset({at:#x}) found {:?}", f.id());
            }
        } else if g.bool() {
            let p = b.segments.get_mut(id);
            p.remove_sections();
            ensure!(p.p_filesz == 0 && p.p_memsz == 0 && p.sections.is_empty(), "remove_sections left {p:?}");
        }
    }
    g.nontrivial_if(load.len() > 1);
    Ok(())
}

fn main() {
    run(
        "C31",
        "a case is non-trivial when at least two edits were made and written, or a file with more than three sections was created",
        &[
            "a version that symbols use is deleted together with those uses, as nothing else says what they should become",
            "a segment that sections are appended to has at least their alignment, and no sections without file contents yet",
            "dynamic entries with plain numbers keep their number when the sections they describe move",
        ],
        &[sub("edits", 300_000, 20_000_000, edits), sub("create", 100_000, 5_000_000, create), sub("segments", 200_000, 5_000_000, segments)],
    )
}
