//! C32: the Mach-O builder against an independent model, with edits in lock step.
use object::Endianness;
use object::build::macho as bm;
use object::build::macho::{Builder, IndirectSymbol, LoadCommand, RelocationTarget, SectionData};
use object::macho as c;
use vh::b::*;
use vh::machomodel::*;
use vh::sink::*;
use vh::*;

struct St<'a> {
    b: Builder<'a>,
    m: Model,
    sec: Vec<bm::SectionId>,
    seg: Vec<bm::SegmentId>,
    sym: Vec<bm::SymbolId>,
    lib: Vec<bm::DylibId>,
}
fn s(v: &[u8]) -> object::build::ByteString<'static> {
    v.to_vec().into()
}
fn fixed(v: &[u8]) -> [u8; 16] {
    let mut out = [0; 16];
    out[..v.len()].copy_from_slice(v);
    out
}
fn lib(l: &MLib) -> bm::Dylib<'static> {
    bm::Dylib {
        delete: false,
        cmd: c::LoadCommandType(l.cmd),
        name: s(&l.name),
        timestamp: l.ts,
        current_version: c::Version(l.cur),
        compatibility_version: c::Version(l.compat),
    }
}

impl<'a> St<'a> {
    fn new(b: Builder<'a>, m: &Model) -> R<St<'a>> {
        let mut st = St {
            sec: b.sections.iter().map(|x| x.id()).collect(),
            seg: b.segments.iter().map(|x| x.id()).collect(),
            sym: b.symbols.iter().map(|x| x.id()).collect(),
            lib: vec![],
            m: m.clone(),
            b,
        };
        for c in &st.b.commands {
            if let LoadCommand::Dylib(id) = c {
                st.lib.push(*id);
            }
        }
        ensure_eq!((st.sec.len(), st.seg.len(), st.sym.len(), st.lib.len()), (m.secs.len(), m.segs.len(), m.syms.len(), m.libs.len()), "sections, segments, symbols and dylibs");
        Ok(st)
    }
    fn read(v: &'a [u8], m: &Model) -> R<St<'a>> {
        let st = St::new(must!(Builder::read(v), "Builder::read"), m)?;
        ensure_eq!((st.b.endian == Endianness::Big, st.b.is_64), (m.be, m.is64), "endian, is_64");
        for (i, x) in m.secs.iter().enumerate() {
            let y = st.b.sections.get(st.sec[i]);
            ensure_eq!((y.sectname(), y.segname(), y.addr, y.align, y.flags.0), (&x.name[..], &x.seg[..], x.addr, x.align, x.flags), "section {i}");
        }
        Ok(st)
    }
    fn rel(&self, r: &MRel) -> bm::Relocation {
        bm::Relocation {
            target: match r.t {
                Tgt::Sym(i) => RelocationTarget::Symbol(self.sym[i]),
                Tgt::Sec(i) => RelocationTarget::Section(self.sec[i]),
                Tgt::Val(v) => RelocationTarget::Absolute(v),
            },
            r_address: r.addr,
            r_pcrel: r.pcrel,
            r_length: r.len,
            r_type: c::RelocationType(r.ty),
        }
    }
    fn data(x: &MSec) -> SectionData<'static> {
        match &x.data {
            Some(d) => SectionData::Data(d.clone().into()),
            None => SectionData::UninitializedData(x.size as u32),
        }
    }
    fn add_sec(&mut self, x: MSec) -> usize {
        let ind = x
            .ind
            .iter()
            .map(|i| match i {
                Ind::Sym(i) => IndirectSymbol::Symbol(self.sym[*i]),
                Ind::Flags(f) => IndirectSymbol::Flags(c::IndirectSymbol(*f)),
            })
            .collect();
        let rels = x.rels.iter().map(|r| self.rel(r)).collect();
        let y = self.b.sections.add();
        y.sectname = fixed(&x.name);
        y.segname = fixed(&x.seg);
        y.addr = x.addr;
        y.align = x.align;
        y.flags = c::SectionFlags(x.flags);
        y.symbol_stub_size = x.stub;
        y.indirect_symbols = ind;
        y.relocations = rels;
        y.data = Self::data(&x);
        self.sec.push(y.id());
        self.m.secs.push(x);
        self.sec.len() - 1
    }
    fn add_seg(&mut self, x: MSeg) -> usize {
        let secs = x.secs.iter().map(|i| self.sec[*i]).collect();
        let y = self.b.segments.add();
        y.segname = fixed(&x.name);
        y.vmaddr = x.vmaddr;
        y.vmsize = x.vmsize;
        y.maxprot = c::VmProt(x.maxprot);
        y.initprot = c::VmProt(x.initprot);
        y.flags = c::SegmentFlags(x.flags);
        y.sections = secs;
        self.seg.push(y.id());
        self.m.segs.push(x);
        self.seg.len() - 1
    }
    fn add_sym(&mut self, x: MSym) -> usize {
        let sec = x.sec.map(|i| self.sec[i]);
        let y = self.b.symbols.add();
        y.name = s(&x.name);
        y.section = sec;
        y.n_type = c::SymbolFlags(x.ty);
        y.n_sect = x.nsect;
        y.n_desc = c::SymbolDesc(x.desc);
        y.n_value = x.value;
        y.indirect_name = x.indr.as_ref().map(|x| s(x));
        self.sym.push(y.id());
        self.m.syms.push(x);
        self.sym.len() - 1
    }
    fn command(&self, x: &Cmd) -> LoadCommand<'static> {
        match x {
            Cmd::Seg(i) => LoadCommand::Segment(self.seg[*i]),
            Cmd::Symtab => LoadCommand::Symtab,
            Cmd::Dysymtab => LoadCommand::Dysymtab,
            Cmd::Link(c0, d) => LoadCommand::LinkeditData { cmd: c::LoadCommandType(*c0), data: d.clone().into() },
            Cmd::Info(d) => LoadCommand::DyldInfo {
                rebase: d[0].clone().into(),
                bind: d[1].clone().into(),
                weak_bind: d[2].clone().into(),
                lazy_bind: d[3].clone().into(),
                export: d[4].clone().into(),
            },
            Cmd::Build(p, mi, sdk, t) => LoadCommand::BuildVersion(bm::BuildVersion {
                platform: c::Platform(*p),
                minos: c::Version(*mi),
                sdk: c::Version(*sdk),
                tools: t.iter().map(|t| bm::BuildToolVersion { tool: c::Tool(t.0), version: c::Version(t.1) }).collect(),
            }),
            Cmd::Lib(i) => LoadCommand::Dylib(self.lib[*i]),
            Cmd::Id(l) => LoadCommand::IdDylib(lib(l)),
            Cmd::Other(c0, d) => LoadCommand::Other { cmd: c::LoadCommandType(*c0), data: d.clone().into() },
        }
    }
    fn insert(&mut self, at: usize, x: Cmd) {
        let y = self.command(&x);
        self.b.commands.insert(at, y);
        self.m.cmds.insert(at, x);
    }
    /// Write both; `None` when neither can be written.
    fn write(mut self, g: &mut Gen) -> R<Option<(Vec<u8>, Model)>> {
        if g.chance(1, 3) {
            self.b.delete_orphans();
        }
        let want = self.m.compact();
        let problem = want.problem(&self.m);
        let page = self.b.page_size as u64;
        let mut r = Recorder { default_zeros: g.bool(), limit: 1 << 26, ..Recorder::new() };
        let res = self.b.write(&mut r);
        if let Some(p) = problem {
            g.label("cannot be written");
            ensure!(res.is_err(), "written despite: {p}");
            return Ok(None);
        }
        must!(res, "write");
        r.check()?;
        let got = decode(&r.data)?;
        same(&got, &want)?;
        signature(&r.data, &want)?;
        if !want.object() {
            let p = got.segs.iter().find(|p| p.name == b"__LINKEDIT");
            ensure!(p.is_none_or(|p| p.vmsize % page == 0), "__LINKEDIT of {:x?} with pages of {page:#x}", p.map(|p| p.vmsize));
        }
        if !want.object() && got.segs.iter().any(|p| p.file.1 > 0 && p.name != b"__LINKEDIT") {
            for p in &got.segs {
                ensure!(p.file.1 == 0 || p.file.0 % page == 0 && (p.file.1 % page == 0 || p.name == b"__LINKEDIT"), "segment at {:x?} with pages of {page:#x}", p.file);
            }
        }
        Ok(Some((r.data, want)))
    }
    fn free<T>(v: &[T], del: impl Fn(&T) -> bool) -> Vec<usize> {
        (0..v.len()).filter(|i| !del(&v[*i])).collect()
    }
    fn live_secs(&self) -> Vec<usize> {
        Self::free(&self.m.secs, |x| x.del)
    }
    fn live_syms(&self) -> Vec<usize> {
        Self::free(&self.m.syms, |x| x.del || x.sec.is_some_and(|s| self.m.secs[s].del))
    }

    fn edit(&mut self, g: &mut Gen) -> R {
        let (secs, syms, segs) = (self.live_secs(), self.live_syms(), Self::free(&self.m.segs, |x| x.del));
        match g.below(19) {
            0 if !secs.is_empty() => {
                g.label("delete section");
                let i = *g.pick(&secs);
                self.m.secs[i].del = true;
                self.b.sections.get_mut(self.sec[i]).delete = true;
            }
            1 | 2 if !syms.is_empty() => {
                let i = *g.pick(&syms);
                let used = self.m.secs.iter().any(|s| !s.del && s.ind.contains(&Ind::Sym(i)));
                if !used || g.chance(1, 12) {
                    g.label("delete symbol");
                    self.m.syms[i].del = true;
                    self.b.symbols.get_mut(self.sym[i]).delete = true;
                }
            }
            3 if !segs.is_empty() && g.chance(1, if self.m.object() { 12 } else { 3 }) => {
                g.label("delete segment");
                let i = *g.pick(&segs);
                self.m.segs[i].del = true;
                self.b.segments.get_mut(self.seg[i]).delete = true;
                if g.chance(3, 4) {
                    for j in self.m.segs[i].secs.clone() {
                        self.m.secs[j].del = true;
                        self.b.sections.get_mut(self.sec[j]).delete = true;
                    }
                }
            }
            4 if !self.m.libs.is_empty() => {
                g.label("delete dylib");
                let i = g.below(self.m.libs.len());
                self.m.libs[i].del = true;
                self.b.dylibs.get_mut(self.lib[i]).delete = true;
            }
            5 | 6 => {
                g.label("add section");
                let can_ind = self.m.cmds.contains(&Cmd::Dysymtab);
                let mut x = gen_sec(g, self.m.is64, 0, can_ind);
                for i in &mut x.ind {
                    if !syms.is_empty() && g.bool() {
                        *i = Ind::Sym(*g.pick(&syms));
                    }
                }
                if self.m.object() {
                    if g.bool() {
                        x.rels = gen_rels(g, self.m.cpu, x.size(), self.m.syms.len(), self.m.secs.len());
                        x.rels.iter_mut().for_each(|r| match r.t {
                            Tgt::Sym(_) if !syms.is_empty() => r.t = Tgt::Sym(*g.pick(&syms)),
                            Tgt::Sec(_) if !secs.is_empty() => r.t = Tgt::Sec(*g.pick(&secs)),
                            Tgt::Val(_) => {}
                            _ => r.t = Tgt::Val(0),
                        });
                    }
                    if g.chance(1, 40) {
                        x.align = g.pickc(&[31, 33, 63, 64, 0xffff_ffff]);
                    }
                } else if !segs.is_empty() {
                    x.align = 0;
                }
                let i = self.add_sec(x);
                if !segs.is_empty() && g.chance(15, 16) {
                    let j = *g.pick(&segs);
                    if self.m.segs[j].name == b"__LINKEDIT" {
                        return Ok(());
                    }
                    let p = &mut self.m.segs[j];
                    let at = if self.m.ft == 1 && g.chance(1, 3) { g.range(0, p.secs.len()) } else { p.secs.len() };
                    p.secs.insert(at, i);
                    if self.m.ft != 1 {
                        // After the others in the segment.
                        let end = p.secs.iter().filter(|k| **k != i).map(|k| self.m.secs[*k].addr.wrapping_add(self.m.secs[*k].size())).max().unwrap_or(p.vmaddr);
                        let end = if end == p.vmaddr && g.bool() { end.wrapping_add(0x800) } else { end };
                        self.m.secs[i].addr = end;
                        self.b.sections.get_mut(self.sec[i]).addr = end;
                    }
                    let id = self.sec[i];
                    let q = self.b.segments.get_mut(self.seg[j]);
                    q.sections.insert(at, id);
                }
            }
            7 | 8 => {
                g.label("add symbol");
                let places: Vec<(u64, u64)> = self.m.secs.iter().map(|s| (s.addr, s.size())).collect();
                let mut y = gen_sym(g, self.m.is64, &places);
                if let Some(k) = y.sec {
                    if self.m.secs[k].del {
                        if secs.is_empty() {
                            return Ok(());
                        }
                        y.sec = Some(secs[0]);
                    }
                    y.nsect = g.u8();
                }
                if self.m.cmds.contains(&Cmd::Symtab) || g.chance(1, 8) {
                    self.add_sym(y);
                }
            }
            9 if !syms.is_empty() => {
                g.label("rename symbol");
                let i = *g.pick(&syms);
                self.m.syms[i].name = g.name(14);
                let n = s(&self.m.syms[i].name);
                self.b.symbols.get_mut(self.sym[i]).name = n;
            }
            10 if !secs.is_empty() => {
                g.label("rename section");
                let i = *g.pick(&secs);
                self.m.secs[i].name = gen_name(g);
                self.b.sections.get_mut(self.sec[i]).sectname = fixed(&self.m.secs[i].name);
            }
            11 if !secs.is_empty() => {
                g.label("new contents");
                let i = *g.pick(&secs);
                let x = &mut self.m.secs[i];
                if x.entry(self.m.is64) > 0 {
                    return Ok(());
                }
                match &mut x.data {
                    Some(d) => *d = if g.chance(1, 3) { g.blob(100) } else { g.bytes(d.len()) },
                    None => x.size = g.upto(100),
                }
                let d = Self::data(x);
                self.b.sections.get_mut(self.sec[i]).data = d;
            }
            12 if !secs.is_empty() && (self.m.object() || g.chance(1, 10)) => {
                g.label("relocations");
                let i = *g.pick(&secs);
                let size = self.m.secs[i].size();
                let more = gen_rels(g, self.m.cpu, size, 0, 0);
                for mut r in more {
                    if matches!(r.t, Tgt::Val(0)) && !syms.is_empty() && g.bool() && r.ty != 1 && r.ty != 10 {
                        r.t = Tgt::Sym(*g.pick(&syms));
                    } else if matches!(r.t, Tgt::Val(0)) && g.bool() && r.ty != 1 && r.ty != 10 {
                        r.t = Tgt::Sec(*g.pick(&secs));
                    }
                    let y = self.rel(&r);
                    self.b.sections.get_mut(self.sec[i]).relocations.push(y);
                    self.m.secs[i].rels.push(r);
                }
            }
            13 if !syms.is_empty() && !secs.is_empty() => {
                g.label("move symbol");
                let (i, k) = (*g.pick(&syms), *g.pick(&secs));
                let x = &mut self.m.syms[i];
                if x.sec.is_some() {
                    x.sec = Some(k);
                    x.value = self.m.secs[k].addr;
                    let y = self.b.symbols.get_mut(self.sym[i]);
                    y.section = Some(self.sec[k]);
                    y.n_value = x.value;
                } else {
                    x.desc = g.u16();
                    self.b.symbols.get_mut(self.sym[i]).n_desc = c::SymbolDesc(x.desc);
                }
            }
            14 => {
                g.label("header");
                (self.m.flags, self.m.sub) = (g.u32(), g.u32());
                self.b.header.flags = c::FileFlags(self.m.flags);
                self.b.header.cpusubtype = c::CpuSubtype(self.m.sub);
            }
            15 | 16 => {
                g.label("add command");
                // Nothing adds a library.
                let x = gen_cmd(g, &mut vec![], self.m.is64, self.m.object());
                if matches!(x, Cmd::Lib(_)) {
                    return Ok(());
                }
                let at = g.range(0, self.m.cmds.len());
                self.insert(at, x);
            }
            17 if !self.m.cmds.is_empty() => {
                let at = g.below(self.m.cmds.len());
                let keep = match &self.m.cmds[at] {
                    Cmd::Seg(_) | Cmd::Symtab | Cmd::Lib(_) => !g.chance(1, 8),
                    Cmd::Dysymtab => true,
                    _ => false,
                };
                if !keep {
                    g.label("remove command");
                    self.m.cmds.remove(at);
                    self.b.commands.remove(at);
                }
            }
            18 if !segs.is_empty() => {
                g.label("segment");
                let i = *g.pick(&segs);
                let p = &mut self.m.segs[i];
                (p.maxprot, p.initprot, p.flags) = (g.u32(), g.u32(), g.u32());
                let y = self.b.segments.get_mut(self.seg[i]);
                (y.maxprot, y.initprot, y.flags) = (c::VmProt(p.maxprot), c::VmProt(p.initprot), c::SegmentFlags(p.flags));
                if self.m.ft == 1 && g.chance(1, 12) {
                    p.name = gen_name(g);
                    y.segname = fixed(&p.name);
                }
            }
            _ => return Ok(()),
        }
        Ok(())
    }
}

fn roundtrip(g: &mut Gen, object: bool) -> R {
    let m = gen_model(g, object);
    let page = if object { 0 } else { g.pickc(&[0x10, 0x100, 0x1000, 0x4000]) };
    let v = m.encode(g, page);
    let m = decode_with(&v, false).map_err(|f| Failure { sig: "encoder".into(), msg: format!("own encoder: {}", f.msg) })?;
    g.file(&v)?;
    g.sample(|| format!("{} {} bytes, cpu {:#x}, {} commands, {} sections, {} symbols", if object { "object" } else { "image" }, v.len(), m.cpu, m.cmds.len(), m.secs.len(), m.syms.len()));
    g.nontrivial_if(m.secs.len() > 1 && m.syms.len() > 1);
    let st = St::read(&v, &m)?;
    let Some((once, m)) = st.write(g)? else { fail!("an unchanged file cannot be written") };
    let st = St::read(&once, &m)?;
    let Some((twice, _)) = st.write(g)? else { fail!("a written file cannot be written again") };
    // The size of pages of an image depends on its offsets.
    ensure!(!object || once == twice, "the second pass writes other bytes: {} and {} bytes", once.len(), twice.len());
    Ok(())
}
fn objects(g: &mut Gen) -> R {
    roundtrip(g, true)
}
fn images(g: &mut Gen) -> R {
    roundtrip(g, false)
}

fn edits(g: &mut Gen, object: bool) -> R {
    let m = gen_model(g, object);
    let page = if object { 0 } else { g.pickc(&[0x10, 0x100, 0x1000, 0x4000]) };
    let v = m.encode(g, page);
    let m = decode_with(&v, false).map_err(|f| Failure { sig: "encoder".into(), msg: format!("own encoder: {}", f.msg) })?;
    g.file(&v)?;
    let mut st = St::read(&v, &m)?;
    let n = g.range(1, 6);
    for _ in 0..n {
        st.edit(g)?;
    }
    g.sample(|| format!("{} edits of {} bytes, cpu {:#x}, {} commands, {} sections, {} symbols", n, v.len(), m.cpu, m.cmds.len(), m.secs.len(), m.syms.len()));
    if let Some((w, m)) = st.write(g)? {
        g.nontrivial_if(n > 1);
        if g.chance(1, 4) {
            let mut st = St::read(&w, &m)?;
            st.edit(g)?;
            st.write(g)?;
        }
    }
    Ok(())
}
fn edit_objects(g: &mut Gen) -> R {
    edits(g, true)
}
fn edit_images(g: &mut Gen) -> R {
    edits(g, false)
}

/// Build a file from nothing, with addresses left to the builder.
fn create(g: &mut Gen) -> R {
    let mut m = gen_model(g, true);
    if g.chance(3, 4) {
        for i in 0..m.secs.len() {
            let a = m.secs[i].addr;
            m.secs[i].addr = 0;
            for y in m.syms.iter_mut().filter(|y| y.sec == Some(i)) {
                y.value = y.value.wrapping_sub(a);
                if !m.is64 {
                    y.value &= 0xffff_ffff;
                }
            }
        }
    }
    let b = Builder::new(if m.be { Endianness::Big } else { Endianness::Little }, m.is64);
    let mut st = St::new(b, &Model { be: m.be, is64: m.is64, cpu: m.cpu, sub: m.sub, ft: m.ft, flags: m.flags, ..Default::default() })?;
    st.b.header = bm::Header { cputype: c::CpuType(m.cpu), cpusubtype: c::CpuSubtype(m.sub), filetype: c::FileType(m.ft), flags: c::FileFlags(m.flags) };
    let secs = m.secs.len();
    for x in &m.secs {
        st.add_sec(MSec { rels: vec![], ind: vec![], ..x.clone() });
    }
    for x in &m.segs {
        st.add_seg(x.clone());
    }
    for x in &m.syms {
        st.add_sym(x.clone());
    }
    for i in 0..secs {
        let rels = m.secs[i].rels.iter().map(|r| st.rel(r)).collect();
        let ind = m.secs[i]
            .ind
            .iter()
            .map(|i| match i {
                Ind::Sym(i) => IndirectSymbol::Symbol(st.sym[*i]),
                Ind::Flags(f) => IndirectSymbol::Flags(c::IndirectSymbol(*f)),
            })
            .collect();
        let y = st.b.sections.get_mut(st.sec[i]);
        y.relocations = rels;
        y.indirect_symbols = ind;
        st.m.secs[i].rels = m.secs[i].rels.clone();
        st.m.secs[i].ind = m.secs[i].ind.clone();
    }
    for x in m.cmds.iter().filter(|x| !matches!(x, Cmd::Lib(_))) {
        let at = st.m.cmds.len();
        st.insert(at, x.clone());
    }
    for _ in 0..g.len(2) {
        st.edit(g)?;
    }
    g.nontrivial_if(secs > 1);
    if let Some((w, m)) = st.write(g)? {
        let st = St::read(&w, &m)?;
        st.write(g)?;
    }
    Ok(())
}

/// A code signature is at a multiple of 16.
fn signature(v: &[u8], m: &Model) -> R {
    let mut d = D::new(m.be, m.is64, v).at(m.hdr());
    for _ in 0..m.cmds.len() {
        let (cmd, len) = (must_some!(d.u32(), "command"), must_some!(d.u32(), "command"));
        let body = must_some!(d.bytes((len as usize).saturating_sub(8)), "command");
        if cmd == LC_CODE_SIGNATURE {
            let (o, n) = (must_some!(D::new(m.be, m.is64, body).u32(), "signature"), body.len());
            ensure!(n == 8 && o % 16 == 0, "code signature at {o:#x}");
        }
    }
    Ok(())
}

/// No more than 255 sections can be written.
fn many(g: &mut Gen) -> R {
    let (be, is64) = (g.bool(), g.bool());
    let m = Model { be, is64, cpu: if is64 { 0x0100_0007 } else { 18 }, ft: 1, ..Default::default() };
    let mut b = Builder::new(if be { Endianness::Big } else { Endianness::Little }, is64);
    b.header = bm::Header { cputype: c::CpuType(m.cpu), cpusubtype: c::CpuSubtype(0), filetype: c::FileType(1), flags: c::FileFlags(0) };
    let mut st = St::new(b, &m)?;
    let n = g.pickc(&[255usize, 256, 254, 257, 300, 513]);
    let parts = g.range(1, 3);
    let mut segs = vec![vec![]; parts];
    for i in 0..n {
        let k = g.below(parts);
        let data = g.blob(3);
        let at = st.add_sec(MSec { name: format!("s{i}").into_bytes(), seg: b"__X".to_vec(), size: data.len() as u64, data: Some(data), ..Default::default() });
        segs[k].push(at);
    }
    let k = if g.bool() { 0 } else { g.range(0, 4) };
    for _ in 0..k {
        let i = g.below(n);
        st.m.secs[i].del = true;
        st.b.sections.get_mut(st.sec[i]).delete = true;
    }
    for (i, secs) in segs.into_iter().enumerate() {
        let at = st.add_seg(MSeg { name: vec![], secs, ..Default::default() });
        st.insert(i, Cmd::Seg(at));
    }
    g.nontrivial();
    g.label(if n > 255 { "more than 255" } else { "up to 255" });
    if let Some((w, m)) = st.write(g)? {
        St::read(&w, &m)?.write(g)?;
    }
    Ok(())
}

/// Damaged files are read and written, or rejected.
fn damaged(g: &mut Gen) -> R {
    let object = g.bool();
    let m = gen_model(g, object);
    let mut v = m.encode(g, if object { 0 } else { 0x100 });
    for _ in 0..g.range(1, 4) {
        if v.is_empty() {
            break;
        }
        let size = v.len().min(if g.chance(3, 4) { 600 } else { usize::MAX });
        match g.below(8) {
            0 => v.truncate(g.range(0, v.len())),
            1 | 2 => {
                let i = g.below(size);
                v[i] = g.u8();
            }
            3 => {
                let i = g.below(size);
                v[i] ^= 1 << g.below(8);
            }
            _ => {
                let i = g.below(size) & !3;
                let x = match g.below(4) {
                    0 => g.pickc(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0, 64]),
                    1 => v.len() as u32,
                    _ => g.uint(32) as u32,
                };
                let x = if m.be { x.to_be_bytes() } else { x.to_le_bytes() };
                for k in 0..4 {
                    if let Some(y) = v.get_mut(i + k) {
                        *y = x[k];
                    }
                }
            }
        }
    }
    g.file(&v)?;
    g.sample(|| format!("{} bytes", v.len()));
    let Ok(mut b) = Builder::read(&v[..]) else {
        g.label("rejected");
        return Ok(());
    };
    g.nontrivial();
    if g.chance(1, 3) {
        let ids: Vec<_> = b.sections.iter().map(|x| x.id()).collect();
        if !ids.is_empty() {
            let id = *g.pick(&ids);
            b.sections.get_mut(id).delete = true;
        }
    }
    let mut r = Recorder { default_zeros: false, limit: 1 << 22, ..Recorder::new() };
    if b.write(&mut r).is_ok() {
        g.label("written");
        r.check()?;
        let st = must!(Builder::read(&r.data[..]), "reading what was written from a damaged file");
        drop(st);
    }
    Ok(())
}

/// What the builder does not handle is rejected or preserved, and references to nothing are rejected.
fn unsupported(g: &mut Gen) -> R {
    let object = g.chance(3, 4);
    let mut m = gen_model(g, object);
    let mut bad = false;
    let data: Vec<usize> = (0..m.secs.len()).filter(|i| m.secs[*i].data.is_some()).collect();
    let zero: Vec<usize> = (0..m.secs.len()).filter(|i| m.secs[*i].data.is_none()).collect();
    let mut word = None;
    let plain = |addr: u32, t: Tgt| MRel { addr, t, pcrel: false, len: 2, ty: 0 };
    match g.below(7) {
        0 | 1 if object => {
            g.label("command");
            let cmd = g.pickc(&[3, 4, 5, 6, 7, 8, 9, 10, 0xf, 0x10, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1c | 0x8000_0000, 0x22, 0x24, 0x25, 0x27, 0x2d, 0x31, 0x35, 0x36, 0x1234]);
            let n = 8 * g.range(1, 6);
            let body = g.bytes(n);
            let at = g.range(0, m.cmds.len());
            m.cmds.insert(at, Cmd::Other(cmd, body));
        }
        2 if object && !data.is_empty() && m.cpu != 0x0100_0007 => {
            g.label("scattered");
            let i = *g.pick(&data);
            let t = if m.syms.is_empty() || g.bool() { Tgt::Sec(g.below(m.secs.len())) } else { Tgt::Sym(g.below(m.syms.len())) };
            let mut r = plain(g.u32() | 0x8000_0000, t);
            r.ty = g.upto(9) as u8;
            m.secs[i].rels.push(r);
        }
        3 if m.is64 && object && !zero.is_empty() => {
            g.label("large");
            let i = *g.pick(&zero);
            m.secs[i].size = (1 << 32) + g.upto(100);
            m = m.compact();
        }
        4 if m.cmds.contains(&Cmd::Dysymtab) => {
            g.label("dysymtab");
            word = Some((g.pickc(&[7, 9, 11, 15, 17]), g.pickc(&[1u32, 2, 0x100])));
        }
        5 if object && !data.is_empty() => {
            g.label("bad relocation");
            bad = true;
            let i = *g.pick(&data);
            let (ns, ny) = (m.secs.len(), m.syms.len());
            let k = g.pickc(&[0usize, 0, 1, 1000, 0x7f_0000]);
            m.secs[i].rels.push(plain(0, if g.bool() { Tgt::Sym(ny + k) } else { Tgt::Sec(ns + k) }));
        }
        _ => {
            g.label("bad symbol");
            if m.cmds.contains(&Cmd::Symtab) {
                bad = true;
                let n = m.secs.len();
                m.syms.push(MSym { name: vec![0x61], ty: 0xe | g.pickc(&[0, 1, 0x10]), nsect: if g.bool() { 0 } else { (n as u64 + 1 + g.upto(9)).min(255) as u8 }, ..Default::default() });
            }
        }
    }
    let mut v = m.encode(g, if object { 0 } else { 0x100 });
    if let Some((k, x)) = word {
        let w = |o: usize| {
            let b: [u8; 4] = v[o..o + 4].try_into().unwrap();
            if m.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
        };
        let mut at = m.hdr();
        while w(at) != 0xb {
            at += w(at + 4) as usize;
        }
        let o = at + 8 + 4 * k;
        v[o..o + 4].copy_from_slice(&if m.be { x.to_be_bytes() } else { x.to_le_bytes() });
    }
    g.file(&v)?;
    g.sample(|| format!("{} bytes", v.len()));
    g.nontrivial();
    let Ok(b) = Builder::read(&v[..]) else {
        g.label("rejected");
        return Ok(());
    };
    ensure!(!bad, "a reference to nothing was accepted");
    let mut r = Recorder { limit: 1 << 26, ..Recorder::new() };
    if b.write(&mut r).is_ok() {
        g.label("written");
        let before = decode_with(&v, false)?;
        let after = decode(&r.data)?;
        same(&after, &before.compact())?;
    }
    Ok(())
}

fn main() {
    run(
        "C32",
        "a case is non-trivial when the file has more than one section and symbol, or at least two edits were written, or a damaged file was read",
        &[
            "in relocatable files sections keep their address unless they would overlap, and symbols move with their section; contents of relocated places are the caller's business",
            "fields that are computed: sizes and offsets, reserved1 of sections, symbol order (local, defined, undefined), numbers of symbols and sections",
            "the reserved word of the header and the reserved3 word of sections are zero",
            "library ordinals in n_desc are not renumbered",
        ],
        &[
            sub("objects", 500_000, 50_000_000, objects),
            sub("edit-objects", 800_000, 80_000_000, edit_objects),
            sub("create", 200_000, 20_000_000, create),
            sub("images", 100_000, 10_000_000, images),
            sub("edit-images", 200_000, 10_000_000, edit_images),
            sub("damaged", 500_000, 50_000_000, damaged),
            sub("many", 1_000, 30_000, many),
            sub("unsupported", 200_000, 10_000_000, unsupported),
        ],
    )
}
