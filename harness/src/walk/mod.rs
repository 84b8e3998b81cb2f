//! Walks everything that can be reached from some bytes through the public read API: values are computed and
//! dropped, iterations are counted, and returned byte ranges must lie in the input.
#![allow(dead_code)]
use vh::*;

pub mod archive;
pub mod coff;
pub mod elf;
pub mod macho;
pub mod pe;
pub mod xcoff;

/// Keeps a value from being optimised away.
pub fn u<T>(v: T) {
    std::hint::black_box(v);
}

pub struct W<'d> {
    pub inputs: Vec<&'d [u8]>,
    /// Items left before the walk is cut short.
    pub left: u64,
    /// Things reached.
    pub seen: Vec<&'static str>,
    pub errors: u64,
    pub fail: Option<Failure>,
    pub len: u64,
}

impl<'d> W<'d> {
    pub fn new(inputs: Vec<&'d [u8]>) -> W<'d> {
        let len = inputs.iter().map(|x| x.len() as u64).sum();
        W { inputs, left: 60_000, seen: vec![], errors: 0, fail: None, len }
    }
    pub fn saw(&mut self, what: &'static str) {
        if !self.seen.contains(&what) {
            self.seen.push(what);
        }
    }
    fn failed(&mut self, what: &str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(Failure { sig: what.to_string(), msg: format!("{what}: {msg}") });
        }
    }
    /// A slice returned by the reader is a part of the input.
    pub fn inside(&mut self, what: &'static str, v: &[u8]) {
        if v.is_empty() {
            return;
        }
        let (a, b) = (v.as_ptr() as usize, v.as_ptr() as usize + v.len());
        if !self.inputs.iter().any(|d| d.as_ptr() as usize <= a && b <= d.as_ptr() as usize + d.len()) {
            self.failed(what, format!("{} bytes from outside the input", v.len()));
        }
        u(v[0] ^ v[v.len() - 1]);
    }
    pub fn bytes<E>(&mut self, what: &'static str, v: Result<&[u8], E>) -> bool {
        match v {
            Ok(v) => {
                self.inside(what, v);
                true
            }
            Err(_) => {
                self.errors += 1;
                false
            }
        }
    }
    pub fn obytes<E>(&mut self, what: &'static str, v: Result<Option<&[u8]>, E>) {
        if let Some(v) = v.transpose() {
            self.bytes(what, v);
        }
    }
    /// An array of plain data lies in the input.
    pub fn array<T>(&mut self, what: &'static str, v: &[T]) {
        let n = std::mem::size_of_val(v);
        let (a, b) = (v.as_ptr() as usize, v.as_ptr() as usize + n);
        if n != 0 && !self.inputs.iter().any(|d| d.as_ptr() as usize <= a && b <= d.as_ptr() as usize + d.len()) {
            self.failed(what, format!("{} items from outside the input", v.len()));
        }
    }
    pub fn ok<T, E>(&mut self, what: &'static str, v: Result<T, E>) -> Option<T> {
        match v {
            Ok(v) => {
                self.saw(what);
                Some(v)
            }
            Err(_) => {
                self.errors += 1;
                None
            }
        }
    }
    pub fn some<T, E>(&mut self, what: &'static str, v: Result<Option<T>, E>) -> Option<T> {
        match v {
            Ok(Some(v)) => {
                self.saw(what);
                Some(v)
            }
            Ok(None) => None,
            Err(_) => {
                self.errors += 1;
                None
            }
        }
    }
    /// Run through an iterator, which must have ended after `max` items.
    pub fn each<I: Iterator>(&mut self, what: &'static str, max: u64, it: I, mut f: impl FnMut(&mut Self, I::Item)) {
        let mut n = 0u64;
        let mut it = it;
        while let Some(x) = it.next() {
            if n == 0 {
                self.saw(what);
            }
            n += 1;
            if n > max {
                self.failed(what, format!("more than {max} items from {} bytes", self.len));
                return;
            }
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            f(self, x);
        }
        // Once more after the end.
        if it.next().is_some() && it.take(max as usize + 1).count() as u64 > max {
            self.failed(what, "goes on without end after its end".into());
        }
    }
    /// Run through an iterator of results, which must have ended after an error.
    pub fn results<T, E, I: Iterator<Item = Result<T, E>>>(&mut self, what: &'static str, max: u64, it: I, f: impl FnMut(&mut Self, Result<T, E>)) {
        let mut failed = false;
        let mut bad = false;
        let it = it.inspect(|x| {
            bad |= failed;
            failed |= x.is_err();
        });
        self.each(what, max, it, f);
        if bad {
            self.failed(what, "iteration continues after an error".into());
        }
    }
    /// Run through a fallible iterator, which must have ended after `max` items and errors.
    pub fn steps<T, E>(&mut self, what: &'static str, max: u64, mut next: impl FnMut() -> Result<Option<T>, E>, mut f: impl FnMut(&mut Self, T)) {
        let mut n = 0u64;
        loop {
            n += 1;
            if n > max {
                self.failed(what, format!("more than {max} items and errors from {} bytes", self.len));
                return;
            }
            match next() {
                Ok(None) => break,
                Ok(Some(x)) => {
                    self.saw(what);
                    if self.left == 0 {
                        return;
                    }
                    self.left -= 1;
                    f(self, x)
                }
                Err(_) => {
                    self.errors += 1;
                    if !GO_ON.contains(&what) && !matches!(next(), Ok(None)) {
                        self.failed(what, "iteration continues after an error".into());
                    }
                    if self.left == 0 {
                        return;
                    }
                    self.left -= 1;
                }
            }
        }
        let _ = next();
    }
    /// More items than any iteration over the input may have, where every item takes at least one byte.
    pub fn max(&self) -> u64 {
        self.len + 64
    }
    pub fn result(self) -> R {
        match self.fail {
            Some(f) => Err(f),
            None => Ok(()),
        }
    }
}

/// Iterations over the entries of an array, where an error of one entry says nothing of the next.
const GO_ON: &[&str] = &["attribute tag", "chained segment", "blob"];

/// Reads of a string table at interesting offsets.
pub fn strings<'d>(w: &mut W<'d>, t: object::read::StringTable<'d, &'d [u8]>) {
    for i in [0, 1, 2, 4, w.len as u32 / 2, w.len as u32, 0x7fff_ffff, u32::MAX - 1, u32::MAX] {
        w.bytes("string", t.get(i));
    }
}

pub fn addresses(list: &mut Vec<u64>, a: u64, n: u64) {
    if list.len() < 200 {
        list.extend([a, a.wrapping_sub(1), a.wrapping_add(1), a.wrapping_add(n), a.wrapping_add(n).wrapping_sub(1), a.wrapping_add(n / 2)]);
    }
}

pub fn unified<'d, O: object::read::Object<'d>>(w: &mut W<'d>, f: &O) {
    use object::read::*;
    w.saw("unified");
    let max = w.max();
    u((f.architecture(), f.sub_architecture(), f.endianness(), f.is_64(), f.kind(), f.relative_address_base(), f.entry(), f.flags(), f.has_debug_symbols()));
    u(f.mach_uuid().is_ok());
    w.obytes("build id", f.build_id());
    if let Ok(Some((a, _))) = f.gnu_debuglink() {
        w.inside("debuglink", a);
    }
    if let Ok(Some((a, b))) = f.gnu_debugaltlink() {
        w.inside("debugaltlink", a);
        w.inside("debugaltlink", b);
    }
    if let Ok(Some(p)) = f.pdb_info() {
        w.inside("pdb", p.path());
        u((p.age(), p.guid()));
    }
    let mut adr = vec![0, 1, u32::MAX as u64, u64::MAX, f.entry()];
    w.each("segments", max, f.segments(), |w, s| {
        u((s.address(), s.size(), s.align(), s.file_range(), s.flags(), s.permissions()));
        w.obytes("segment name", s.name_bytes());
        u(s.name().is_ok());
        w.bytes("segment data", s.data());
        let (a, n) = (s.address(), s.size());
        let mut l = vec![0, u64::MAX];
        addresses(&mut l, a, n);
        for x in l {
            for n in [0, 1, n, n.wrapping_add(1), u64::MAX, u64::MAX - x] {
                w.obytes("segment range", s.data_range(x, n));
            }
        }
    });
    w.each("sections", max, f.sections(), |w, s| section(w, f, &s, &mut adr));
    w.each("comdats", max, f.comdats(), |w, c| {
        u((c.kind(), c.symbol()));
        w.bytes("comdat name", c.name_bytes());
        u(c.name().is_ok());
        w.each("comdat sections", max, c.sections(), |_, i| {
            u(f.section_by_index(i).is_ok());
        });
    });
    let mut names = vec![];
    w.each("symbols", max, f.symbols(), |w, y| {
        symbol(w, &y);
        addresses(&mut adr, y.address(), y.size());
        if names.len() < 8 {
            names.push(y.name_bytes().unwrap_or_default());
        }
        u(f.symbol_by_index(y.index()).is_ok());
    });
    w.each("dynamic symbols", max, f.dynamic_symbols(), |w, y| {
        symbol(w, &y);
        if names.len() < 16 {
            names.push(y.name_bytes().unwrap_or_default());
        }
    });
    if let Some(t) = f.symbol_table() {
        w.each("symbol table", max, t.symbols(), |_, y| u(t.symbol_by_index(y.index()).is_ok()));
    }
    if let Some(t) = f.dynamic_symbol_table() {
        w.each("dynamic symbol table", max, t.symbols(), |_, y| u(t.symbol_by_index(y.index()).is_ok()));
    }
    let n = w.len as usize;
    for i in (0..12).chain([n / 100, n / 18, n, u16::MAX as usize, u32::MAX as usize - 1, u32::MAX as usize, usize::MAX / 2, usize::MAX / 18, usize::MAX - 1, usize::MAX]) {
        if let Ok(s) = f.section_by_index(SectionIndex(i)) {
            section(w, f, &s, &mut adr);
        }
        if let Ok(y) = f.symbol_by_index(SymbolIndex(i)) {
            symbol(w, &y);
        }
        for t in [f.symbol_table(), f.dynamic_symbol_table()].into_iter().flatten() {
            if let Ok(y) = t.symbol_by_index(SymbolIndex(i)) {
                symbol(w, &y);
            }
        }
    }
    for x in [&b".debug_info"[..], b".text", b"__text", b"nothing", b"", b"\xff"] {
        u(f.section_by_name_bytes(x).is_some());
        u(std::str::from_utf8(x).ok().and_then(|x| f.section_by_name(x)).is_some());
    }
    for x in names {
        u(f.symbol_by_name_bytes(x).is_some());
        u(std::str::from_utf8(x).ok().and_then(|x| f.symbol_by_name(x)).is_some());
    }
    if let Some(it) = f.dynamic_relocations() {
        // A bitmap word of relative relocations stands for up to 64 of them.
        w.each("dynamic relocations", max * 64, it, |_, (o, r)| u((o, format!("{r:?}"))));
    }
    if let Some(it) = w.ok("libraries", f.import_libraries()) {
        w.each("library", max, it, |w, x| {
            if let Ok(x) = x {
                w.inside("library name", x.name());
                u(x.flags());
            }
        });
    }
    // Descriptors may share thunks, opcodes repeat and tries share nodes: the bound is not linear.
    if let Some(it) = w.ok("imports", f.imports()) {
        w.each("import", u64::MAX, it.take(10_000), |w, x| {
            if let Ok(x) = x {
                w.inside("import library", x.library());
                if let Some(n) = x.name().name() {
                    w.inside("import name", n);
                }
                u((x.is_weak(), x.flags()));
            }
        });
    }
    if let Some(it) = w.ok("exports", f.exports()) {
        w.each("export", u64::MAX, it.take(10_000), |_, x| {
            if let Ok(x) = x {
                u((x.name(), x.target(), x.is_weak(), x.flags()));
            }
        });
    }
    let m = f.symbol_map();
    w.each("symbol map", max, m.symbols().iter(), |_, y| u((y.address(), y.size(), y.name())));
    let o = f.object_map();
    w.each("object map", max, o.symbols().iter(), |w, y| {
        w.inside("object map name", y.name());
        u((y.address(), y.size(), y.object(&o).path(), y.object(&o).member()));
    });
    for a in adr {
        u((m.get(a).is_some(), m.containing(a).is_some(), m.before(a).is_some(), o.get(a).is_some()));
    }
}

fn symbol<'d>(w: &mut W<'d>, y: &impl object::read::ObjectSymbol<'d>) {
    w.bytes("symbol name", y.name_bytes());
    u(y.name().is_ok());
    u((y.index(), y.address(), y.size(), y.kind(), y.section(), y.section_index(), y.flags(), y.scope()));
    u((y.is_undefined(), y.is_definition(), y.is_common(), y.is_weak(), y.is_global(), y.is_local()));
}

fn section<'d, O: object::read::Object<'d>>(w: &mut W<'d>, f: &O, s: &impl object::read::ObjectSection<'d>, adr: &mut Vec<u64>) {
    if w.left == 0 {
        return;
    }
    u((s.index(), s.address(), s.size(), s.align(), s.file_range(), s.kind(), s.flags()));
    // Known Wasm sections are named by the reader.
    match s.name_bytes() {
        Ok(n) if w.inputs[0].starts_with(b"\0asm") => u(n),
        n => {
            w.bytes("section name", n);
        }
    }
    u(s.name().is_ok());
    w.obytes("section segment", s.segment_name_bytes());
    u(s.segment_name().is_ok());
    w.bytes("section data", s.data());
    u(s.compressed_file_range().map(|r| (r.format, r.offset, r.compressed_size, r.uncompressed_size)).ok());
    if let Ok(c) = s.compressed_data() {
        w.inside("compressed data", c.data);
        if c.uncompressed_size <= 1 << 20 {
            u(c.decompress().is_ok());
            u(s.uncompressed_data().is_ok());
        }
    }
    let (a, n) = (s.address(), s.size());
    let mut l = vec![0, u64::MAX];
    addresses(&mut l, a, n);
    addresses(adr, a, n);
    for x in l {
        for n in [0, 1, n, n.wrapping_add(1), u64::MAX, u64::MAX - x] {
            w.obytes("section range", s.data_range(x, n));
        }
    }
    let mut offs = vec![];
    w.each("relocations", w.max() * 64, s.relocations(), |_, (o, r)| {
        u((r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.has_implicit_addend(), r.flags()));
        u(format!("{r:?}"));
        if offs.len() < 50 {
            offs.push(o);
        }
    });
    if let Ok(m) = s.relocation_map() {
        w.saw("relocation map");
        offs.extend([0, u64::MAX]);
        for o in offs {
            u((m.relocate(o, 0), m.relocate(o, u64::MAX)));
        }
    }
    let _ = f;
}

fn hash(d: &[u8]) -> u64 {
    d.iter().fold(1, |a, x| (a ^ *x as u64).wrapping_mul(0x100_0000_01b3)) >> 20
}

/// Format a value, up to some length.
pub fn show(v: &dyn std::fmt::Debug) {
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
            Ok(())
        }
    }
    use std::fmt::Write;
    u(write!(Sink(100_000), "{v:?}").is_ok());
    u(write!(Sink(2_000), "{v:#?}").is_ok());
}

/// Everything that can be reached can be formatted.
fn debug<'d>(w: &mut W<'d>, f: &object::read::File<'d>) {
    use object::read::*;
    w.saw("formatted");
    show(f);
    f.segments().take(20).for_each(|x| show(&x));
    for x in f.sections().take(40) {
        show(&x);
        show(&x.compressed_data());
        x.relocations().take(20).for_each(|r| show(&r));
        show(&x.relocations());
    }
    f.comdats().take(20).for_each(|x| show(&x));
    f.symbols().chain(f.dynamic_symbols()).take(50).for_each(|x| show(&x));
    show(&f.symbol_table());
    show(&(f.segments(), f.sections(), f.comdats(), f.symbols(), f.dynamic_symbols(), f.dynamic_relocations()));
    if let Ok(it) = f.imports() {
        show(&it);
        it.take(50).for_each(|x| show(&x));
    }
    if let Ok(it) = f.import_libraries() {
        show(&it);
        it.take(50).for_each(|x| show(&x));
    }
    if let Ok(it) = f.exports() {
        show(&it);
        it.take(50).for_each(|x| show(&x));
    }
    show(&f.object_map());
    show(&f.symbol_map());
    show(&(f.pdb_info(), f.flags(), f.kind(), f.endianness(), f.build_id()));
}

/// Everything that takes some bytes.
pub fn all<'d>(w: &mut W<'d>, d: &'d [u8]) {
    use object::read::{File, FileKind};
    for o in [0, 1, 4, d.len() as u64 / 2, d.len() as u64, u64::MAX - 3, u64::MAX] {
        u(FileKind::parse_at(d, o).is_ok());
    }
    let kind = FileKind::parse(d);
    if let Ok(f) = File::parse(d) {
        w.saw("file");
        unified(w, &f);
        if hash(d) % 32 == 0 {
            debug(w, &f);
        }
    }
    let Ok(kind) = kind else { return };
    use object::{Endianness as E, elf as e, macho as m, pe as p, xcoff as x};
    match kind {
        FileKind::Elf32 => elf::file::<e::FileHeader32<E>>(w, d),
        FileKind::Elf64 => elf::file::<e::FileHeader64<E>>(w, d),
        FileKind::Coff => coff::file::<p::ImageFileHeader>(w, d),
        FileKind::CoffBig => coff::file::<p::AnonObjectHeaderBigobj>(w, d),
        FileKind::CoffImport => coff::import(w, d),
        FileKind::Pe32 => pe::file::<p::ImageNtHeaders32>(w, d),
        FileKind::Pe64 => pe::file::<p::ImageNtHeaders64>(w, d),
        FileKind::MachO32 => macho::file::<m::MachHeader32<E>>(w, d),
        FileKind::MachO64 => macho::file::<m::MachHeader64<E>>(w, d),
        FileKind::MachOFat32 => macho::fat::<m::FatArch32>(w, d),
        FileKind::MachOFat64 => macho::fat::<m::FatArch64>(w, d),
        FileKind::DyldCache => macho::cache(w, d),
        FileKind::Xcoff32 => xcoff::file::<x::FileHeader32>(w, d),
        FileKind::Xcoff64 => xcoff::file::<x::FileHeader64>(w, d),
        FileKind::Archive => archive::file(w, d),
        _ => {}
    }
}
