//! C01: any bytes parse to a value or an error, never a panic; iterators end; results lie in the input.
//!
//! Well formed files of every format from the encoders of the format checks are damaged, and everything the
//! public read API offers is computed on them. The crate is built with overflow checks and debug assertions.
use vh::{Gen, R, run, sub};

#[path = "../images.rs"]
mod images;
#[path = "../walk/mod.rs"]
mod walk;

use object::Endianness;
use object::read::ReadRef;
use walk::{W, coff, elf, macho, pe, u};

/// Exactly sized copies, so that the end of the input is the end of an allocation.
fn exact(v: &[u8]) -> Box<[u8]> {
    v.to_vec().into_boxed_slice()
}

fn finish(g: &mut Gen, w: W) -> R {
    let min = if w.len == 1 << 40 { 2 } else { 4 };
    for s in &w.seen {
        g.label(s);
    }
    g.label_if(w.left == 0, "cut short");
    g.nontrivial_if(w.seen.len() >= min);
    let (n, left, errors) = (w.seen.len(), w.left, w.errors);
    let len = w.len;
    g.sample(|| format!("{len} bytes: reached {n} kinds of things, {} items, {errors} errors", 60_000 - left));
    w.result()
}

/// Damaged files of every kind.
fn damaged(g: &mut Gen) -> R {
    let (kind, mut files) = if g.chance(2, 3) { (images::Kind::Object, vec![images::object(g)]) } else { images::other(g) };
    for i in 0..files.len() {
        let n = match g.upto(3) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => g.range(3, 12),
        };
        if i == 0 || g.chance(1, 3) {
            images::mutate(g, &mut files[i], n);
        }
    }
    walk_files(g, kind, files)
}

fn walk_files(g: &mut Gen, kind: images::Kind, files: Vec<Vec<u8>>) -> R {
    let files: Vec<Box<[u8]>> = files.iter().map(|f| exact(f)).collect();
    let all: Vec<&[u8]> = files.iter().map(|f| &**f).collect();
    g.files(&all)?;
    let Some(&d) = all.first() else { return Ok(()) };
    let mut w = W::new(all.clone());
    walk::all(&mut w, d);
    match kind {
        images::Kind::Cache => macho::cache_files(&mut w, d, &all[1..]),
        images::Kind::Signature => raw_macho(&mut w, d, Endianness::Big, &[]),
        images::Kind::Import => coff::import(&mut w, d),
        _ => {}
    }
    finish(g, w)
}

/// Magic numbers followed by noise, and two files spliced together.
fn noise(g: &mut Gen) -> R {
    let mut v = if g.bool() {
        let mut v = g.pickc(MAGIC).to_vec();
        let n = g.pickc(&[0usize, 8, 24, 60, 200, 1000]);
        for _ in 0..n {
            match g.upto(5) {
                0 | 1 => v.push(0),
                2 => v.push(g.upto(8) as u8),
                3 => v.push(g.u8()),
                _ => {
                    let x = images::value(g, n);
                    let b = x.to_le_bytes();
                    let k = g.pickc(&[2usize, 4, 8]);
                    v.extend(&b[..k]);
                }
            }
        }
        v
    } else {
        let (a, b) = (images::object(g), images::object(g));
        let (i, j) = (g.below(a.len() + 1), g.below(b.len() + 1));
        let mut v = a[..i].to_vec();
        v.extend(&b[j..]);
        v
    };
    let n = g.below(4);
    images::mutate(g, &mut v, n);
    walk_files(g, images::Kind::Object, vec![v])
}
const MAGIC: &[&[u8]] = &[
    b"\x7fELF\x01\x01\x01\0\0\0\0\0\0\0\0\0",
    b"\x7fELF\x02\x01\x01\0\0\0\0\0\0\0\0\0",
    b"\x7fELF\x01\x02\x01\0\0\0\0\0\0\0\0\0",
    b"\x7fELF\x02\x02\x01\0\0\0\0\0\0\0\0\0",
    b"\xfe\xed\xfa\xce",
    b"\xce\xfa\xed\xfe",
    b"\xfe\xed\xfa\xcf",
    b"\xcf\xfa\xed\xfe",
    b"\xca\xfe\xba\xbe\0\0\0\x02",
    b"\xca\xfe\xba\xbf\0\0\0\x02",
    b"dyld_v1  x86_64\0",
    b"dyld_v1  arm64e\0",
    b"!<arch>\n",
    b"!<thin>\n",
    b"<bigaf>\n",
    b"\0asm\x01\0\0\0",
    b"\x01\xdf",
    b"\x01\xf7",
    b"\x4c\x01",
    b"\x64\x86",
    b"\x64\xaa",
    b"\0\0\xff\xff\0\0\x64\x86",
    b"\0\0\xff\xff\x02\0\x64\x86\0\0\0\0\xc7\xa1\xba\xd1\xee\xba\xa9\x4b\xaf\x20\xfa\xf6\x6a\xa4\xdc\xb8",
    b"MZ\0\0",
];

fn raw_macho<'d>(w: &mut W<'d>, d: &'d [u8], e: Endianness, more: &[&'d [u8]]) {
    use object::read::macho as m;
    if let Some(s) = w.ok("raw signature", m::CodeSignature::parse(d)) {
        macho::signature(w, &s);
    }
    if let Some(c) = w.ok("raw code directory", m::CodeDirectory::parse(d)) {
        macho::directory(w, &c);
    }
    if let Some(f) = w.ok("raw chained fixups", m::DyldChainedFixups::parse(e, d)) {
        macho::chained(w, e, &f, &[&[d, d, &[][..]], more].concat());
    }
    // Linked edit data that is the whole input.
    use object::{U32, macho as x};
    let z = U32::new(e, 0);
    let n = U32::new(e, d.len() as u32);
    let s = U32::new(e, std::mem::size_of::<x::DyldInfoCommand<Endianness>>() as u32);
    let info = x::DyldInfoCommand { cmd: U32::new(e, x::LC_DYLD_INFO_ONLY), cmdsize: s, rebase_off: z, rebase_size: n, bind_off: z, bind_size: n, weak_bind_off: z, weak_bind_size: n, lazy_bind_off: z, lazy_bind_size: n, export_off: z, export_size: n };
    let max = w.max();
    if let Some(mut it) = w.ok("raw rebase operations", info.rebase_operations(e, d)) {
        w.steps("raw rebase operation", max, || it.next(), |_, x| u(format!("{x:?}")));
    }
    for it in [info.bind_operations(e, d), info.weak_bind_operations(e, d), info.lazy_bind_operations(e, d)] {
        if let Some(mut it) = w.ok("raw bind operations", it) {
            w.steps("raw bind operation", max, || it.next(), |_, x| u(format!("{x:?}")));
        }
    }
    for p in [4, 8] {
        if let Some(mut it) = w.ok("raw rebases", info.rebases(e, d, p)) {
            macho::rebases(w, || it.next());
        }
        for it in [info.binds(e, d, p), info.weak_binds(e, d, p), info.lazy_binds(e, d, p)] {
            if let Some(mut it) = w.ok("raw binds", it) {
                let mut n = 0;
                w.steps("raw bind", u64::MAX, || if n > 10_000 { Ok(None) } else { n += 1; it.next() }, |_, x| u(format!("{x:?}")));
            }
        }
    }
    if let Some(it) = w.ok("raw exports trie", info.exports_trie(e, d)) {
        macho::trie(w, it);
    }
    let link = x::LinkeditDataCommand { cmd: U32::new(e, x::LC_FUNCTION_STARTS), cmdsize: U32::new(e, 16), dataoff: z, datasize: n };
    for a in [0, u64::MAX] {
        if let Some(mut it) = w.ok("raw function starts", link.function_starts(e, d, a)) {
            w.steps("raw function start", max, || it.next(), |_, x| u(x));
        }
    }
}

/// Bytes given to the parsers of single tables.
fn tables(g: &mut Gen) -> R {
    let n = g.pickc(&[0usize, 4, 16, 40, 100, 300]);
    let mut v = vec![];
    let e = if g.bool() { Endianness::Little } else { Endianness::Big };
    if g.chance(1, 8) {
        v.push(b'A');
    }
    if g.chance(1, 8) {
        v.extend(if g.bool() { 0xfade0cc0u32 } else { 0xfade0c02 }.to_be_bytes());
    }
    while v.len() < n {
        match g.upto(7) {
            // Words with small values, opcodes, and anything.
            0..=2 => {
                let x = if g.chance(3, 4) { g.upto(12) * g.pickc(&[1, 4, 8]) } else { images::value(g, n) };
                let b = g.pickc(&[2usize, 4, 4, 8]);
                let le = x.to_le_bytes();
                match e {
                    Endianness::Little => v.extend(&le[..b]),
                    Endianness::Big => v.extend(le[..b].iter().rev()),
                }
            }
            3 => v.push((g.upto(15) << 4 | g.upto(15)) as u8),
            4 => v.extend([0x80, 0xff, 0xff, 0x7f]),
            5 => v.extend(b"name\0"),
            6 => v.push(0),
            _ => v.push(g.u8()),
        }
    }
    let mut more = vec![];
    let mut e = e;
    if g.bool() {
        let m = *g.pick(images::STREAMS);
        g.label(m.0);
        let f = g.capture(m.1);
        if let [be, s, rest @ ..] = &f[..] {
            e = if be[0] != 0 { Endianness::Big } else { Endianness::Little };
            v = s.clone();
            more = rest.iter().map(|x| exact(x)).collect();
            let n = g.below(4);
            images::mutate(g, &mut v, n);
        }
    }
    let v = exact(&v);
    let d = &*v;
    let more: Vec<&[u8]> = more.iter().map(|x| &**x).collect();
    let mut w = W::new([&[d], &more[..]].concat());
    use object::{elf as el, pe as p};
    let va = g.pickc(&[0u32, 0x1000, u32::MAX, u32::MAX - 100]);
    let align = g.pickc(&[0u64, 1, 2, 4, 8, 16, 0xffff_ffff]);
    elf::tables::<el::FileHeader32<Endianness>>(&mut w, d, e, align);
    elf::tables::<el::FileHeader64<Endianness>>(&mut w, d, e, align);
    pe::tables::<p::ImageNtHeaders32>(&mut w, d, va);
    pe::tables::<p::ImageNtHeaders64>(&mut w, d, va);
    raw_macho(&mut w, d, e, &more);
    coff::import(&mut w, d);
    u(elf_names(d));
    finish(g, w)
}
fn elf_names(d: &[u8]) -> (u32, u32) {
    (object::elf::hash(d), object::elf::gnu_hash(d))
}

/// A file followed by zeros up to the end of the address space.
#[derive(Clone, Copy, Debug)]
struct Sparse<'d> {
    data: &'d [u8],
    len: u64,
}
static ZEROS: [u8; 4096] = [0; 4096];
impl<'d> ReadRef<'d> for Sparse<'d> {
    fn len(self) -> Result<u64, ()> {
        Ok(self.len)
    }
    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'d [u8], ()> {
        let end = offset.checked_add(size).ok_or(())?;
        if end > self.len {
            return Err(());
        }
        if end <= self.data.len() as u64 {
            return Ok(&self.data[offset as usize..end as usize]);
        }
        if size <= 4096 && offset >= self.data.len() as u64 { Ok(&ZEROS[..size as usize]) } else { Err(()) }
    }
    fn read_bytes_at_until(self, range: std::ops::Range<u64>, delimiter: u8) -> Result<&'d [u8], ()> {
        if range.start > range.end || range.end > self.len {
            return Err(());
        }
        let n = self.data.len() as u64;
        if range.start >= n {
            return if delimiter == 0 && range.start < range.end { Ok(&[]) } else { Err(()) };
        }
        let d = &self.data[range.start as usize..range.end.min(n) as usize];
        match d.iter().position(|x| *x == delimiter) {
            Some(i) => Ok(&d[..i]),
            None if delimiter == 0 && range.end > n => Ok(d),
            None => Err(()),
        }
    }
}

/// Files whose offsets may be anything, because every offset can be read.
fn sparse(g: &mut Gen) -> R {
    let (kind, mut files) = if g.chance(3, 4) { (images::Kind::Object, vec![images::object(g)]) } else { images::other(g) };
    let Some(v) = files.get_mut(0) else { return Ok(()) };
    let n = g.range(0, 6);
    images::mutate(g, v, n);
    let v = exact(v);
    g.file(&v)?;
    let len = g.pickc(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, u32::MAX as u64, 1 << 33]);
    let d = Sparse { data: &v, len };
    // The slices may come from the zeros as well; the numbers of items are not bounded by this input.
    let mut w = W::new(vec![&v, &ZEROS]);
    w.len = 1 << 40;
    w.left = 10_000;
    u(object::read::FileKind::parse(d).is_ok());
    if let Ok(f) = object::read::File::parse(d) {
        w.saw("sparse file");
        bounded(&mut w, &f);
    }
    if kind == images::Kind::Archive {
        if let Some(a) = w.ok("sparse archive", object::read::archive::ArchiveFile::parse(d)) {
            for m in a.members().take(200).flatten() {
                u((m.name(), m.file_range(), m.data(d).is_ok()));
            }
            if let Ok(Some(it)) = a.symbols() {
                for s in it.take(200).flatten() {
                    u((s.name(), a.member(s.offset()).is_ok()));
                }
            }
        }
    }
    if kind == images::Kind::Cache {
        if let Some(c) = w.ok("sparse cache", object::read::macho::DyldCache::<Endianness, Sparse>::parse(d, &[])) {
            for m in c.mappings().take(100) {
                u((m.data().is_ok(), m.relocations().map(|x| x.take(1000).count()).is_ok()));
            }
            for i in c.images().take(100) {
                u((i.path().is_ok(), i.parse_object().is_ok()));
            }
        }
    }
    finish(g, w)
}

/// The parts of the unified interface that do not depend on the number of items.
fn bounded<'d, O: object::read::Object<'d>>(w: &mut W<'d>, f: &O) {
    use object::read::*;
    u((f.architecture(), f.kind(), f.entry(), f.flags(), f.build_id().is_ok(), f.gnu_debuglink().is_ok(), f.pdb_info().is_ok(), f.mach_uuid().is_ok()));
    for s in f.segments().take(50) {
        w.saw("segments");
        u((s.file_range(), s.data().is_ok(), s.data_range(s.address(), s.size()).is_ok(), s.name_bytes().is_ok(), s.align()));
    }
    for s in f.sections().take(50) {
        w.saw("sections");
        u((s.name_bytes().is_ok(), s.data().is_ok(), s.file_range(), s.compressed_file_range().is_ok(), s.kind(), s.align(), s.data_range(s.address(), 1).is_ok()));
        for (o, r) in s.relocations().take(50) {
            u((o, r.target(), r.addend()));
        }
    }
    for s in f.symbols().take(100).chain(f.dynamic_symbols().take(100)) {
        w.saw("symbols");
        u((s.name_bytes().is_ok(), s.address(), s.size(), s.kind(), s.section(), s.flags()));
    }
    for c in f.comdats().take(20) {
        u((c.name_bytes().is_ok(), c.sections().take(20).count()));
    }
    if let Some(it) = f.dynamic_relocations() {
        u(it.take(100).count());
    }
    if let Ok(it) = f.imports() {
        u(it.take(100).count());
    }
    if let Ok(it) = f.exports() {
        u(it.take(100).count());
    }
    if let Ok(it) = f.import_libraries() {
        u(it.take(100).count());
    }
}

fn main() {
    run(
        "C01",
        "a case is non-trivial when the walk reached at least four kinds of things (headers, tables, iterators with items) in its input, two in a sparse one",
        &[
            "an import table, bind opcodes, an exports trie and the chains of a dyld cache may legitimately describe more items than the input has bytes; only the first 10000 of them are read",
            "accessors with a documented precondition on the index (XCOFF auxiliary entries of symbols of another class) are only called where it holds",
        ],
        &[sub("damaged", 1_200_000, 60_000_000, damaged), sub("noise", 400_000, 20_000_000, noise), sub("tables", 600_000, 30_000_000, tables), sub("sparse", 300_000, 15_000_000, sparse)],
    )
}
