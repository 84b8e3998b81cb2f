//! C08: ELF notes, properties, attributes, groups and links are read exactly.
use object::elf;
use object::endian::*;
use object::read::elf::{AttributesSection, FileHeader, NoteIterator, ProgramHeader as _, SectionHeader as _};
use object::read::*;
use vh::elf::{k::*, *};
use vh::b::*;
use vh::*;

// ------------------------------------------------------------------ reference decoders

#[derive(Clone, Debug, PartialEq)]
struct Note {
    ty: u32,
    name: Vec<u8>,
    desc: Vec<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    Err,
    /// The data ends inside the padding in a way the specification leaves open.
    Open,
}

fn up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

fn ref_notes(be: bool, align: usize, v: &[u8]) -> (Vec<Note>, End) {
    let (mut p, mut out) = (0, vec![]);
    loop {
        if p >= v.len() {
            return (out, End::Ok);
        }
        let mut d = D::new(be, false, &v[p..]);
        let mut get = || Some((d.u32()? as usize, d.u32()? as usize, d.u32()?));
        let Some((nsz, dsz, ty)) = get() else { return (out, End::Err) };
        let rest = v.len() - p;
        if 12 + nsz > rest {
            return (out, End::Err);
        }
        let o = up(12 + nsz, align);
        if dsz == 0 && o > rest {
            return (out, End::Open);
        }
        if o + dsz > rest {
            return (out, End::Err);
        }
        out.push(Note { ty, name: v[p + 12..p + 12 + nsz].to_vec(), desc: v[p + o..p + o + dsz].to_vec() });
        p += up(o + dsz, align);
    }
}

fn ref_props(be: bool, align: usize, v: &[u8]) -> (Vec<(u32, Vec<u8>)>, End) {
    let (mut p, mut out) = (0, vec![]);
    loop {
        if p == v.len() {
            return (out, End::Ok);
        }
        let mut d = D::new(be, false, &v[p..]);
        let mut get = || Some((d.u32()?, d.u32()? as usize));
        let Some((ty, sz)) = get() else { return (out, End::Err) };
        if 8 + sz > v.len() - p {
            return (out, End::Err);
        }
        if up(8 + sz, align) > v.len() - p {
            return (out, End::Open);
        }
        out.push((ty, v[p + 8..p + 8 + sz].to_vec()));
        p += up(8 + sz, align);
    }
}

#[derive(Clone, Debug, PartialEq)]
struct SubSub {
    tag: u8,
    len: u32,
    indices: Vec<u8>,
    data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
struct Subsec {
    len: u32,
    vendor: Vec<u8>,
    subs: Vec<SubSub>,
    end: End,
}

fn ref_attrs(be: bool, v: &[u8]) -> (Vec<Subsec>, End) {
    let (mut p, mut out) = (0, vec![]);
    loop {
        if p == v.len() {
            return (out, End::Ok);
        }
        let Some(len) = D::new(be, false, &v[p..]).u32() else { return (out, End::Err) };
        if (len as usize) < 4 || len as usize > v.len() - p {
            return (out, End::Err);
        }
        let s = &v[p + 4..p + len as usize];
        let Some(vendor) = cstr_at(s, 0) else { return (out, End::Err) };
        let s = &s[vendor.len() + 1..];
        let (mut q, mut subs) = (0, vec![]);
        let end = loop {
            if q == s.len() {
                break End::Ok;
            }
            let mut d = D::new(be, false, &s[q..]);
            let mut get = || Some((d.u8()?, d.u32()?));
            let Some((tag, l)) = get() else { break End::Err };
            if (l as usize) < 5 || l as usize > s.len() - q || !(1..=3).contains(&tag) {
                break End::Err;
            }
            let mut t = &s[q + 5..q + l as usize];
            let mut indices = vec![];
            if tag != 1 {
                let Some(x) = cstr_at(t, 0) else { break End::Err };
                indices = x.to_vec();
                t = &t[x.len() + 1..];
            }
            subs.push(SubSub { tag, len: l, indices, data: t.to_vec() });
            q += l as usize;
        };
        out.push(Subsec { len, vendor: vendor.to_vec(), subs, end });
        p += len as usize;
    }
}

/// Decode an unsigned LEB128, with its length; `None` if unterminated or more than 64 bits.
fn ref_uleb(v: &[u8]) -> Option<(u64, usize)> {
    let n = v.iter().position(|b| b & 0x80 == 0)? + 1;
    if n > 10 {
        return None;
    }
    let mut x = 0u128;
    for (i, b) in v[..n].iter().enumerate() {
        x |= ((b & 0x7f) as u128) << (7 * i);
    }
    if x > u64::MAX as u128 { None } else { Some((x as u64, n)) }
}

// ------------------------------------------------------------------ comparisons

fn check_notes<E: FileHeader<Endian = X>, X: Endian>(mut it: NoteIterator<'_, E>, e: X, is64: bool, want: &[Note], end: End, ctx: &str) -> R {
    for (i, w) in want.iter().enumerate() {
        let n = must_some!(must!(it.next(), "{ctx}: note {i}"), "{ctx}: note {i} of {}", want.len());
        ensure_eq!(n.n_type(e).0, w.ty, "{ctx}: note {i} type");
        ensure_eq!((n.n_namesz(e) as usize, n.n_descsz(e) as usize), (w.name.len(), w.desc.len()), "{ctx}: note {i} sizes");
        ensure_eq!((n.name_bytes(), n.desc()), (&w.name[..], &w.desc[..]), "{ctx}: note {i}");
        let t = w.name.iter().rposition(|&b| b != 0).map_or(0, |p| p + 1);
        ensure_eq!(n.name(), &w.name[..t], "{ctx}: note {i} name");
        let p = n.gnu_properties(e);
        ensure_eq!(p.is_some(), &w.name[..t] == b"GNU" && w.ty == 5, "{ctx}: note {i} has properties");
        if let Some(mut p) = p {
            let (ps, pend) = ref_props(e.is_big_endian(), if is64 { 8 } else { 4 }, &w.desc);
            for (j, (ty, data)) in ps.iter().enumerate() {
                let x = must_some!(must!(p.next(), "{ctx}: property {j}"), "{ctx}: property {j}");
                ensure_eq!((x.pr_type().0, x.pr_data()), (*ty, &data[..]), "{ctx}: property {j}");
                let u = D::new(e.is_big_endian(), false, data).u32();
                ensure_eq!(x.data_u32(e).ok(), u, "{ctx}: property {j} data_u32");
            }
            match pend {
                End::Ok => ensure!(matches!(p.next(), Ok(None)), "{ctx}: extra property"),
                End::Err => ensure!(p.next().is_err(), "{ctx}: property error not reported"),
                End::Open => {
                    let _ = p.next();
                }
            }
            ensure!(matches!(p.next(), Ok(None)), "{ctx}: property iteration after its end");
        }
    }
    match end {
        End::Ok => ensure!(matches!(it.next(), Ok(None)), "{ctx}: extra note"),
        End::Err => ensure!(it.next().is_err(), "{ctx}: note error not reported"),
        End::Open => {
            let _ = it.next();
        }
    }
    ensure!(matches!(it.next(), Ok(None)), "{ctx}: note iteration after its end");
    Ok(())
}

fn check_attrs<E: FileHeader<Endian = X>, X: Endian>(a: AttributesSection<'_, E>, be: bool, v: &[u8]) -> R {
    let ver = v.first().copied().unwrap_or(b'A');
    ensure_eq!(a.version(), ver, "attributes version");
    if ver != b'A' {
        ensure!(a.subsections().is_err(), "unsupported version accepted");
        return Ok(());
    }
    let (want, end) = ref_attrs(be, v.get(1..).unwrap_or(&[]));
    let mut it = must!(a.subsections(), "subsections");
    for (i, w) in want.iter().enumerate() {
        let s = must_some!(must!(it.next(), "subsection {i}"), "subsection {i}");
        ensure_eq!((s.length(), s.vendor()), (w.len, &w.vendor[..]), "subsection {i}");
        let mut sub = s.subsubsections();
        for (j, w) in w.subs.iter().enumerate() {
            let s = must_some!(must!(sub.next(), "sub-subsection {i}/{j}"), "sub-subsection {i}/{j}");
            ensure_eq!((s.tag().0, s.length()), (w.tag, w.len), "sub-subsection {i}/{j}");
            ensure_eq!((s.indices_data(), s.attributes_data()), (&w.indices[..], &w.data[..]), "sub-subsection {i}/{j} data");
            let mut idx = s.indices();
            let mut p = 0;
            while p < w.indices.len() {
                match ref_uleb(&w.indices[p..]) {
                    Some((x, n)) if x <= u32::MAX as u64 => {
                        ensure_eq!(idx.next(), Ok(Some(x as u32)), "index at {p} of {i}/{j}");
                        p += n;
                    }
                    _ => {
                        ensure!(idx.next().is_err(), "invalid index accepted at {p} of {i}/{j}");
                        break;
                    }
                }
            }
            ensure!(matches!(idx.next(), Ok(None)), "extra index {i}/{j}");
            ensure!(matches!(idx.next(), Ok(None)), "extra index {i}/{j}");
            // Attributes: even tags are integers, odd tags are strings (the generic convention).
            let mut r = s.attributes();
            let mut d = &w.data[..];
            while !d.is_empty() {
                let Some((t, n)) = ref_uleb(d) else {
                    ensure!(r.read_tag().is_err(), "invalid tag accepted");
                    break;
                };
                ensure_eq!(r.read_tag(), Ok(Some(t)), "tag {i}/{j}");
                d = &d[n..];
                if t % 2 == 0 {
                    let Some((x, n)) = ref_uleb(d) else {
                        ensure!(r.read_integer().is_err(), "invalid integer accepted");
                        break;
                    };
                    ensure_eq!(r.read_integer(), Ok(x), "integer of tag {t} {i}/{j}");
                    d = &d[n..];
                } else {
                    let Some(x) = cstr_at(d, 0) else {
                        ensure!(r.read_string().is_err(), "invalid string accepted");
                        break;
                    };
                    ensure_eq!(r.read_string(), Ok(x), "string of tag {t} {i}/{j}");
                    d = &d[x.len() + 1..];
                }
            }
            if d.is_empty() {
                ensure_eq!(r.read_tag(), Ok(None), "end of attributes {i}/{j}");
            }
        }
        match w.end {
            End::Ok => ensure!(matches!(sub.next(), Ok(None)), "extra sub-subsection"),
            _ => ensure!(sub.next().is_err(), "sub-subsection error not reported"),
        }
        ensure!(matches!(sub.next(), Ok(None)), "sub-subsection iteration after its end");
    }
    match end {
        End::Ok => ensure!(matches!(it.next(), Ok(None)), "extra subsection"),
        _ => ensure!(it.next().is_err(), "subsection error not reported"),
    }
    ensure!(matches!(it.next(), Ok(None)), "subsection iteration after its end");
    Ok(())
}

// ------------------------------------------------------------------ encoders

fn put_notes(b: &mut B, align: usize, notes: &[Note], trim: bool) {
    for (i, n) in notes.iter().enumerate() {
        b.u32(n.name.len() as u32).u32(n.desc.len() as u32).u32(n.ty);
        b.bytes(&n.name).align(align).bytes(&n.desc);
        if !(trim && i + 1 == notes.len() && !n.desc.is_empty()) {
            b.align(align);
        }
    }
}

fn gen_props(g: &mut Gen, be: bool, is64: bool) -> Vec<u8> {
    let mut b = B::new(be, is64);
    for _ in 0..g.len(4) {
        let ty = g.pickc(&[0xc0000002u32, 0xc0008002, 1, 2, 0xb0000000, 0xb0007fff, 0xb0008000, 0xc0010001, 0xe0000000]);
        let d = if g.bool() { let x = g.u32(); B::new(be, false).u32(x).v.clone() } else { g.blob(12) };
        b.u32(ty).u32(d.len() as u32).bytes(&d).align(if is64 { 8 } else { 4 });
    }
    b.v
}

fn gen_notes(g: &mut Gen, be: bool, is64: bool) -> Vec<Note> {
    let n = g.len(5);
    (0..n)
        .map(|_| {
            let name = match g.upto(6) {
                0..=2 => b"GNU\0".to_vec(),
                3 => g.pickc(&[&b"GNU"[..], b"GNU\0\0\0", b"CORE\0", b"", b"\0", b"GNUX\0", b"Go\0\0", b"stapsdt\0", b"\0GNU\0"]).to_vec(),
                _ => {
                    let mut v = g.name(9);
                    v.push(0);
                    v
                }
            };
            let ty = if g.chance(1, 4) { g.u32() } else { g.pickc(&[3u32, 5, 1, 2, 4, 6]) };
            let desc = if ty == 5 { gen_props(g, be, is64) } else { g.blob(24) };
            Note { ty, name, desc }
        })
        .collect()
}

fn gen_attrs(g: &mut Gen, be: bool) -> Vec<u8> {
    let mut out = B::new(be, false);
    out.u8(b'A');
    for _ in 0..g.len(3) {
        let mut s = B::new(be, false);
        s.cstr(g.pickc(&[&b"gnu"[..], b"aeabi", b"riscv", b"", b"mspabi"]));
        for _ in 0..g.len(3) {
            let tag = 1 + g.upto(2) as u8;
            let mut t = B::new(be, false);
            if tag != 1 {
                for _ in 0..g.len(4) {
                    t.uleb(1 + g.uint(32).min(u32::MAX as u64 - 1));
                }
                t.u8(0);
            }
            for _ in 0..g.len(6) {
                let a = if g.chance(1, 4) { g.u64() } else { g.upto(200) };
                t.uleb(a);
                if a % 2 == 0 {
                    t.uleb(g.uint(64));
                } else {
                    let s = if g.chance(1, 4) { vec![] } else { g.name(8) };
                    t.cstr(&s);
                }
            }
            s.u8(tag).u32(5 + t.len() as u32).bytes(&t.v);
        }
        out.u32(4 + s.len() as u32).bytes(&s.v);
    }
    out.v
}

/// Truncate or change a few bytes.
fn mutate(g: &mut Gen, v: &mut Vec<u8>) {
    match g.upto(3) {
        0 => {
            let n = g.upto(v.len() as u64) as usize;
            v.truncate(n);
        }
        1 => {
            let n = g.len1(5);
            let x = g.bytes(n);
            v.extend(x);
        }
        _ => {
            for _ in 0..g.len1(3) {
                if !v.is_empty() {
                    let p = g.below(v.len());
                    v[p] = if g.bool() { g.upto(16) as u8 } else { g.u8() };
                }
            }
        }
    }
}

fn notes_case<E: FileHeader<Endian = X>, X: Endian>(g: &mut Gen, e: X, is64: bool) -> R
where
    E::Word: From<u32>,
{
    let be = e.is_big_endian();
    let aw = g.pickc(&[0u32, 1, 2, 3, 4, 8, 4, 8]);
    let align = if aw == 8 { 8 } else { 4 };
    let notes = gen_notes(g, be, is64);
    let mut b = B::new(be, is64);
    put_notes(&mut b, align, &notes, g.chance(1, 4));
    g.nontrivial_if(!notes.is_empty());
    g.label_if(notes.iter().any(|n| n.ty == 5 && !n.desc.is_empty() && n.name.starts_with(b"GNU")), "properties");
    g.label_if(align == 8, "align8");
    let mut v = b.v;
    g.files(&[&[be as u8], &v])?;
    if g.bool() {
        check_notes(must!(NoteIterator::<E>::new(e, E::Word::from(aw), &v[..]), "new"), e, is64, &notes, End::Ok, "notes")?;
        let (again, end) = ref_notes(be, align, &v);
        ensure_eq!((&again, end), (&notes, End::Ok), "reference decoder disagrees with the encoder");
    } else {
        mutate(g, &mut v);
        g.label("mutated");
        let (want, end) = ref_notes(be, align, &v);
        g.label_if(end == End::Err, "error");
        check_notes(must!(NoteIterator::<E>::new(e, E::Word::from(aw), &v[..]), "new"), e, is64, &want, end, "mutated notes")?;
    }
    let bad = g.pickc(&[5u32, 6, 7, 9, 12, 16, 32, 4096]);
    ensure!(NoteIterator::<E>::new(e, E::Word::from(bad), &v[..]).is_err(), "note alignment {bad} accepted");
    g.sample(|| format!("class64={is64} be={be} align={aw} {:x?}", notes));
    Ok(())
}
pub fn notes(g: &mut Gen) -> R {
    let en = if g.bool() { Endianness::Big } else { Endianness::Little };
    match (g.bool(), g.bool()) {
        (false, false) => notes_case::<elf::FileHeader32<_>, _>(g, en, false),
        (false, true) => notes_case::<elf::FileHeader64<_>, _>(g, en, true),
        (true, false) => notes_case::<elf::FileHeader32<_>, _>(g, LittleEndian, false),
        (true, true) => notes_case::<elf::FileHeader64<_>, _>(g, BigEndian, true),
    }
}

pub fn attributes(g: &mut Gen) -> R {
    let be = g.bool();
    let mut v = gen_attrs(g, be);
    g.files(&[&[be as u8], &v])?;
    g.nontrivial_if(v.len() > 8);
    if g.bool() {
        mutate(g, &mut v);
        g.label("mutated");
    } else {
        ensure!(ref_attrs(be, &v[1..]).1 == End::Ok, "reference decoder disagrees with the encoder");
    }
    g.sample(|| format!("be={be} {v:x?}"));
    let en = if be { Endianness::Big } else { Endianness::Little };
    if g.bool() {
        check_attrs::<elf::FileHeader64<Endianness>, _>(must!(AttributesSection::new(en, &v), "new"), be, &v)
    } else if be {
        check_attrs::<elf::FileHeader32<BigEndian>, _>(must!(AttributesSection::new(BigEndian, &v), "new"), be, &v)
    } else {
        check_attrs::<elf::FileHeader32<LittleEndian>, _>(must!(AttributesSection::new(LittleEndian, &v), "new"), be, &v)
    }
}

// ------------------------------------------------------------------ whole files

struct Model {
    img: Img,
    /// Section, alignment.
    notes: Vec<(usize, u64)>,
    seg_notes: Vec<usize>,
    groups: Vec<usize>,
    attrs: Vec<usize>,
    symtab: Option<SymTab>,
}

fn slice<'a>(v: &'a [u8], off: u64, size: u64) -> &'a [u8] {
    &v[off as usize..][..size as usize]
}

fn check_low<'d, E: FileHeader<Endian = X>, X: Endian>(m: &Model, v: &'d [u8]) -> R {
    let img = &m.img;
    let h = must!(E::parse(v), "header");
    let e = must!(h.endian(), "endian");
    let secs = must!(h.sections(e, v), "sections");
    for (i, s) in secs.enumerate() {
        let w = &img.secs[i.0];
        let n = s.notes(e, v);
        if w.ty != SHT_NOTE {
            ensure!(matches!(n, Ok(None)), "section {} is not a note section", i.0);
        } else if m.notes.iter().any(|x| x.0 == i.0) && w.align > 8 || w.align == 5 {
            ensure!(n.is_err(), "note section alignment {}", w.align);
        } else {
            let (want, end) = ref_notes(img.be, if w.align == 8 { 8 } else { 4 }, &w.data);
            check_notes(must_some!(must!(n, "notes"), "notes"), e, img.is64, &want, end, "section notes")?;
        }
        let gr = s.group(e, v);
        if w.ty != SHT_GROUP {
            ensure!(matches!(gr, Ok(None)), "section {} is not a group", i.0);
        } else if w.data.len() < 4 || w.data.len() % 4 != 0 {
            ensure!(gr.is_err(), "group of size {} accepted", w.data.len());
        } else {
            let (flags, members) = must_some!(must!(gr, "group"), "group");
            let mut d = img.d(&w.data);
            ensure_eq!(flags.0, d.u32().unwrap(), "group flags");
            ensure_eq!(members.len(), w.data.len() / 4 - 1, "group members");
            for x in members {
                ensure_eq!(x.get(e), d.u32().unwrap(), "group member");
            }
        }
        let ga = must!(s.gnu_attributes(e, v), "gnu_attributes");
        ensure_eq!(ga.is_some(), w.ty == SHT_GNU_ATTRIBUTES, "gnu_attributes present");
        if let Some(a) = ga {
            check_attrs(a, img.be, &w.data)?;
        }
        if m.attrs.contains(&i.0) {
            check_attrs(must!(s.attributes(e, v), "attributes"), img.be, &w.data)?;
        }
    }
    for (i, p) in must!(h.program_headers(e, v), "program headers").iter().enumerate() {
        let w = &img.segs[i];
        let n = p.notes(e, v);
        if w.ty != PT_NOTE {
            ensure!(matches!(n, Ok(None)), "segment {i} is not a note segment");
        } else {
            let (want, end) = ref_notes(img.be, if w.align == 8 { 8 } else { 4 }, slice(v, w.off, w.filesz));
            check_notes(must_some!(must!(n, "segment notes"), "segment notes"), e, img.is64, &want, end, "segment notes")?;
        }
    }
    Ok(())
}

/// The first build id of a list of note data, or an error if one is met first.
fn ref_build_id(be: bool, list: &[(u64, Vec<u8>)]) -> std::result::Result<Option<Vec<u8>>, End> {
    for (align, d) in list {
        if *align > 8 || (*align > 4 && *align < 8) {
            return Err(End::Err);
        }
        let (n, end) = ref_notes(be, if *align == 8 { 8 } else { 4 }, d);
        for n in n {
            let t = n.name.iter().rposition(|&b| b != 0).map_or(0, |p| p + 1);
            if &n.name[..t] == b"GNU" && n.ty == 3 {
                return Ok(Some(n.desc));
            }
        }
        if end != End::Ok {
            return Err(end);
        }
    }
    Ok(None)
}

fn first<'a>(img: &'a Img, name: &[u8]) -> Option<&'a Sec> {
    img.secs.iter().skip(1).find(|s| s.name == name)
}

pub fn files(g: &mut Gen) -> R {
    let mut img = gen_header(g);
    img.version = 1;
    if img.flags & 0x20 != 0 && img.machine == 8 {
        img.flags = 0;
    }
    let (be, is64) = (img.be, img.is64);
    let mut m = Model { img: Img::default(), notes: vec![], seg_notes: vec![], groups: vec![], attrs: vec![], symtab: None };
    let with_secs = !g.chance(1, 5);
    let mut segdata: Vec<(u64, Vec<u8>)> = vec![];
    let mk = |g: &mut Gen| -> (u64, Vec<u8>) {
        let align = g.pickc(&[4u64, 4, 8, 8, 1, 0]);
        let n = gen_notes(g, be, is64);
        let mut b = B::new(be, is64);
        put_notes(&mut b, if align == 8 { 8 } else { 4 }, &n, g.chance(1, 4));
        let mut v = b.v;
        if g.chance(1, 8) {
            mutate(g, &mut v);
        }
        (align, v)
    };
    if with_secs {
        img.secs.push(Sec::default());
        for _ in 0..g.len1(6) {
            match g.upto(6) {
                0 | 1 => {
                    let (align, v) = mk(g);
                    let name = g.pickc(&[".note.gnu.build-id", ".note.gnu.property", ".note.x", ""]);
                    let i = img.add(name.as_bytes(), SHT_NOTE, v);
                    img.secs[i].align = if g.chance(1, 20) { 16 } else { align };
                    m.notes.push((i, img.secs[i].align));
                }
                2 | 3 => {
                    let mut b = img.b();
                    b.u32(g.pickc(&[1u32, 1, 1, 0, 2, 3, 0x80000001, 0xffffffff]));
                    for _ in 0..g.len(5) {
                        let x = if g.chance(1, 6) { g.u32() } else { g.upto(9) as u32 };
                        b.u32(x);
                    }
                    let mut v = b.v;
                    if g.chance(1, 8) {
                        v.pop();
                    }
                    if g.chance(1, 20) {
                        v.clear();
                    }
                    let i = img.add(b".group", SHT_GROUP, v);
                    img.secs[i].align = 4;
                    img.secs[i].info = if g.chance(1, 8) { g.u32() } else { g.upto(12) as u32 };
                    m.groups.push(i);
                }
                4 => {
                    let mut v = gen_attrs(g, be);
                    if g.chance(1, 6) {
                        mutate(g, &mut v);
                    }
                    let ty = g.pickc(&[SHT_GNU_ATTRIBUTES, 0x70000003]);
                    let i = img.add(b".gnu.attributes", ty, v);
                    m.attrs.push(i);
                }
                5 => {
                    let mut b = img.b();
                    let name = g.name(20);
                    b.cstr(&name).align(4).u32(g.u32());
                    if g.chance(1, 8) {
                        mutate(g, &mut b.v);
                    }
                    let nm: &[u8] = if g.chance(1, 6) { b".gnu_debuglink2" } else { b".gnu_debuglink" };
                    img.add(nm, 1, b.v);
                }
                _ => {
                    let mut b = img.b();
                    let name = g.name(20);
                    b.cstr(&name);
                    let id = g.blob(24);
                    b.bytes(&id);
                    if g.chance(1, 8) {
                        mutate(g, &mut b.v);
                    }
                    img.add(b".gnu_debugaltlink", 1, b.v);
                }
            }
        }
        if !m.groups.is_empty() || g.bool() {
            let n = img.secs.len();
            let t = gen_syms(g, &mut img, SHT_SYMTAB, n, 14);
            for i in &m.groups {
                img.secs[*i].link = t.sec as u32;
            }
            m.symtab = Some(t);
        }
        img.names(g);
    }
    for _ in 0..g.len(3) {
        let (align, v) = mk(g);
        let note = !g.chance(1, 5);
        img.segs.push(Seg { ty: if note { PT_NOTE } else { 1 }, align, flags: 4, ..Seg::default() });
        segdata.push((align, v));
    }
    img.layout(g);
    // Segment data goes after everything else.
    let mut v = img.emit();
    let mut list = vec![];
    for (i, (align, d)) in segdata.iter().enumerate() {
        let pad = g.upto(9) as usize;
        v.resize(v.len() + pad, 0x77);
        img.segs[i].off = v.len() as u64;
        img.segs[i].filesz = d.len() as u64;
        v.extend(d);
        if img.segs[i].ty == PT_NOTE {
            list.push((*align, d.clone()));
            m.seg_notes.push(i);
        }
    }
    let head = img.emit();
    v[..head.len()].copy_from_slice(&head);
    g.file(&v)?;
    g.nontrivial_if(!m.notes.is_empty() || !m.groups.is_empty() || !m.attrs.is_empty() || !list.is_empty());
    g.label_if(!m.groups.is_empty(), "groups");
    g.label_if(!m.attrs.is_empty(), "attributes");
    g.label_if(!m.notes.is_empty(), "section notes");
    g.label_if(!list.is_empty(), "segment notes");
    m.img = img;
    let img = &m.img;
    g.sample(|| format!("secs={:?} segs={:?}", img.secs.iter().map(|s| (String::from_utf8_lossy(&s.name).to_string(), s.ty, s.data.len())).collect::<Vec<_>>(), segdata));
    match (is64, be) {
        (false, false) => check_low::<elf::FileHeader32<LittleEndian>, _>(&m, &v)?,
        (false, true) => check_low::<elf::FileHeader32<BigEndian>, _>(&m, &v)?,
        (true, false) => check_low::<elf::FileHeader64<LittleEndian>, _>(&m, &v)?,
        (true, true) => check_low::<elf::FileHeader64<Endianness>, _>(&m, &v)?,
    }
    let f = must!(File::parse(&v[..]), "parse");
    // Build id.
    if with_secs {
        list = img.secs.iter().filter(|s| s.ty == SHT_NOTE).map(|s| (s.align, s.data.clone())).collect();
    }
    match ref_build_id(be, &list) {
        Ok(w) => {
            g.label_if(w.is_some(), "build id");
            ensure_eq!(f.build_id(), Ok(w.as_deref()), "build_id")
        }
        Err(End::Err) => ensure!(f.build_id().is_err(), "build_id after a bad note"),
        Err(_) => {}
    }
    // Links.
    match first(img, b".gnu_debuglink") {
        None => ensure_eq!(f.gnu_debuglink(), Ok(None), "gnu_debuglink"),
        Some(s) => {
            g.label("debuglink");
            let w = cstr_at(&s.data, 0).and_then(|n| Some((n, img.d(&s.data).at(up(n.len() + 1, 4)).u32()?)));
            match w {
                Some(w) => ensure_eq!(f.gnu_debuglink(), Ok(Some(w)), "gnu_debuglink"),
                None => ensure!(f.gnu_debuglink().is_err(), "bad gnu_debuglink accepted"),
            }
        }
    }
    match first(img, b".gnu_debugaltlink") {
        None => ensure_eq!(f.gnu_debugaltlink(), Ok(None), "gnu_debugaltlink"),
        Some(s) => {
            g.label("debugaltlink");
            match cstr_at(&s.data, 0) {
                Some(n) => ensure_eq!(f.gnu_debugaltlink(), Ok(Some((n, &s.data[n.len() + 1..]))), "gnu_debugaltlink"),
                None => ensure!(f.gnu_debugaltlink().is_err(), "bad gnu_debugaltlink accepted"),
            }
        }
    }
    // COMDAT groups.
    let mut it = f.comdats();
    for s in img.secs.iter().filter(|s| s.ty == SHT_GROUP && s.data.len() >= 4 && s.data.len() % 4 == 0) {
        let mut d = img.d(&s.data);
        if d.u32().unwrap() & 1 == 0 {
            continue;
        }
        g.label("comdat");
        let c = must_some!(it.next(), "comdat missing");
        ensure_eq!((c.kind(), c.symbol().0), (ComdatKind::Any, s.info as usize), "comdat");
        let want: Vec<usize> = std::iter::from_fn(|| d.u32()).map(|x| x as usize).collect();
        ensure_eq!(c.sections().map(|x| x.0).collect::<Vec<_>>(), want, "comdat sections");
        match m.symtab.as_ref().and_then(|t| t.syms.get(s.info as usize)).filter(|_| s.info != 0) {
            Some(y) => {
                ensure_eq!(c.name_bytes(), Ok(&y.name[..]), "comdat name");
                ensure_eq!(c.name().ok(), std::str::from_utf8(&y.name).ok(), "comdat name");
            }
            None => ensure!(c.name_bytes().is_err(), "comdat name of a missing symbol"),
        }
    }
    ensure!(it.next().is_none(), "extra comdat");
    Ok(())
}

fn main() {
    run(
        "C08",
        "at least one note, attribute subsection, group or link is present",
        &[
            "the reference decoders and encoders in harness/src/bin/c08.rs follow the ELF gABI, the Linux ABI extensions and the build attribute format",
            "note data whose last entry lacks padding before an empty descriptor, and properties whose final padding is missing, are left open",
        ],
        &[sub("notes", 400_000, 60_000_000, notes), sub("attributes", 300_000, 40_000_000, attributes), sub("files", 200_000, 30_000_000, files)],
    )
}
