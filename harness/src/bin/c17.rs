//! C17: archives are read exactly in every dialect.
use object::read::archive::*;
use object::read::*;
use vh::b::*;
use vh::*;

type Bytes = Vec<u8>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Di {
    Gnu,
    Gnu64,
    Bsd,
    Bsd64,
    Coff,
    Aix,
    Zos,
}
use Di::*;

/// Numeric header fields as text: date, uid, gid, mode.
#[derive(Clone, Debug)]
struct Mem {
    name: Bytes,
    meta: [Bytes; 4],
    data: Bytes,
    /// Header offset and data range, filled in by the encoder.
    hdr: u64,
    range: (u64, u64),
    /// Header field holding the size, and its length.
    size_at: usize,
    name_at: usize,
    term_at: usize,
}

struct Ar {
    di: Di,
    thin: bool,
    symtab: bool,
    strtab: bool,
    /// Position and size of the symbol table data and of its counts.
    sym_at: usize,
    sym_size: usize,
    sym_hdr: usize,
    mems: Vec<Mem>,
    syms: Vec<(Bytes, usize)>,
    names_range: (usize, usize),
    v: Bytes,
    idx_at: usize,
}

fn to_ebcdic(s: &[u8]) -> Bytes {
    s.iter()
        .map(|&c| match c {
            b'0'..=b'9' => 0xf0 + (c - b'0'),
            b'a'..=b'i' => 0x81 + (c - b'a'),
            b'j'..=b'r' => 0x91 + (c - b'j'),
            b's'..=b'z' => 0xa2 + (c - b's'),
            b'A'..=b'I' => 0xc1 + (c - b'A'),
            b'J'..=b'R' => 0xd1 + (c - b'J'),
            b'S'..=b'Z' => 0xe2 + (c - b'S'),
            b' ' => 0x40,
            b'.' => 0x4b,
            b'_' => 0x6d,
            b'#' => 0x7b,
            b'/' => 0x61,
            b'-' => 0x60,
            b'`' => 0x79,
            b'\n' => 0x15,
            _ => 0x6f,
        })
        .collect()
}

/// The number a text field denotes, by the format: digits up to the first space.
fn number(t: &[u8], radix: u64) -> Option<u64> {
    let end = t.iter().position(|&c| c == b' ').unwrap_or(t.len());
    if end == 0 {
        return None;
    }
    let mut r: u128 = 0;
    for &c in &t[..end] {
        if !c.is_ascii_digit() || (c - b'0') as u64 >= radix {
            return None;
        }
        r = r * radix as u128 + (c - b'0') as u128;
        if r > u64::MAX as u128 {
            return None;
        }
    }
    Some(r as u64)
}

fn meta(g: &mut Gen, width: usize, octal: bool) -> Bytes {
    let mut s: Bytes = match g.below(6) {
        0 => vec![],
        1 => b"0".to_vec(),
        2 => {
            let c = if octal { b"7" } else { b"9" };
            c.repeat(width)
        }
        3 => {
            let n = g.range(1, width);
            (0..n).map(|_| b'0' + g.below(10) as u8).collect()
        }
        4 if g.chance(1, 2) => b"-1".to_vec(),
        _ => {
            let v = g.uint(17);
            if octal { format!("{v:o}") } else { format!("{v}") }.into_bytes()
        }
    };
    s.truncate(width);
    s.resize(width, b' ');
    s
}

fn header(b: &mut B, di: Di, name: &[u8], meta: &[Bytes; 4], size: u64) -> (usize, usize, usize) {
    let e = |s: &[u8]| if di == Zos { to_ebcdic(s) } else { s.to_vec() };
    let mut n = name.to_vec();
    assert!(n.len() <= 16);
    n.resize(16, if di == Zos { 0x40 } else { b' ' });
    let name_at = b.len();
    b.bytes(&n);
    for m in meta {
        b.bytes(&e(m));
    }
    let size_at = b.len();
    let s = format!("{size:<10}");
    b.bytes(&e(s.as_bytes()));
    let term_at = b.len();
    b.bytes(&e(b"`\n"));
    (name_at, size_at, term_at)
}

fn gen_meta(g: &mut Gen, di: Di) -> [Bytes; 4] {
    let w = if di == Aix { [12, 12, 12, 12] } else { [12, 6, 6, 8] };
    let d = meta(g, w[0], false);
    let u = meta(g, w[1], false);
    let i = meta(g, w[2], false);
    let m = meta(g, w[3], true);
    [d, u, i, m]
}

fn blank(di: Di) -> [Bytes; 4] {
    let w = if di == Aix { [12, 12, 12, 12] } else { [12, 6, 6, 8] };
    w.map(|w| {
        let mut v = b"0".to_vec();
        v.resize(w, b' ');
        v
    })
}

fn even(g: &mut Gen, b: &mut B, di: Di) {
    if b.len() % 2 == 1 {
        b.u8(match di {
            Zos => 0x15,
            Aix => 0,
            _ if g.bool() => 0,
            _ => b'\n',
        });
    }
}

fn gen_ar(g: &mut Gen) -> Ar {
    let di = g.pickc(&[Gnu, Gnu64, Bsd, Bsd64, Coff, Aix, Zos]);
    let thin = matches!(di, Gnu | Gnu64) && g.chance(1, 3);
    let symtab = di == Coff || (g.chance(3, 4) && di != Aix) || matches!(di, Gnu64 | Bsd64);
    // Members.
    let mut mems = vec![];
    for _ in 0..g.len(6) {
        let mut name = match g.below(5) {
            0 => g.ident(16).into_bytes(),
            1 => {
                let n = g.pickc(&[14, 15, 16, 17]);
                let c = b'a' + g.below(26) as u8;
                vec![c; n]
            }
            2 => {
                let mut n = g.ident(20).into_bytes();
                let k = g.below(n.len() + 1);
                n.insert(k, b' ');
                n
            }
            3 => {
                let mut n = b"dir/".to_vec();
                n.extend(g.ident(8).bytes());
                n
            }
            _ => g.name(24),
        };
        name.retain(|&c| c != 0 && c != b'\n');
        if matches!(&name[..], b"/" | b"//" | b"/SYM64/" | b"__.SYMDEF") {
            name.push(b'x');
        }
        let data = if thin {
            vec![]
        } else {
            g.blob(40)
        };
        let meta = gen_meta(g, di);
        mems.push(Mem { name, meta, data, hdr: 0, range: (0, 0), size_at: 0, name_at: 0, term_at: 0 });
    }
    // Symbols, some members define several.
    let mut syms = vec![];
    if symtab && !mems.is_empty() {
        for _ in 0..g.len(8) {
            let m = g.below(mems.len());
            syms.push((g.name(12), m));
        }
    }
    if di == Coff {
        syms.sort();
    }
    let be = !matches!(di, Bsd | Bsd64);
    let mut b = B::new(be, true);
    let magic: &[u8] = match di {
        Aix => b"<bigaf>\n",
        Zos => b"\x5A\x4C\x81\x99\x83\x88\x6E\x15",
        _ if thin => b"!<thin>\n",
        _ => b"!<arch>\n",
    };
    b.bytes(magic);
    let mut ar = Ar {
        di,
        thin,
        symtab,
        strtab: false,
        sym_at: 0,
        sym_size: 0,
        sym_hdr: 0,
        mems,
        syms,
        names_range: (0, 0),
        v: vec![],
        idx_at: 0,
    };
    if di == Aix {
        gen_aix(g, &mut ar, b);
        return ar;
    }
    // Symbol table with room for the offsets.
    let mut names = B::new(be, true);
    let mut offs = vec![];
    for (n, _) in &ar.syms {
        offs.push(names.len() as u64);
        names.cstr(n);
    }
    let mut coff_members: Vec<usize> = (0..ar.mems.len()).collect();
    let mut patch: Vec<(usize, usize, usize)> = vec![]; // position, width, member
    let n = ar.syms.len();
    let special = blank(di);
    if symtab {
        let tab = |b: &mut B, patch: &mut Vec<(usize, usize, usize)>, g: &mut Gen, di: Di| -> (usize, usize) {
            let start = b.len();
            let w = if matches!(di, Gnu64 | Bsd64) { 8 } else { 4 };
            match di {
                Gnu | Gnu64 | Coff => {
                    b.int(w, n as u64);
                    for (_, m) in &ar.syms {
                        patch.push((b.len(), w, *m));
                        b.int(w, 0);
                    }
                    b.bytes(&names.v);
                }
                Bsd | Bsd64 => {
                    b.int(w, (n * 2 * w) as u64);
                    let mut k: Vec<usize> = (0..n).collect();
                    // Names may be stored in another order than the entries.
                    let mut pool = B::new(be, true);
                    let mut at = vec![0; n];
                    if g.bool() {
                        k.reverse();
                    }
                    for i in k {
                        at[i] = pool.len() as u64;
                        pool.cstr(&ar.syms[i].0);
                    }
                    if g.bool() {
                        let a = pool.len().next_multiple_of(8) - pool.len();
                        pool.zeros(a);
                    }
                    for (i, (_, m)) in ar.syms.iter().enumerate() {
                        b.int(w, at[i]);
                        patch.push((b.len(), w, *m));
                        b.int(w, 0);
                    }
                    b.int(w, pool.len() as u64);
                    b.bytes(&pool.v);
                }
                Zos => {
                    let x = g.bytes(5);
                    b.bytes(&x);
                }
                Aix => {}
            }
            if g.bool() {
                let k = g.len(3);
                b.zeros(k);
            }
            (start, b.len() - start)
        };
        let name: Bytes = match di {
            Gnu | Coff => b"/".to_vec(),
            Gnu64 => b"/SYM64/".to_vec(),
            Bsd => g.pick(&[&b"__.SYMDEF"[..], b"__.SYMDEF SORTED", b"#1/20", b"#1/12"]).to_vec(),
            Bsd64 => g.pick(&[&b"__.SYMDEF_64"[..], b"#1/20", b"#1/12"]).to_vec(),
            Zos => to_ebcdic(b"__.SYMDEF"),
            Aix => vec![],
        };
        let (h, size_at, _) = header(&mut b, di, &name, &special, 0);
        let dstart = b.len();
        if name.starts_with(b"#1/") {
            let k = if name.ends_with(b"20") { 20 } else { 12 };
            let s: &[u8] = match (di, k) {
                (Bsd, 20) => b"__.SYMDEF SORTED",
                (Bsd, _) => b"__.SYMDEF",
                (_, 20) => b"__.SYMDEF_64 SORTED",
                _ => b"__.SYMDEF_64",
            };
            b.fixed(s, k);
        }
        (ar.sym_at, ar.sym_size) = tab(&mut b, &mut patch, g, di);
        ar.sym_hdr = h;
        let s = format!("{:<10}", b.len() - dstart);
        let s = if di == Zos { to_ebcdic(s.as_bytes()) } else { s.into_bytes() };
        b.v[size_at..size_at + 10].copy_from_slice(&s);
        even(g, &mut b, di);
        if di == Coff {
            // Second linker member, little-endian. The members may be listed in any order.
            if g.bool() {
                coff_members.reverse();
            }
            let (h, size_at, _) = header(&mut b, di, b"/", &special, 0);
            let start = b.len();
            b.be = false;
            b.u32(coff_members.len() as u32);
            for m in &coff_members {
                patch.push((b.len(), 0, *m));
                b.u32(0);
            }
            b.u32(n as u32);
            for (_, m) in &ar.syms {
                let i = coff_members.iter().position(|x| x == m).unwrap();
                b.u16(i as u16 + 1);
            }
            b.bytes(&names.v);
            b.be = true;
            (ar.sym_at, ar.sym_size, ar.sym_hdr) = (start, b.len() - start, h);
            let s = format!("{:<10}", b.len() - start);
            b.v[size_at..size_at + 10].copy_from_slice(s.as_bytes());
            even(g, &mut b, di);
        }
    }
    // Header names.
    let mut table = vec![];
    let mut fields: Vec<Bytes> = vec![];
    let mut inline: Vec<Bytes> = vec![];
    for m in &ar.mems {
        let nm = &m.name;
        let mut extra = vec![];
        let f = match di {
            Gnu | Gnu64 | Coff => {
                let short = nm.len() <= 15 && !nm.is_empty() && !nm.contains(&b'/') && !thin;
                if short && g.chance(4, 5) {
                    let mut f = nm.clone();
                    f.push(b'/');
                    f
                } else {
                    let off = table.len();
                    table.extend_from_slice(nm);
                    table.extend_from_slice(if di == Coff { b"\0" } else { b"/\n" });
                    format!("/{off}").into_bytes()
                }
            }
            Bsd | Bsd64 => {
                let short = nm.len() <= 16 && !nm.is_empty() && !nm.contains(&b'/') && !nm.contains(&b' ');
                if short && g.chance(2, 3) {
                    nm.clone()
                } else {
                    extra = nm.clone();
                    let pad = g.len(4);
                    extra.extend(std::iter::repeat_n(0, pad));
                    format!("#1/{}", extra.len()).into_bytes()
                }
            }
            Zos => {
                // Name bytes are EBCDIC; nothing is translated by the reader.
                let short = nm.len() <= 16 && !nm.contains(&0x40) && !nm.starts_with(&[0x7b, 0xf1, 0x61]) && !nm.is_empty();
                if short {
                    nm.clone()
                } else {
                    extra = nm.clone();
                    let pad = g.len(4);
                    extra.extend(std::iter::repeat_n(0, pad));
                    to_ebcdic(format!("#1/{}", extra.len()).as_bytes())
                }
            }
            Aix => vec![],
        };
        fields.push(f);
        inline.push(extra);
    }
    if !table.is_empty() || (matches!(di, Gnu | Gnu64 | Coff) && g.chance(1, 8)) {
        if di != Coff && table.len() % 2 == 1 {
            table.push(b'\n');
        }
        header(&mut b, di, b"//", &special, table.len() as u64);
        ar.names_range = (b.len(), table.len());
        b.bytes(&table);
        even(g, &mut b, di);
        ar.strtab = true;
    }
    if di == Coff && g.chance(1, 4) {
        let d = g.blob(20);
        header(&mut b, di, b"/<ECSYMBOLS>/", &special, d.len() as u64);
        b.bytes(&d);
        even(g, &mut b, di);
    }
    for (i, m) in ar.mems.iter_mut().enumerate() {
        m.hdr = b.len() as u64;
        let size = if thin { g.uint(30) } else { (inline[i].len() + m.data.len()) as u64 };
        (m.name_at, m.size_at, m.term_at) = header(&mut b, di, &fields[i], &m.meta, size);
        b.bytes(&inline[i]);
        m.range = if thin { (0, size) } else { (b.len() as u64, m.data.len() as u64) };
        b.bytes(&m.data);
        if !thin {
            even(g, &mut b, di);
        }
    }
    for (p, w, m) in patch {
        if w == 0 {
            b.be = false;
            b.put(p, 4, ar.mems[m].hdr);
            b.be = true;
        } else {
            b.put(p, w, ar.mems[m].hdr);
        }
    }
    // The padding of the last member may be missing.
    if let Some(m) = ar.mems.last() {
        if !thin && (m.range.0 + m.range.1) % 2 == 1 && g.bool() {
            b.v.pop();
        }
    }
    ar.v = b.v;
    ar
}

fn aix_member(b: &mut B, m: &[Bytes; 4], name: &[u8], data: &[u8], next: u64, prev: u64) -> (u64, (u64, u64), usize, usize, usize) {
    let hdr = b.len() as u64;
    let size_at = b.len();
    for x in [data.len() as u64, next, prev] {
        b.bytes(format!("{x:<20}").as_bytes());
    }
    for x in m {
        b.bytes(x);
    }
    let name_at = b.len();
    b.bytes(format!("{:<4}", name.len()).as_bytes());
    b.bytes(name);
    if b.len() % 2 == 1 {
        b.u8(0);
    }
    let term_at = b.len();
    b.bytes(b"`\n");
    let r = (b.len() as u64, data.len() as u64);
    b.bytes(data);
    if b.len() % 2 == 1 {
        b.u8(0);
    }
    (hdr, r, name_at, size_at, term_at)
}

fn gen_aix(g: &mut Gen, ar: &mut Ar, mut b: B) {
    let fields = b.len();
    b.zeros(120);
    let sp = blank(Aix);
    let mut offs = vec![];
    let mut order: Vec<usize> = (0..ar.mems.len()).collect();
    // The members need not be stored in index order.
    if g.chance(1, 4) {
        order.reverse();
    }
    for &i in &order {
        let m = &mut ar.mems[i];
        let (h, r, n, s, t) = aix_member(&mut b, &m.meta, &m.name, &m.data, g.uint(60), g.uint(60));
        (m.hdr, m.range, m.name_at, m.size_at, m.term_at) = (h, r, n, s, t);
    }
    let mut idx = 0;
    if !ar.mems.is_empty() || g.bool() {
        let mut t = format!("{:<20}", ar.mems.len()).into_bytes();
        for m in &ar.mems {
            t.extend(format!("{:<20}", m.hdr).bytes());
        }
        for m in &ar.mems {
            t.extend_from_slice(&m.name);
            t.push(0);
        }
        let (h, r, ..) = aix_member(&mut b, &sp, b"", &t, 0, 0);
        idx = h;
        ar.idx_at = r.0 as usize;
    }
    let mut gst = [0u64; 2];
    for x in &mut gst {
        if g.chance(1, 3) {
            let d = g.blob(30);
            *x = aix_member(&mut b, &sp, b"", &d, 0, 0).0;
            ar.symtab = true;
        }
    }
    for x in ar.mems.iter_mut() {
        offs.push(x.hdr);
    }
    let first = offs.first().copied().unwrap_or(0);
    let last = offs.last().copied().unwrap_or(0);
    for (i, x) in [idx, gst[0], gst[1], first, last, 0].into_iter().enumerate() {
        b.v[fields + 20 * i..fields + 20 * i + 20].copy_from_slice(format!("{x:<20}").as_bytes());
    }
    ar.v = b.v;
}

fn show(a: &Ar) -> String {
    format!(
        "{:?} thin {} symtab {} members {:?} symbols {:?}",
        a.di,
        a.thin,
        a.symtab,
        a.mems.iter().map(|m| (String::from_utf8_lossy(&m.name), m.hdr, m.range)).collect::<Vec<_>>(),
        a.syms.iter().map(|s| (String::from_utf8_lossy(&s.0), s.1)).collect::<Vec<_>>()
    )
}

fn check_member(a: &Ar, m: &Mem, x: &ArchiveMember, what: &str) -> R {
    ensure_eq!(x.name(), &m.name[..], "name of {what}");
    ensure_eq!(x.file_range(), m.range, "range of {what}");
    ensure_eq!(x.size(), m.range.1, "size of {what}");
    ensure_eq!(x.is_thin(), a.thin, "thinness of {what}");
    ensure_eq!(must!(x.data(&a.v[..]), "data of {what}"), &m.data[..], "data of {what}");
    ensure_eq!(
        [x.date(), x.uid(), x.gid(), x.mode()],
        [number(&m.meta[0], 10), number(&m.meta[1], 10), number(&m.meta[2], 10), number(&m.meta[3], 8)],
        "date, uid, gid and mode of {what}, fields {:?}",
        m.meta.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>()
    );
    let h = a.v[m.hdr as usize..].as_ptr();
    ensure_eq!(x.header().map(|p| p as *const _ as *const u8), if matches!(a.di, Aix | Zos) { None } else { Some(h) }, "raw header of {what}");
    ensure_eq!(x.aix_header().map(|p| p as *const _ as *const u8), if a.di == Aix { Some(h) } else { None }, "raw AIX header of {what}");
    Ok(())
}

fn kind_of(a: &Ar) -> ArchiveKind {
    match a.di {
        Gnu if a.symtab || a.strtab => ArchiveKind::Gnu,
        Gnu => ArchiveKind::Unknown,
        Gnu64 => ArchiveKind::Gnu64,
        Bsd if a.symtab => ArchiveKind::Bsd,
        Bsd => ArchiveKind::Unknown,
        Bsd64 => ArchiveKind::Bsd64,
        Coff => ArchiveKind::Coff,
        Aix => ArchiveKind::AixBig,
        Zos => ArchiveKind::Zos,
    }
}

pub fn good(g: &mut Gen) -> R {
    let a = gen_ar(g);
    g.file(&a.v)?;
    g.nontrivial_if(a.mems.len() > 1);
    g.label(match a.di { Gnu => "gnu", Gnu64 => "gnu64", Bsd => "bsd", Bsd64 => "bsd64", Coff => "coff", Aix => "aix", Zos => "zos" });
    g.label_if(a.thin, "thin");
    g.label_if(a.syms.len() > 1, "symbols");
    g.sample(|| show(&a));
    let f = must!(ArchiveFile::parse(&a.v[..]), "parse");
    ensure_eq!(f.kind(), kind_of(&a), "kind");
    ensure_eq!(f.is_thin(), a.thin, "thin");
    if a.v.len() >= 16 && !matches!(a.di, Aix | Zos) {
        ensure_eq!(FileKind::parse(&a.v[..]).ok(), Some(FileKind::Archive), "file kind");
    }
    for round in 0..2 {
        let mut it = f.members();
        for (i, m) in a.mems.iter().enumerate() {
            let x = must!(must_some!(it.next(), "member {i} in round {round}"), "member {i}");
            check_member(&a, m, &x, &format!("member {i}"))?;
        }
        ensure!(it.next().is_none(), "extra member");
    }
    // Random access.
    for (i, m) in a.mems.iter().enumerate() {
        let x = must!(f.member(ArchiveOffset(m.hdr)), "member {i} by offset");
        check_member(&a, m, &x, &format!("member {i} by offset"))?;
    }
    let end = a.v.len() as u64;
    for o in [end, end + 1, !0] {
        ensure!(f.member(ArchiveOffset(o)).is_err(), "member at {o:#x}, after the end {end:#x}");
    }
    if a.di != Aix {
        let first = a.mems.iter().map(|m| m.hdr).min().unwrap_or(end);
        ensure!(f.member(ArchiveOffset(0)).is_err(), "member at the magic");
        if first > 8 {
            ensure!(f.member(ArchiveOffset(8)).is_err(), "special member by offset");
        }
    }
    // Symbols.
    let s = must!(f.symbols(), "symbols");
    let supported = !matches!(a.di, Aix | Zos);
    if !a.symtab {
        ensure!(s.is_none(), "symbols without a table");
    } else if supported {
        let s = must_some!(s, "symbol table");
        let (lo, hi) = s.size_hint();
        ensure_eq!((lo, hi), (a.syms.len(), Some(a.syms.len())), "symbol size hint");
        let got: Result<Vec<_>> = s.collect();
        let got = must!(got, "symbols");
        ensure_eq!(got.len(), a.syms.len(), "symbol count");
        for (i, (x, (n, m))) in got.iter().zip(&a.syms).enumerate() {
            ensure_eq!(x.name(), &n[..], "name of symbol {i}");
            ensure_eq!(x.offset().0, a.mems[*m].hdr, "offset of symbol {i}");
            let y = must!(f.member(x.offset()), "member of symbol {i}");
            check_member(&a, &a.mems[*m], &y, &format!("member of symbol {i}"))?;
        }
    }
    Ok(())
}

/// Damages one thing; everything before it is unchanged, and the damaged thing is an error.
fn bad(g: &mut Gen) -> R {
    let mut a = gen_ar(g);
    if a.mems.is_empty() {
        return Ok(());
    }
    let k = g.below(a.mems.len());
    let zos = a.di == Zos;
    let put = |v: &mut Bytes, at: usize, s: &[u8], w: usize| {
        let mut t = s.to_vec();
        t.resize(w, b' ');
        let t = if zos { to_ebcdic(&t) } else { t };
        v[at..at + w].copy_from_slice(&t);
    };
    g.nontrivial();
    let m = a.mems[k].clone();
    // What has to happen to member k: an error from the iteration, or from its data.
    let mut data_error = false;
    let what = match g.below(7) {
        0 => {
            a.v[m.term_at + g.below(2)] ^= 1 << g.below(8);
            "terminator"
        }
        1 => {
            let s: &[u8] = *g.pick(&[&b""[..], b" 1", b"x", b"1x", b"-1", b"+5", b"12\n", b"1,0"]);
            let w = if a.di == Aix { 20 } else { 10 };
            put(&mut a.v, m.size_at, s, w);
            "size text"
        }
        2 if !a.thin => {
            let left = a.v.len() as u64 - m.range.0;
            let w = if a.di == Aix { 20 } else { 10 };
            let extra = if a.di == Aix { 0 } else { m.range.0 - (m.term_at as u64 + 2) };
            let s = left + extra + 1 + g.upto(100_000);
            put(&mut a.v, m.size_at, s.to_string().as_bytes(), w);
            data_error = true;
            "size beyond the file"
        }
        3 => {
            // Truncate inside the header.
            if a.di == Aix {
                return Ok(());
            }
            let cut = m.hdr as usize + g.range(1, 59);
            a.v.truncate(cut);
            "truncated header"
        }
        4 if matches!(a.di, Gnu | Gnu64 | Coff) => {
            let n = a.names_range.1;
            let s = match g.below(3) {
                0 => format!("/{}", n + g.len(3)),
                1 => "/0x".into(),
                _ => format!("/{}", n as u64 + g.uint(40)),
            };
            put(&mut a.v, m.name_at, s.as_bytes(), 16);
            "name outside the table"
        }
        4 if matches!(a.di, Bsd | Bsd64 | Zos) => {
            let total = m.range.0 + m.range.1 - (m.term_at as u64 + 2);
            let s = match g.below(3) {
                0 => format!("#1/{}", total + 1 + g.upto(3)),
                1 => "#1/1x".into(),
                _ => format!("#1/{}", total + 1 + g.uint(40)),
            };
            put(&mut a.v, m.name_at, s.as_bytes(), 16);
            "name longer than the member"
        }
        4 => {
            let s = match g.below(3) {
                0 => "".to_string(),
                1 => "z".into(),
                _ => "9999".into(),
            };
            if s == "9999" && a.v.len() >= 9999 {
                return Ok(());
            }
            put(&mut a.v, m.name_at, s.as_bytes(), 4);
            "name length"
        }
        5 if a.di == Aix => {
            let o = match g.below(3) {
                0 => "-".to_string(),
                1 => format!("{}", a.v.len() as u64 - 100 + g.uint(62)),
                _ => "18446744073709551616".into(),
            };
            put(&mut a.v, a.idx_at + 20 + 20 * k, o.as_bytes(), 20);
            "index entry"
        }
        _ => {
            // The long name table is not terminated.
            if a.names_range.1 == 0 || a.di == Coff {
                return Ok(());
            }
            let (o, n) = a.names_range;
            for c in &mut a.v[o..o + n] {
                if *c == b'\n' {
                    *c = b'_';
                }
            }
            let f = must!(ArchiveFile::parse(&a.v[..]), "parse");
            for (x, m) in f.members().zip(&a.mems) {
                let long = a.v[m.name_at] == b'/';
                ensure_eq!(x.is_err(), long, "unterminated name");
                if long {
                    break;
                }
            }
            return Ok(());
        }
    };
    g.label(what);
    g.sample(|| format!("{what} of member {k}: {}", show(&a)));
    let Ok(f) = ArchiveFile::parse(&a.v[..]) else {
        // Members which could be special are looked at by the parser.
        ensure!(k < 3 && a.di != Aix, "parse error for damaged member {k}");
        return Ok(());
    };
    let mut it = f.members();
    for (i, m) in a.mems[..k].iter().enumerate() {
        let x = must!(must_some!(it.next(), "member {i}"), "member {i} before the damage");
        ensure_eq!(x.name(), &m.name[..], "name of member {i} before the damage");
        ensure_eq!(x.data(&a.v[..]).ok(), Some(&m.data[..]), "data of member {i} before the damage");
    }
    match it.next() {
        None => fail!("no member for {what}"),
        Some(Err(_)) => ensure!(!data_error, "unexpected error for {what}"),
        Some(Ok(x)) => {
            ensure!(data_error, "no error for {what}: name {:?} range {:?}", String::from_utf8_lossy(x.name()), x.file_range());
            ensure!(x.data(&a.v[..]).is_err(), "data for {what}");
            if a.di != Aix {
                ensure!(it.next().is_none(), "member after the end of the file");
            }
            return Ok(());
        }
    }
    ensure!(it.next().is_none(), "iteration continues after an error");
    if !(a.di == Aix && what == "index entry") {
        ensure!(f.member(ArchiveOffset(m.hdr)).is_err(), "no error by offset for {what}");
    }
    Ok(())
}

/// Damaged symbol tables.
fn badsyms(g: &mut Gen) -> R {
    let mut a = gen_ar(g);
    if !a.symtab || matches!(a.di, Aix | Zos) || a.syms.is_empty() {
        return Ok(());
    }
    let n = a.syms.len();
    let w = if matches!(a.di, Gnu64 | Bsd64) { 8 } else { 4 };
    let be = matches!(a.di, Gnu | Gnu64);
    let (at, size) = (a.sym_at, a.sym_size);
    let mut b = B { be, is64: true, v: std::mem::take(&mut a.v) };
    g.nontrivial();
    let bits = if w == 8 { 50 } else { 31 };
    match g.below(3) {
        0 => {
            // Count outside the table.
            let (p, min) = match a.di {
                Gnu | Gnu64 => (at, size / w),
                Bsd | Bsd64 => (at, size),
                _ if g.bool() => (at, size / 4),
                _ => (at + 4 + 4 * a.mems.len(), size / 2),
            };
            b.put(p, w, min as u64 + g.uint(bits));
            g.label("count");
            let f = must!(ArchiveFile::parse(&b.v[..]), "parse");
            ensure!(f.symbols().is_err(), "{:?} symbol count outside the table", a.di);
        }
        1 => {
            // Names missing: an error for these, the others unchanged.
            let k = g.below(n);
            g.label("names");
            match a.di {
                Bsd | Bsd64 => {
                    b.put(at + w + 2 * w * k, w, size as u64 + g.uint(bits));
                    let f = must!(ArchiveFile::parse(&b.v[..]), "parse");
                    let s: Vec<_> = must_some!(must!(f.symbols(), "symbols"), "symbols").collect();
                    ensure_eq!(s.len(), n, "symbols");
                    for (i, x) in s.iter().enumerate() {
                        ensure_eq!(x.as_ref().ok().map(|x| x.name()), if i == k { None } else { Some(&a.syms[i].0[..]) }, "symbol {i}, damaged {k}");
                    }
                }
                _ => {
                    // Everything from the terminator of name k to the end has no terminator.
                    let names: usize = a.syms[..k].iter().map(|s| s.0.len() + 1).sum();
                    let start = match a.di {
                        Coff => at + 8 + 4 * a.mems.len() + 2 * n,
                        _ => at + w + w * n,
                    };
                    for c in &mut b.v[start + names..at + size] {
                        if *c == 0 {
                            *c = b'z';
                        }
                    }
                    let f = must!(ArchiveFile::parse(&b.v[..]), "parse");
                    let s: Vec<_> = must_some!(must!(f.symbols(), "symbols"), "symbols").take(n + 1).collect();
                    ensure_eq!(s.len(), n, "symbols");
                    for (i, x) in s.iter().enumerate() {
                        ensure_eq!(x.as_ref().ok().map(|x| x.name()), if i >= k { None } else { Some(&a.syms[i].0[..]) }, "symbol {i}, damaged from {k}");
                    }
                }
            }
        }
        _ => {
            if a.di != Coff {
                return Ok(());
            }
            let k = g.below(n);
            let bad = if g.bool() { 0 } else { g.range(a.mems.len() + 1, 65535) };
            b.put(at + 8 + 4 * a.mems.len() + 2 * k, 2, bad as u64);
            g.label("member index");
            let f = must!(ArchiveFile::parse(&b.v[..]), "parse");
            let s: Vec<_> = must_some!(must!(f.symbols(), "symbols"), "symbols").collect();
            for (i, x) in s.iter().enumerate() {
                ensure_eq!(x.as_ref().ok().map(|x| x.name()), if i == k { None } else { Some(&a.syms[i].0[..]) }, "symbol {i}, damaged {k}");
            }
        }
    }
    Ok(())
}

fn main() {
    run(
        "C17",
        "an archive with more than one member (good), or a damaged one",
        &["symbol tables of AIX and z/OS archives are not read by the crate and only skipped here"],
        &[sub("good", 150_000, 4_000_000, good), sub("bad", 100_000, 2_000_000, bad), sub("badsyms", 100_000, 2_000_000, badsyms)],
    );
}
