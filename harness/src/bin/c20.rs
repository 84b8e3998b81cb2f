//! C20: symbol maps, Mach-O object maps and relocation maps against linear scans.
use object::read::*;
use object::{SymbolFlags, SymbolKind, SymbolScope};
use vh::b::*;
use vh::elf::{Img, Rel, Sec, Sym};
use vh::*;
#[path = "../images.rs"]
mod images;

#[derive(Clone, Debug, PartialEq)]
struct E(u64, u64, usize);
impl SymbolMapEntry for E {
    fn address(&self) -> u64 {
        self.0
    }
    fn size(&self) -> u64 {
        self.1
    }
}

/// Addresses worth asking about for the given bounds.
fn asks(g: &mut Gen, bounds: &[u64]) -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX, u64::MAX - 1, g.u64()];
    for &b in bounds {
        v.extend([b, b.wrapping_sub(1), b.wrapping_add(1)]);
        let x = g.uint(6);
        v.push(b.wrapping_add(x));
    }
    v.sort_unstable();
    v.dedup();
    while v.len() > 60 {
        let i = g.below(v.len());
        v.swap_remove(i);
    }
    v
}

/// Arbitrary entries.
fn lookup(g: &mut Gen) -> R {
    let n = g.len(24);
    let bits = g.pickc(&[4u32, 5, 8, 64]);
    let high = g.chance(1, 4);
    let mut entries = vec![];
    for i in 0..n {
        let mut a = g.bits(bits);
        if high {
            a = u64::MAX - a;
        }
        let s = match g.upto(3) {
            0 => 0,
            1 => g.upto(4),
            2 => g.bits(bits),
            _ => g.u64(),
        };
        entries.push(E(a, s, i));
    }
    let map = SymbolMap::new(entries.clone());
    let got = map.symbols();
    ensure_eq!(got.len(), n, "number of entries");
    for w in got.windows(2) {
        ensure!(w[0].0 <= w[1].0, "symbols() is not sorted: {:?}", w);
    }
    let mut ids: Vec<_> = got.iter().map(|e| e.2).collect();
    ids.sort_unstable();
    ensure_eq!(ids, (0..n).collect::<Vec<_>>(), "entries kept");
    ensure!(got.iter().all(|e| entries[e.2] == *e), "an entry changed");
    let mut bounds: Vec<u64> = entries.iter().flat_map(|e| [e.0, e.0.wrapping_add(e.1)]).collect();
    bounds.dedup();
    let mut hits = 0;
    for a in asks(g, &bounds) {
        let near = entries.iter().filter(|e| e.0 <= a).map(|e| e.0).max();
        let before = map.before(a);
        ensure_eq!(before.map(|e| e.0), near, "address of before({:#x}) in {:x?}", a, entries);
        if let Some(e) = before {
            ensure!(entries[e.2] == *e, "before({:#x}) returned an entry that is not in the map", a);
        }
        #[allow(deprecated)]
        let get = map.get(a);
        ensure_eq!(get.map(|e| e.0), near, "address of get({:#x})", a);
        let holds = |e: &E| e.1 == 0 || a - e.0 < e.1;
        let all: Vec<&E> = entries.iter().filter(|e| Some(e.0) == near).collect();
        match map.containing(a) {
            Some(e) => {
                hits += 1;
                ensure!(all.contains(&e) && holds(e), "containing({:#x}) is {:x?} in {:x?}", a, e, entries);
            }
            None => ensure!(
                all.is_empty() || all.iter().any(|e| !holds(e)),

                "containing({:#x}) is none in {:x?}",
                a,
                entries
            ),
        }
    }
    g.nontrivial_if(hits >= 2 && n >= 3);
    g.sample(|| format!("{n} entries, {hits} addresses contained"));
    Ok(())
}

/// One candidate of a symbol map.
#[derive(Clone, Debug)]
struct Cand {
    addr: u64,
    size: u64,
    name: String,
    /// Lower is better; the last one of equal rank wins.
    rank: [u32; 4],
    index: usize,
}

/// The documented contents of a symbol map, by linear scans: (address, size, name).
fn expected(cands: &[Cand], ends: &[u64]) -> Vec<(u64, u64, String)> {
    let mut addrs: Vec<u64> = cands.iter().map(|c| c.addr).collect();
    addrs.sort_unstable();
    addrs.dedup();
    let mut out = vec![];
    for &a in &addrs {
        let best = cands.iter().filter(|c| c.addr == a).min_by(|x, y| x.rank.cmp(&y.rank).then(y.index.cmp(&x.index))).unwrap();
        let mut size = best.size;
        if size == 0 {
            let next = addrs.iter().chain(ends).filter(|&&x| x > a).min();
            size = next.map_or(0, |n| n - a);
        }
        out.push((a, size, best.name.clone()));
    }
    out
}

fn same(map: &SymbolMap<SymbolMapName<'_>>, want: &[(u64, u64, String)], what: &str) -> R {
    let got: Vec<_> = map.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_string())).collect();
    for (x, y) in got.iter().zip(want) {
        ensure_eq!(x, y, "{}: entry of the symbol map", what);
    }
    ensure_eq!(got.len(), want.len(), "{}: entries of the symbol map", what);
    Ok(())
}

fn scan(map: &SymbolMap<SymbolMapName<'_>>, g: &mut Gen, want: &[(u64, u64, String)]) -> R<usize> {
    let bounds: Vec<u64> = want.iter().take(40).flat_map(|e| [e.0, e.0.wrapping_add(e.1)]).collect();
    let mut hits = 0;
    for a in asks(g, &bounds) {
        let near = want.iter().filter(|e| e.0 <= a).max_by_key(|e| e.0);
        ensure_eq!(map.before(a).map(|s| s.name()), near.map(|e| e.2.as_str()), "before({:#x})", a);
        let inside = near.filter(|e| e.1 == 0 || a - e.0 < e.1);
        ensure_eq!(map.containing(a).map(|s| s.name()), inside.map(|e| e.2.as_str()), "containing({:#x})", a);
        hits += inside.is_some() as usize;
    }
    Ok(hits)
}

fn scope_rank(s: SymbolScope) -> u32 {
    match s {
        SymbolScope::Dynamic => 0,
        SymbolScope::Linkage => 1,
        SymbolScope::Compilation => 2,
        _ => 3,
    }
}

/// ELF files with symbols crowded into few addresses.
fn elf_map(g: &mut Gen) -> R {
    let mut m = Img::random(g);
    m.ety = g.pickc(&[1u16, 2, 3]);
    m.machine = g.pickc(&[3u16, 62, 40, 183, 8]);
    let wide = g.chance(1, 3);
    let high = g.chance(1, 8);
    let max = if m.is64 { u64::MAX } else { u32::MAX as u64 };
    let place = |g: &mut Gen| {
        let a = g.upto(if wide { 200 } else { 12 });
        if high { max - a } else { a }
    };
    let ns = g.range(0, 4);
    for i in 0..ns {
        let j = m.add(format!(".s{i}").as_bytes(), 1, vec![]);
        let s = &mut m.secs[j];
        s.ty = 8;
        s.addr = place(g);
        s.size = g.upto(if wide { 100 } else { 12 });
    }
    let table = |g: &mut Gen, m: &Img, tag: &str| -> (Vec<Sym>, Vec<Cand>, Vec<u8>, B) {
        let mut strtab = vec![0u8];
        let (mut syms, mut cands) = (vec![Sym::default()], vec![]);
        let n = g.len(16);
        for k in 0..n {
            let mut name = format!("{tag}{k}").into_bytes();
            match g.upto(9) {
                0 => name.clear(),
                1 => name.insert(0, b'$'),
                2 => name = vec![0xff, 0x80],
                _ => {}
            }
            let mut s = Sym { name: name.clone(), name_off: strtab.len() as u32, ..Sym::default() };
            strtab.extend(&name);
            strtab.push(0);
            let ty = g.pickc(&[2u8, 1, 2, 1, 0, 0, 3, 4, 6]);
            let bind = g.pickc(&[0u8, 1, 1, 2, 13]);
            s.info = bind << 4 | ty;
            s.other = g.upto(3) as u8;
            s.shndx = match g.upto(6) {
                0 => g.pickc(&[0u16, 0xfff1, 0xfff2, 0xff20]),
                _ => g.range(1, ns.max(1)) as u16,
            };
            s.value = place(g);
            s.size = if g.chance(2, 5) { 0 } else { g.upto(if wide { 30 } else { 5 }) };
            let known = matches!(ty, 1 | 2);
            let ok = s.shndx != 0 && s.shndx < 0xff00 && (known || ty == 0 && !(bind == 0 && name.first() == Some(&b'$')));
            if let (true, Ok(n), false) = (ok, String::from_utf8(name.clone()), name.is_empty()) {
                let scope = match bind {
                    0 => 2,
                    1 | 2 => (s.other & 3 == 2) as u32,
                    _ => 3,
                };
                cands.push(Cand { addr: s.value, size: s.size, name: n, rank: [!known as u32, 0, (s.size == 0) as u32, scope], index: k + 1 });
            }
            syms.push(s);
        }
        let mut b = m.b();
        for s in &syms {
            m.put_sym(&mut b, s);
        }
        (syms, cands, strtab, b)
    };
    let (with_sym, with_dyn) = g.pickc(&[(true, false), (true, true), (false, true), (true, false), (false, false)]);
    let mut want = vec![];
    let mut raw: Option<Vec<Sym>> = None;
    let order = g.bool();
    let mut tables: Vec<(bool, u32)> = vec![(with_sym, 2), (with_dyn, 11)];
    if order {
        tables.reverse();
    }
    for (on, ty) in tables {
        if !on {
            continue;
        }
        let (syms, cands, strtab, b) = table(g, &m, if ty == 2 { "f" } else { "d" });
        let st = m.add(if ty == 2 { b".strtab" } else { b".dynstr" }, 3, strtab);
        let n = m.add(if ty == 2 { b".symtab" } else { b".dynsym" }, ty, b.v);
        m.secs[n].link = st as u32;
        m.secs[n].entsize = m.symsize() as u64;
        m.secs[n].align = 8;
        if ty == 2 || !with_sym {
            want = cands;
            raw = Some(syms);
        }
    }
    let v = m.build(g);
    let lim = |x: u64, y: u64| x.saturating_add(y);
    let ends: Vec<u64> = m.secs.iter().map(|s| lim(s.addr, s.size)).collect();
    // The null section is not listed.
    let ends = &ends[ends.len().min(1)..];
    let f = must!(File::parse(&*v), "parse");
    let want = expected(&want, ends);
    let map = f.symbol_map();
    same(&map, &want, "elf")?;
    let hits = scan(&map, g, &want)?;
    same(&SymbolMapBuilder::new().build(&f), &want, "builder")?;
    // The table's own map keeps every definition the callback keeps.
    if let Some(raw) = raw {
        g.label(if with_sym { "symtab" } else { "dynsym" });
        low_map(&f, g, &raw, with_sym)?;
    }
    g.nontrivial_if(want.len() >= 2 && hits >= 2);
    g.file(&v)?;
    g.sample(|| format!("ELF: {} map entries, {hits} contained addresses, section ends {:x?}", want.len(), ends));
    Ok(())
}

fn low_map(f: &File, g: &mut Gen, raw: &[Sym], sym: bool) -> R {
    use object::read::elf::{ElfFile, FileHeader, Sym as _};
    fn go<'d, Elf: FileHeader<Endian = object::Endianness>>(f: &ElfFile<'d, Elf>, g: &mut Gen, raw: &[Sym], sym: bool) -> R {
        let t = if sym { f.elf_symbol_table() } else { f.elf_dynamic_symbol_table() };
        let e = f.endian();
        let keep = g.bool();
        let mut want: Vec<u64> = raw
            .iter()
            .filter(|s| s.shndx != 0 && s.shndx < 0xff00 && matches!(s.info & 15, 0..=2))
            .filter(|s| !(s.info == 0 && s.name.first() == Some(&b'$')))
            .filter(|s| keep || s.value % 2 == 0)
            .map(|s| s.value)
            .collect();
        want.sort_unstable();
        let map = t.map(e, |s| {
            let a: u64 = s.st_value(e).into();
            (keep || a % 2 == 0).then(|| E(a, s.st_size(e).into(), 0))
        });
        ensure_eq!(map.symbols().iter().map(|e| e.0).collect::<Vec<_>>(), want, "addresses of the symbol table's map");
        Ok(())
    }
    match f {
        File::Elf32(f) => go(f, g, raw, sym),
        File::Elf64(f) => go(f, g, raw, sym),
        _ => fail!("not an ELF file"),
    }
}

/// Any file: the map against the symbols and sections the same file lists.
fn check_any(f: &File, g: &mut Gen) -> R<usize> {
    let mut cands = vec![];
    let mut ends: Vec<u64> = f.sections().map(|s| s.address().saturating_add(s.size())).collect();
    let table = f.symbol_table().or_else(|| f.dynamic_symbol_table());
    if table.is_none() {
        ends.clear();
    }
    for s in table.iter().flat_map(|t| t.symbols()) {
        let Ok(name) = s.name() else { continue };
        let kind = match s.kind() {
            SymbolKind::Text | SymbolKind::Data => 0,
            SymbolKind::Unknown => 1,
            _ => continue,
        };
        if !s.is_definition() || name.is_empty() {
            continue;
        }
        let mut label = 0;
        if let SymbolFlags::Xcoff { x_smtyp, .. } = s.flags() {
            // A label.
            label = (x_smtyp.0 & 7 != 2) as u32;
            if s.size() != 0 {
                ends.push(s.address().saturating_add(s.size()));
            }
        }
        cands.push(Cand {
            addr: s.address(),
            size: s.size(),
            name: name.to_string(),
            rank: [kind, label, (s.size() == 0) as u32, scope_rank(s.scope())],
            index: s.index().0,
        });
    }
    let want = expected(&cands, &ends);
    let map = f.symbol_map();
    same(&map, &want, "file")?;
    scan(&map, g, &want)?;
    Ok(want.len())
}
fn any(g: &mut Gen) -> R {
    let v = match g.upto(5) {
        0 | 1 => images::object(g),
        2 => crowded_coff(g),
        3 => crowded_xcoff(g),
        _ => crowded_macho(g),
    };
    let f = match File::parse(&*v) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let n = check_any(&f, g)?;
    let r = relocations(&f, g)?;
    g.nontrivial_if(n >= 2 || r >= 2);
    g.file(&v)?;
    g.sample(|| format!("{:?}: {n} map entries, {r} relocations", f.format()));
    Ok(())
}

fn crowded_coff(g: &mut Gen) -> Vec<u8> {
    let mut c = vh::coff::gen_coff(g);
    c.opt.clear();
    c.no_symtab = false;
    for s in &mut c.secs {
        s.vaddr = g.upto(20) as u32;
        for r in &mut s.rels {
            r.off = g.upto(8) as u32;
            if g.bool() {
                r.ty = g.pickc(&[1u16, 2, 6, 0, 3, 7]);
            }
        }
    }
    let ns = c.secs.len() as i32;
    for s in &mut c.syms {
        s.value = g.upto(10) as u32;
        if s.sec > 0 && ns > 0 {
            s.sec = 1 + s.sec % ns;
        }
        if g.bool() {
            s.name = g.ident(10).into_bytes();
        }
    }
    g.label("crowded coff");
    c.emit(g)
}
fn crowded_xcoff(g: &mut Gen) -> Vec<u8> {
    let (mut x, _) = vh::xcoff::generate(g);
    let is64 = x.is64;
    for s in &mut x.secs {
        s.paddr = g.upto(20);
        if s.is_bss() {
            s.size = g.upto(30);
        }
        s.rels.truncate(6);
        for r in &mut s.rels {
            r.addr = s.paddr + g.upto(6);
            if g.bool() {
                r.ty = 0;
                r.size = if is64 { 63 } else { 31 };
            }
        }
    }
    x.secs.retain(|s| s.flags & 0x8000 == 0);
    for s in &mut x.secs {
        s.nreloc = s.rels.len() as u32;
        s.nlnno = 0;
    }
    let ns = x.secs.len() as i16;
    for s in &mut x.syms {
        s.value = g.upto(25);
        if ns > 0 {
            s.sec = g.range(1, ns as usize) as i16;
        }
        if s.linkage() {
            let mut c = s.csect(is64).unwrap_or_default();
            c.smtyp = g.pickc(&[1u8, 2, 2, 1, 3, 0]) | (g.upto(4) as u8) << 3;
            c.smclas = g.pickc(&[0u8, 5, 0, 5, 9, 10, 15]);
            c.len = g.upto(8);
            if let Some(a) = s.aux.last_mut() {
                *a = c.encode(is64);
            }
        }
    }
    g.label("crowded xcoff");
    x.emit(g)
}
fn crowded_macho(g: &mut Gen) -> Vec<u8> {
    let mut m = vh::macho::gen_header(g);
    m.filetype = g.pickc(&[1u32, 2]);
    let ns = g.range(1, 3);
    let mut seg = vh::macho::Seg { maxprot: 7, initprot: 7, vmsize: 100, ..Default::default() };
    for i in 0..ns {
        let debug = g.chance(1, 3);
        let mut s = vh::macho::Sect {
            name: if debug { format!("__debug_{i}") } else { format!("__s{i}") }.into_bytes(),
            seg: if debug { b"__DWARF".to_vec() } else { b"__TEXT".to_vec() },
            addr: g.upto(20),
            flags: if debug { 0x0200_0000 } else { 0x8000_0400 },
            ..Default::default()
        };
        s.data = Some(g.blob(20));
        s.size = s.data.as_ref().unwrap().len() as u64;
        for _ in 0..g.len(5) {
            let ext = g.bool();
            let sym = g.upto(5) as u32;
            let (addr, pcrel, ty) = (g.upto(16) as u32, g.chance(1, 8), if g.chance(1, 5) { g.upto(9) as u8 } else { 0 });
            let len = g.pickc(&[2u8, 3, 2, 3, 0, 1]);
            s.rels.push(vh::macho::rel(m.be, addr, sym, pcrel, len, ext, ty));
        }
        seg.sects.push(s);
    }
    m.segs.push(seg);
    m.cmds = vec![vh::macho::Lc::Seg(0), vh::macho::Lc::Symtab];
    m.strtab = vec![0];
    for k in 0..g.len(14) {
        let strx = if g.chance(1, 8) { 0 } else { m.strtab.len() as u32 };
        m.strtab.extend(format!("_{k}\0").bytes());
        let ty = g.pickc(&[0xeu8, 0xf, 0x1e, 0x1f, 0xf, 1, 3, 0x24, 0xe]);
        let (sect, desc, value) = (g.range(1, ns) as u8, g.pickc(&[0u16, 0x20, 0x40, 0x80]), g.upto(24));
        m.syms.push(vh::macho::Nl { strx, ty, sect, desc, value, ..Default::default() });
    }
    g.label("crowded mach-o");
    m.encode(g)
}

/// The relocation maps of every section against a scan of the section's relocations.
fn relocations(f: &File, g: &mut Gen) -> R<usize> {
    let mut n = 0;
    for s in f.sections().take(12) {
        let list: Vec<(u64, Relocation)> = s.relocations().take(200).collect();
        if list.len() >= 200 {
            continue;
        }
        let mut good: Vec<(u64, bool, u64)> = vec![];
        let mut bad = false;
        let mut own = RelocationMap::default();
        for ((off, r), (_, again)) in list.iter().zip(s.relocations()) {
            n += 1;
            let want = meaning(f, r);
            let mut add = match want {
                Some(_) if r.kind() == RelocationKind::None => Ok(None),
                Some(a) if good.iter().any(|x| x.0 == *off) => {
                    let _ = a;
                    Err("duplicate")
                }
                Some(a) => Ok(Some(a)),
                None => Err("unsupported"),
            };
            if r.kind() == RelocationKind::None {
                add = Ok(None);
            }
            let got = own.add(f, *off, again);
            ensure_eq!(got.is_ok(), add.is_ok(), "RelocationMap::add of {:x?} at {:#x}: {:?}", r, off, add);
            match add {
                Ok(Some(a)) => {
                    g.label("relocation kept");
                    good.push((*off, r.has_implicit_addend(), a))
                }
                Ok(None) => g.label("relocation without effect"),
                Err(e) => {
                    g.label(e);
                    bad = true;
                    if e == "duplicate" {
                        // What such an offset does afterwards is open.
                        let i = good.iter().position(|x| x.0 == *off).unwrap();
                        good.remove(i);
                        break;
                    }
                }
            }
        }
        let map = s.relocation_map();
        ensure_eq!(map.is_ok(), !bad, "relocation_map of {:?}", list);
        for m in map.iter().chain(bad.then_some(&own)) {
            for &(off, implicit, a) in &good {
                let v = g.u64();
                let want = if implicit { v.wrapping_add(a) } else { a };
                ensure_eq!(m.relocate(off, v), want, "value {:#x} relocated at {:#x} of {:?}", v, off, list);
            }
            for _ in 0..3 {
                let off = g.upto(30);
                if !list.iter().any(|x| x.0 == off) {
                    let v = g.u64();
                    ensure_eq!(m.relocate(off, v), v, "value without relocation at {:#x}", off);
                }
            }
        }
    }
    Ok(n)
}
/// What the relocation adds or stores, or none if unsupported.
fn meaning(f: &File, r: &Relocation) -> Option<u64> {
    if r.kind() == RelocationKind::None {
        return Some(0);
    }
    if r.kind() != RelocationKind::Absolute || r.encoding() != RelocationEncoding::Generic {
        return None;
    }
    let base = match r.target() {
        RelocationTarget::Symbol(i) => f.symbol_by_index(i).ok()?.address(),
        RelocationTarget::Section(i) => {
            let s = f.section_by_index(i).ok()?;
            if s.kind() == SectionKind::Debug { 0 } else { s.address() }
        }
        _ => return None,
    };
    Some(base.wrapping_add(r.addend() as u64))
}
use object::{RelocationEncoding, RelocationKind, SectionKind};

/// ELF relocations from the encoded values.
fn elf_relocs(g: &mut Gen) -> R {
    let mut m = Img::random(g);
    m.ety = g.pickc(&[1u16, 1, 1, 2]);
    // (machine, kept types, ignored types, unsupported types)
    let (machine, kept, none, other): (u16, &[u32], u32, &[u32]) =
        if m.is64 { g.pickc(&[(62u16, &[1u32, 10][..], 0u32, &[2u32, 4, 11, 100][..]), (183, &[257, 258], 0, &[261, 283, 9999]), (22, &[22, 4], 0, &[5, 26])]) } else { g.pickc(&[(3u16, &[1u32, 20][..], 0u32, &[2u32, 4, 99][..]), (40, &[2], 0, &[3, 28, 250])]) };
    m.machine = machine;
    let mask = if m.is64 { u64::MAX } else { u32::MAX as u64 };
    let ns = g.range(1, 4);
    for i in 0..ns {
        let name = if g.bool() { format!(".debug_{i}") } else { format!(".s{i}") };
        let data = g.blob(20);
        let j = m.add(name.as_bytes(), 1, data);
        m.secs[j].addr = g.uint(16);
    }
    let mut syms = vec![Sym::default()];
    for _ in 0..g.range(1, 8) {
        let ty = g.pickc(&[0u8, 1, 2, 3, 3]);
        let mut s = Sym { info: g.pickc(&[0u8, 1, 2]) << 4 | ty, ..Sym::default() };
        s.shndx = match g.upto(5) {
            0 => g.pickc(&[0u16, 0xfff1, 0xfff2]),
            _ => g.range(1, ns) as u16,
        };
        s.value = if g.bool() { g.upto(100) } else { g.u64() & mask };
        syms.push(s);
    }
    let rela = g.chance(2, 3);
    let target = g.range(1, ns);
    let mut rels = vec![];
    for _ in 0..g.len(8) {
        let ty = match g.upto(5) {
            0 => none,
            1 if g.chance(1, 3) => *g.pick(other),
            _ => *g.pick(kept),
        };
        let sym = match g.upto(11) {
            0 => 0,
            1 => g.range(syms.len(), syms.len() + 3) as u32,
            _ => g.range(1, syms.len() - 1) as u32,
        };
        let off = if g.chance(1, 8) { g.upto(4) } else { g.uint(32) };
        let addend = match g.upto(2) {
            0 => 0,
            1 => g.upto(40) as i64 - 20,
            _ => (g.u64() & mask) as i64,
        };
        let addend = if m.is64 { addend } else { addend as i32 as i64 };
        rels.push(Rel { off, sym, ty, addend: if rela { addend } else { 0 } });
    }
    let st = m.add(b".strtab", 3, vec![0]);
    let mut b = m.b();
    syms.iter().for_each(|s| m.put_sym(&mut b, s));
    let sy = m.add(b".symtab", 2, b.v);
    let (sz, es) = (m.symsize() as u64, m.word() as u64);
    m.secs[sy] = Sec { link: st as u32, entsize: sz, align: 8, ..m.secs[sy].clone() };
    let mut b = m.b();
    rels.iter().for_each(|r| m.put_rel(&mut b, r, rela));
    let rs = m.add(b".rel", if rela { 4 } else { 9 }, b.v);
    m.secs[rs] = Sec { link: sy as u32, info: target as u32, entsize: if rela { 3 * es } else { 2 * es }, align: 8, ..m.secs[rs].clone() };
    let v = m.build(g);
    let f = must!(File::parse(&*v), "parse");
    let s = must!(f.section_by_index(SectionIndex(target)), "section");
    let mut err = false;
    let mut want: Vec<(u64, u64)> = vec![];
    for r in &rels {
        if r.ty == none {
            continue;
        }
        // The null symbol means that there is no symbol: such a relocation is not supported.
        if !kept.contains(&r.ty) || r.sym == 0 || r.sym as usize >= syms.len() || want.iter().any(|w| w.0 == r.off) {
            err = true;
            continue;
        }
        let y = &syms[r.sym as usize];
        let addr = if y.shndx == 0xfff2 { 0 } else { y.value };
        want.push((r.off, addr.wrapping_add(r.addend as u64)));
    }
    let map = s.relocation_map();
    ensure_eq!(map.is_err(), err, "relocation_map of {:?} with {} symbols", rels, syms.len());
    if let Ok(map) = map {
        for &(off, a) in &want {
            let x = g.u64();
            let w = if rela { a } else { x.wrapping_add(a) };
            ensure_eq!(map.relocate(off, x), w, "value {:#x} relocated at {:#x} of {:x?} against {:x?}", x, off, rels, syms);
        }
        g.nontrivial_if(want.len() >= 2);
    }
    g.label_if(err, "rejected");
    g.file(&v)?;
    g.sample(|| format!("{} relocations, error {err}", rels.len()));
    Ok(())
}

/// Mach-O debug maps.
fn object_map(g: &mut Gen) -> R {
    let mut m = vh::macho::gen_header(g);
    m.cmds = vec![vh::macho::Lc::Symtab];
    m.strtab = vec![0];
    let bits = if g.bool() { 5 } else if m.is64 { 64 } else { 32 };
    let n = g.len(30);
    let mut list: Vec<(u8, Vec<u8>, u64)> = vec![];
    while list.len() < n {
        match g.upto(7) {
            // A complete function.
            0 | 1 => {
                let name = g.name(6);
                list.push((0x24, name, g.bits(bits)));
                list.push((0x24, vec![], g.uint(8)));
            }
            2 => list.push((0x24, if g.bool() { g.name(6) } else { vec![] }, g.bits(bits))),
            3 => list.push((0x26, if g.chance(1, 6) { vec![] } else { g.name(6) }, g.bits(bits))),
            4 | 5 => {
                let name: Vec<u8> = match g.upto(6) {
                    0 => vec![],
                    1 => b"lib.a(x.o)".to_vec(),
                    2 => b"a(b)(c)".to_vec(),
                    3 => g.pickc(&["x(", ")", "x)", "()", "(y)", "a(b)c", "(", "z()"]).as_bytes().to_vec(),
                    _ => g.name(8),
                };
                list.push((0x66, name, g.u64() & 0xffff));
            }
            6 => list.push((0x64, if g.bool() { vec![] } else { g.name(4) }, 0)),
            _ => list.push((g.pickc(&[0x2eu8, 0x4e, 0x20, 0x44, 0x0f, 0x0e, 0x1, 0x84, 0xff]), g.name(4), g.bits(bits))),
        }
    }
    for (ty, name, value) in &list {
        let mut strx = m.strtab.len() as u32;
        if name.is_empty() && g.bool() {
            strx = 0;
        } else {
            m.strtab.extend(name);
            m.strtab.push(0);
        }
        let (sect, desc) = (g.upto(2) as u8, g.u16());
        m.syms.push(vh::macho::Nl { strx, ty: *ty, sect, desc, value: *value, ..Default::default() });
    }
    // A module is open from a named N_OSO to the next N_SO or N_OSO. A function has a named entry and
    // then an unnamed one with its size.
    let mut objects: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    let mut entries: Vec<(u64, u64, Vec<u8>, usize)> = vec![];
    for (i, (ty, name, value)) in list.iter().enumerate() {
        let module = |i: usize| -> Option<usize> {
            let (k, last) = list[..i].iter().enumerate().rev().find(|(_, e)| e.0 == 0x64 || e.0 == 0x66)?;
            if last.0 == 0x64 || last.1.is_empty() {
                return None;
            }
            Some(list[..k].iter().filter(|e| e.0 == 0x66 && !e.1.is_empty()).count())
        };
        match ty {
            0x66 if !name.is_empty() => {
                let open = name.iter().position(|c| *c == b'(');
                objects.push(match open {
                    Some(p) if name.last() == Some(&b')') => (name[..p].to_vec(), Some(name[p + 1..name.len() - 1].to_vec())),
                    _ => (name.clone(), None),
                });
            }
            0x26 => {
                if let Some(o) = module(i) {
                    entries.push((*value, 0, name.clone(), o));
                }
            }
            0x24 if name.is_empty() => {
                // The start must be the last N_FUN entry before it.
                let last = list[..i].iter().rev().find(|e| e.0 == 0x24);
                if let (Some(o), Some(s)) = (module(i), last.filter(|e| !e.1.is_empty())) {
                    entries.push((s.2, *value, s.1.clone(), o));
                }
            }
            _ => {}
        }
    }
    let v = m.encode(g);
    let f = must!(File::parse(&*v), "parse");
    let map = f.object_map();
    let objs: Vec<_> = map.objects().iter().map(|o| (o.path().to_vec(), o.member().map(|m| m.to_vec()))).collect();
    ensure_eq!(objs, objects, "objects of {:?}", list);
    let mut got: Vec<_> = map.symbols().iter().map(|e| (e.address(), e.size(), e.name().to_vec(), e.object_index())).collect();
    for w in got.windows(2) {
        ensure!(w[0].0 <= w[1].0, "entries are not sorted");
    }
    for e in map.symbols() {
        let o = e.object(&map);
        ensure_eq!((o.path().to_vec(), o.member().map(|m| m.to_vec())), objects[e.object_index()], "object of an entry");
    }
    let all = entries.clone();
    got.sort();
    entries.sort();
    ensure_eq!(got, entries, "entries of {:?}", list);
    let bounds: Vec<u64> = all.iter().flat_map(|e| [e.0, e.0.wrapping_add(e.1)]).collect();
    let mut hits = 0;
    for a in asks(g, &bounds) {
        let near = all.iter().map(|e| e.0).filter(|x| *x <= a).max();
        let fits: Vec<_> = all.iter().filter(|e| Some(e.0) == near && (e.1 == 0 || a - e.0 < e.1)).collect();
        let same = all.iter().filter(|e| Some(e.0) == near).count();
        match map.get(a) {
            Some(e) => {
                hits += 1;
                let e = (e.address(), e.size(), e.name().to_vec(), e.object_index());
                ensure!(fits.contains(&&e), "get({:#x}) is {:?} in {:?}", a, e, all);
            }
            None => ensure!(fits.len() < same || same == 0, "get({:#x}) is none in {:?}", a, all),
        }
    }
    g.nontrivial_if(all.len() >= 2 && hits > 0);
    g.file(&v)?;
    g.sample(|| format!("{} STAB entries, {} objects, {} entries", list.len(), objects.len(), all.len()));
    Ok(())
}

fn main() {
    run(
        "C20",
        "a case is non-trivial when the map has several entries and lookups hit several of them, or several relocations are looked up",
        &[
            "which of several entries at one address is returned is open, except in the map built from a file",
            "nested symbols: only the nearest entry at or before the address counts as containing it",
        ],
        &[
            sub("lookup", 400_000, 20_000_000, lookup),
            sub("elf", 300_000, 15_000_000, elf_map),
            sub("any", 300_000, 15_000_000, any),
            sub("relocations", 300_000, 15_000_000, elf_relocs),
            sub("objects", 300_000, 15_000_000, object_map),
        ],
    )
}
