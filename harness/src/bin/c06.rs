//! C06: ELF relocations are read exactly in every encoding.
use object::elf;
use object::endian::*;
use object::read::elf::{ElfFile32, ElfFile64, FileHeader, Rel as _, Rela as _, SectionHeader as _};
use object::read::{Result, *};
use vh::b::B;
use vh::elf::{k::*, *};
use vh::elfrel::*;
use vh::*;

#[derive(Clone, Debug)]
struct List {
    sec: usize,
    ty: u32,
    rels: Vec<Rel>,
    crel_rela: bool,
}

fn sext(is64: bool, x: u64) -> i64 {
    if is64 { x as i64 } else { x as u32 as i32 as i64 }
}
fn mask(is64: bool, x: u64) -> u64 {
    if is64 { x } else { x as u32 as u64 }
}

/// Encode with the CREL rules (generic ABI proposal): cumulative deltas in the width of the class.
pub fn put_crel(g: &mut Gen, is64: bool, rels: &[Rel], rela: bool) -> Vec<u8> {
    let mut b = B::new(false, false);
    let m = rels.iter().fold(8u64, |m, r| m | r.off);
    let max_shift = m.trailing_zeros() as u64;
    let shift = if g.bool() { max_shift } else { g.upto(max_shift) };
    b.uleb((rels.len() as u64) << 3 | (rela as u64) << 2 | shift);
    let bits = 2 + rela as u32;
    let mut p = Rel { off: 0, sym: 0, ty: 0, addend: 0 };
    for r in rels {
        let delta = mask(is64, r.off.wrapping_sub(p.off)) >> shift;
        let dsym = r.sym.wrapping_sub(p.sym) as i32 as i64;
        let dty = r.ty.wrapping_sub(p.ty) as i32 as i64;
        let dadd = sext(is64, r.addend.wrapping_sub(p.addend) as u64);
        // Redundant zero deltas are allowed.
        let f = (dsym != 0 || g.chance(1, 20)) as u64 | ((dty != 0 || g.chance(1, 20)) as u64) << 1 | if rela { ((dadd != 0 || g.chance(1, 20)) as u64) << 2 } else { 0 };
        let low = (delta << bits | f) as u8 & 0x7f;
        let rest = delta >> (7 - bits);
        if rest == 0 {
            b.u8(low);
        } else {
            b.u8(low | 0x80).uleb(rest);
        }
        if f & 1 != 0 {
            b.sleb(dsym);
        }
        if f & 2 != 0 {
            b.sleb(dty);
        }
        if f & 4 != 0 {
            b.sleb(dadd);
        }
        p = r.clone();
    }
    b.v
}

fn gen_rels(g: &mut Gen, img: &Img, max: usize, crel: bool) -> Vec<Rel> {
    let n = g.len(max);
    let wb = img.wbits();
    let known = known_types(img.machine, img.is64);
    let style = g.upto(2);
    let mut off = g.uint(wb);
    let mut sym = 0u32;
    (0..n)
        .map(|_| {
            off = match style {
                0 => mask(img.is64, off.wrapping_add(g.upto(64) * 4)),
                1 => mask(img.is64, off.wrapping_add(g.uint(16))),
                _ => g.uint(wb),
            };
            sym = match g.upto(2) {
                0 => sym,
                1 => g.upto(20) as u32,
                _ => g.u32(),
            };
            let mut ty = if !known.is_empty() && g.bool() {
                g.pickc(&known)
            } else if g.bool() {
                g.upto(300) as u32
            } else {
                g.u32()
            };
            if !img.is64 && !crel {
                sym &= 0xff_ffff;
                ty &= 0xff;
            }
            let addend = sext(img.is64, g.uint(64));
            Rel { off, sym, ty, addend }
        })
        .collect()
}

struct Case {
    gn: General,
    lists: Vec<List>,
    relr: Vec<(usize, Vec<u64>)>,
}

fn gen_case(g: &mut Gen) -> Case {
    let mut img = Img::random(g);
    img.ety = g.pickc(&[1, 2, 3]);
    img.machine = if g.chance(1, 20) { g.u16() } else { g.pickc(MACHINES) };
    if g.chance(1, 8) {
        // Make sure the special MIPS layout is frequent.
        (img.is64, img.be, img.machine) = (true, false, 8);
    }
    img.secs.push(Sec::default());
    let nplain = g.range(1, 5);
    let has_dyn = g.bool();
    let mut lists = vec![];
    let mut relr = vec![];
    for i in 0..nplain {
        let size = g.below(20);
        let d = g.bytes(size);
        let name = format!(".s{i}");
        let j = img.add(name.as_bytes(), 1, d);
        img.secs[j].flags = 2;
    }
    let nsym_sec = nplain + 1;
    let symtab = gen_syms(g, &mut img, SHT_SYMTAB, 4, 6);
    let _ = nsym_sec;
    let dynsym = if has_dyn { Some(gen_syms(g, &mut img, SHT_DYNSYM, 4, 6)) } else { None };
    let nrel = g.len(7);
    for i in 0..nrel {
        let ty = g.pickc(&[SHT_REL, SHT_RELA, SHT_RELA, SHT_CREL]);
        let mut crel_rela = false;
        let mut rels = gen_rels(g, &img, 12, ty == SHT_CREL);
        let data = if ty == SHT_CREL {
            crel_rela = g.bool();
            if !crel_rela {
                rels.iter_mut().for_each(|r| r.addend = 0);
            }
            put_crel(g, img.is64, &rels, crel_rela)
        } else {
            if ty == SHT_REL {
                rels.iter_mut().for_each(|r| r.addend = 0);
            }
            let mut b = img.b();
            for r in &rels {
                img.put_rel(&mut b, r, ty == SHT_RELA);
            }
            b.v
        };
        let sec = img.add(format!(".rel{i}").as_bytes(), ty, data);
        let s = &mut img.secs[sec];
        s.link = match g.upto(9) {
            0 => 0,
            1 => 1,
            2..=4 => dynsym.as_ref().map_or(symtab.sec, |d| d.sec) as u32,
            _ => symtab.sec as u32,
        };
        s.info = if g.chance(1, 5) { 0 } else { g.range(1, nplain) as u32 };
        s.entsize = if ty == SHT_CREL { 1 } else { (if s.ty == SHT_RELA { 3 } else { 2 }) * if img.is64 { 8 } else { 4 } };
        s.align = 8;
        lists.push(List { sec, ty, rels, crel_rela });
    }
    if g.chance(1, 2) {
        let mut b = img.b();
        let mut exp = vec![];
        let mut at = 0u64;
        let w = img.word() as u64;
        for _ in 0..g.len(8) {
            if g.bool() {
                at = g.uint(img.wbits()) & !1;
                exp.push(at);
                b.w(at);
                at = mask(img.is64, at.wrapping_add(w));
            } else {
                let bits = mask(img.is64, g.uint(64)) | 1;
                b.w(bits);
                for j in 1..img.wbits() as u64 {
                    if bits >> j & 1 != 0 {
                        // The first bit after the flag stands for the word following the last address.
                        exp.push(mask(img.is64, at.wrapping_add((j - 1) * w)));
                    }
                }
                at = mask(img.is64, at.wrapping_add((img.wbits() as u64 - 1) * w));
            }
        }
        // A leading bitmap is relative to zero minus one word in this reader; keep well formed: start with an address.
        let first_is_bitmap = b.v.len() >= img.word() && img.d(&b.v).w().unwrap() & 1 == 1;
        if !first_is_bitmap {
            let sec = img.add(b".relr.dyn", SHT_RELR, b.v);
            img.secs[sec].link = g.pickc(&[0, symtab.sec as u32]);
            relr.push((sec, exp));
        }
    }
    img.names(g);
    img.layout(g);
    Case { gn: General { img, symtab: Some(symtab), dynsym }, lists, relr }
}

fn check_low<'d, E: FileHeader<Endian = X>, X: Endian>(c: &Case, v: &'d [u8]) -> R {
    let img = &c.gn.img;
    let h = must!(E::parse(v), "header");
    let e = must!(h.endian(), "endian");
    let secs = must!(h.sections(e, v), "sections");
    let mips = img.is_mips64el();
    ensure_eq!(h.is_mips64el(e), mips, "is_mips64el");
    for (i, s) in secs.iter().enumerate() {
        let l = c.lists.iter().find(|l| l.sec == i);
        let ty = img.secs[i].ty;
        let link = SectionIndex(img.secs[i].link as usize);
        let rel = must!(s.rel(e, v), "rel");
        ensure_eq!(rel.is_some(), ty == SHT_REL, "rel of type {ty}");
        if let Some((rels, sym)) = rel {
            ensure_eq!(sym, link, "rel link");
            let l = l.unwrap();
            ensure_eq!(rels.len(), l.rels.len(), "rel count");
            for (r, m) in rels.iter().zip(&l.rels) {
                ensure_eq!(r.r_offset(e).into(), m.off, "rel r_offset");
                if !mips {
                    ensure_eq!((r.r_sym(e), r.r_type(e).0), (m.sym, m.ty), "rel r_sym/r_type");
                    ensure_eq!(r.symbol(e), Some(m.sym).filter(|&s| s != 0).map(|s| SymbolIndex(s as usize)), "rel symbol");
                } else {
                    let x = <E::Rela as From<E::Rel>>::from(*r);
                    ensure_eq!((x.r_sym(e, true), x.r_type(e, true).0), (m.sym, m.ty), "rel as rela");
                }
            }
        }
        let rela = must!(s.rela(e, v), "rela");
        ensure_eq!(rela.is_some(), ty == SHT_RELA, "rela of type {ty}");
        if let Some((rels, sym)) = rela {
            ensure_eq!(sym, link, "rela link");
            let l = l.unwrap();
            ensure_eq!(rels.len(), l.rels.len(), "rela count");
            for (r, m) in rels.iter().zip(&l.rels) {
                ensure_eq!(r.r_offset(e).into(), m.off, "rela r_offset");
                ensure_eq!((r.r_sym(e, mips), r.r_type(e, mips).0), (m.sym, m.ty), "rela r_sym/r_type");
                let info = if img.is64 { (m.sym as u64) << 32 | m.ty as u64 } else { (m.sym << 8 | m.ty) as u64 };
                ensure_eq!(r.r_info(e, mips).into(), info, "rela r_info");
                ensure_eq!(r.r_addend(e).into(), m.addend, "rela r_addend");
                ensure_eq!(r.symbol(e, mips), Some(m.sym).filter(|&s| s != 0).map(|s| SymbolIndex(s as usize)), "rela symbol");
            }
        }
        let crel = must!(s.crel(e, v), "crel");
        ensure_eq!(crel.is_some(), ty == SHT_CREL, "crel of type {ty}");
        if let Some((mut it, sym)) = crel {
            ensure_eq!(sym, link, "crel link");
            let l = l.unwrap();
            ensure_eq!(it.is_rela(), l.crel_rela, "crel is_rela");
            let mut left = l.rels.len();
            ensure_eq!((it.len(), it.is_empty()), (left, left == 0), "crel len");
            for m in &l.rels {
                let r = must!(must_some!(it.next(), "crel ended early"), "crel entry");
                left -= 1;
                ensure_eq!((it.len(), it.size_hint()), (left, (left, Some(left))), "crel remaining");
                ensure_eq!((r.r_offset, r.r_sym, r.r_type.0, r.r_addend), (m.off, m.sym, m.ty, m.addend), "crel entry");
                ensure_eq!(r.symbol(), Some(m.sym).filter(|&s| s != 0).map(|s| SymbolIndex(s as usize)), "crel symbol");
            }
            ensure!(it.next().is_none(), "crel extra entry");
        }
        let relr = must!(s.relr(e, v), "relr");
        ensure_eq!(relr.is_some(), ty == SHT_RELR, "relr of type {ty}");
        if let Some(it) = relr {
            let got: Vec<u64> = it.map(|x| x.into()).collect();
            ensure_eq!(got, c.relr.iter().find(|r| r.0 == i).unwrap().1, "relr");
        }
    }
    // Association of relocation sections.
    for (sym, t) in [(c.gn.symtab.as_ref().unwrap().sec, "symtab"), (c.gn.dynsym.as_ref().map_or(0, |d| d.sec), "dynsym")] {
        let rs = must!(secs.relocation_sections(e, SectionIndex(sym)), "relocation_sections");
        for i in 1..secs.len() {
            if [SHT_REL, SHT_RELA, SHT_CREL].contains(&img.secs[i].ty) {
                continue;
            }
            let exp: Vec<usize> = c.lists.iter().filter(|l| img.secs[l.sec].link as usize == sym && img.secs[l.sec].info as usize == i).map(|l| l.sec).collect();
            let mut got = vec![];
            let mut p = SectionIndex(i);
            while let Some(n) = rs.get(p) {
                got.push(n.0);
                p = n;
                ensure!(got.len() <= secs.len(), "relocation section chain does not end");
            }
            ensure_eq!(got, exp, "relocation sections for {i} using {t}");
        }
    }
    Ok(())
}

fn check_one(img: &Img, l: &List, m: &Rel, (off, r): &(u64, Relocation)) -> R {
    ensure_eq!(*off, m.off, "offset");
    let target = if m.sym == 0 { RelocationTarget::Absolute } else { RelocationTarget::Symbol(SymbolIndex(m.sym as usize)) };
    ensure_eq!(r.target(), target, "target");
    ensure_eq!(r.addend(), m.addend, "addend");
    let rel = l.ty == SHT_REL || l.ty == SHT_CREL && !l.crel_rela;
    ensure_eq!(r.has_implicit_addend(), rel, "implicit addend");
    ensure_eq!(r.flags(), RelocationFlags::Elf { r_type: elf::RelocationType(m.ty) }, "flags");
    let (k, e, s) = meaning(img.machine, img.is64, img.be, m.ty);
    ensure_eq!((r.kind(), r.encoding(), r.size()), (k, e, s), "kind, encoding and size of machine {} is64 {} type {}", img.machine, img.is64, m.ty);
    ensure_eq!(r.subtractor(), None, "subtractor");
    Ok(())
}

fn check_unified<'d, O: Object<'d>>(f: &O, c: &Case) -> R {
    let img = &c.gn.img;
    let sym = c.gn.symtab.as_ref().unwrap().sec;
    for s in f.sections() {
        let i = s.index().0;
        let got: Vec<_> = s.relocations().collect();
        if [SHT_REL, SHT_RELA, SHT_CREL].contains(&img.secs[i].ty) {
            continue;
        }
        let exp: Vec<(&List, &Rel)> = c
            .lists
            .iter()
            .filter(|l| img.secs[l.sec].link as usize == sym && img.secs[l.sec].info as usize == i)
            .flat_map(|l| l.rels.iter().map(move |r| (l, r)))
            .collect();
        ensure_eq!(got.len(), exp.len(), "number of relocations of section {i}");
        for (x, (l, m)) in got.iter().zip(exp) {
            check_one(img, l, m, x)?;
        }
    }
    let dsec = c.gn.dynsym.as_ref().map_or(0, |d| d.sec);
    let exp: Vec<(&List, &Rel)> = c.lists.iter().filter(|l| img.secs[l.sec].link as usize == dsec).flat_map(|l| l.rels.iter().map(move |r| (l, r))).collect();
    let got: Vec<_> = must_some!(f.dynamic_relocations(), "dynamic_relocations").collect();
    ensure_eq!(got.len(), exp.len(), "number of dynamic relocations");
    for (x, (l, m)) in got.iter().zip(exp) {
        check_one(img, l, m, x)?;
    }
    Ok(())
}

fn all(c: &Case, v: &[u8]) -> R {
    match (c.gn.img.is64, c.gn.img.be) {
        (true, true) => check_low::<elf::FileHeader64<BigEndian>, _>(c, v)?,
        (true, false) => check_low::<elf::FileHeader64<LittleEndian>, _>(c, v)?,
        (false, true) => check_low::<elf::FileHeader32<BigEndian>, _>(c, v)?,
        (false, false) => check_low::<elf::FileHeader32<LittleEndian>, _>(c, v)?,
    }
    if c.gn.img.is64 {
        check_low::<elf::FileHeader64<Endianness>, _>(c, v)?;
        check_unified(&must!(ElfFile64::<Endianness>::parse(v), "ElfFile64"), c)?;
    } else {
        check_low::<elf::FileHeader32<Endianness>, _>(c, v)?;
        check_unified(&must!(ElfFile32::<Endianness>::parse(v), "ElfFile32"), c)?;
    }
    check_unified(&must!(File::parse(v), "File"), c)
}

pub fn lists(g: &mut Gen) -> R {
    let mut c = gen_case(g);
    let v = c.gn.img.emit();
    g.file(&v)?;
    g.nontrivial_if(c.lists.iter().any(|l| !l.rels.is_empty()) || c.relr.iter().any(|r| !r.1.is_empty()));
    g.label_if(c.lists.iter().any(|l| l.ty == SHT_CREL && !l.rels.is_empty()), "crel");
    g.label_if(c.lists.iter().any(|l| l.ty == SHT_REL && !l.rels.is_empty()), "rel");
    g.label_if(!c.relr.is_empty(), "relr");
    g.label_if(c.gn.img.is_mips64el() && !c.lists.is_empty(), "mips64el");
    g.label_if(c.lists.iter().any(|l| l.rels.iter().any(|r| meaning(c.gn.img.machine, c.gn.img.is64, c.gn.img.be, r.ty).0 != RelocationKind::Unknown)), "known type");
    g.sample(|| format!("machine {} is64={} be={} {:?} relr={:?}", c.gn.img.machine, c.gn.img.is64, c.gn.img.be, c.lists, c.relr));
    all(&c, &v)
}

/// Every machine, class and type value: exhaustive over types below 512 for the listed machines.
fn kinds(g: &mut Gen) -> R {
    let mut img = Img { is64: g.bool(), be: g.bool(), version: 1, ety: 1, ..Img::default() };
    img.machine = g.pickc(MACHINES);
    let rela = g.bool();
    img.secs.push(Sec::default());
    img.add(b".t", 1, vec![]);
    let symtab = gen_syms(g, &mut img, SHT_SYMTAB, 1, 2);
    let n = if img.is64 { 512 } else { 256 };
    let rels: Vec<Rel> = (0..n).map(|i| Rel { off: i as u64, sym: i, ty: i, addend: if rela { -(i as i64) } else { 0 } }).collect();
    let mut b = img.b();
    for r in &rels {
        img.put_rel(&mut b, r, rela);
    }
    let ty = if rela { SHT_RELA } else { SHT_REL };
    let sec = img.add(b".rel", ty, b.v);
    img.secs[sec].link = symtab.sec as u32;
    img.secs[sec].info = 1;
    let v = img.build(g);
    let c = Case { gn: General { img, symtab: Some(symtab), dynsym: None }, lists: vec![List { sec, ty, rels, crel_rela: false }], relr: vec![] };
    g.nontrivial();
    g.sample(|| format!("machine {} is64={} be={} rela={rela}", c.gn.img.machine, c.gn.img.is64, c.gn.img.be));
    all(&c, &v)
}

/// Truncated and inconsistent tables give errors or end the iteration; the valid prefix is unchanged.
fn malformed(g: &mut Gen) -> R {
    let mut c = gen_case(g);
    if c.lists.is_empty() {
        return Ok(());
    }
    let li = g.below(c.lists.len());
    let l = c.lists[li].clone();
    let symsec = c.gn.symtab.as_ref().unwrap().sec;
    match g.upto(2) {
        0 => {
            // sh_info outside the section table or naming a relocation section.
            let s = &mut c.gn.img.secs[l.sec];
            s.link = symsec as u32;
            s.info = if g.bool() { l.sec as u32 } else { u32::MAX - g.upto(3) as u32 };
            let v = c.gn.img.emit();
            g.nontrivial();
            g.label("bad sh_info");
            ensure!(File::parse(&v[..]).is_err(), "invalid sh_info accepted");
        }
        1 if l.ty == SHT_CREL && !l.rels.is_empty() => {
            // Truncate the encoded list: whole entries first, then one error, then the end.
            let n = c.gn.img.secs[l.sec].data.len();
            let cut = g.below(n);
            c.gn.img.secs[l.sec].data.truncate(cut);
            c.gn.img.secs[l.sec].size = cut as u64;
            let v = c.gn.img.emit();
            g.nontrivial();
            g.label("truncated crel");
            let d = &v[c.gn.img.secs[l.sec].off as usize..][..cut];
            let r: Result<object::read::elf::CrelIterator> = object::read::elf::CrelIterator::new(d);
            if cut == 0 {
                ensure!(r.is_err(), "empty CREL data accepted");
            }
            if let Ok(it) = r {
                let mut k = 0;
                let mut failed = false;
                for x in it {
                    ensure!(!failed, "item after an error");
                    match x {
                        Ok(x) => {
                            let m = must_some!(l.rels.get(k), "too many entries");
                            if c.gn.img.is64 {
                                ensure_eq!((x.r_offset, x.r_sym, x.r_type.0, x.r_addend), (m.off, m.sym, m.ty, m.addend), "crel prefix entry");
                            }
                            k += 1;
                        }
                        Err(_) => failed = true,
                    }
                }
                ensure!(failed, "truncated CREL data not reported");
            }
        }
        _ => {
            // Size not a multiple of the entry size.
            if l.ty == SHT_CREL {
                return Ok(());
            }
            let img = &mut c.gn.img;
            let add = g.range(1, if img.is64 { 15 } else { 7 });
            img.secs[l.sec].size += add as u64;
            img.secs[l.sec].data.extend(std::iter::repeat_n(0xee, add));
            img.layout(g);
            let v = img.emit();
            g.nontrivial();
            g.label("odd size");
            macro_rules! go {
                ($h:ty) => {{
                    let h = must!(<$h>::parse(&v[..]), "header");
                    let e = h.endian().unwrap();
                    let s = must!(h.sections(e, &v[..]), "sections");
                    let s = s.section(SectionIndex(l.sec)).unwrap();
                    if l.ty == SHT_REL {
                        ensure!(s.rel(e, &v[..]).is_err(), "odd sized REL accepted");
                    } else {
                        ensure!(s.rela(e, &v[..]).is_err(), "odd sized RELA accepted");
                    }
                }};
            }
            if img.is64 { go!(elf::FileHeader64<Endianness>) } else { go!(elf::FileHeader32<Endianness>) }
        }
    }
    Ok(())
}

fn main() {
    run(
        "C06",
        "the file has at least one relocation (or, for malformed cases, the intended inconsistency was applied)",
        &["the REL/RELA/RELR/CREL encoders in src/elf.rs and this file follow the generic ABI", "src/elfrel.rs lists the meaning of each relocation type"],
        &[sub("lists", 1_500_000, 12_000_000, lists), sub("kinds", 4_000, 100_000, kinds), sub("malformed", 800_000, 6_000_000, malformed)],
    );
}
