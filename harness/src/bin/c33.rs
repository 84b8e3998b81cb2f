//! C33: the rewriter applies exactly the requested modifications.
use object_rewrite::{ErrorKind, Options, Rewriter};
use std::collections::{HashMap, HashSet};
use vh::elf::k::*;
use vh::elfmodel::*;
use vh::machomodel as mm;
use vh::*;

pub type Name = Vec<u8>;

#[derive(Debug, Clone)]
pub enum Op {
    DelSyms(HashSet<Name>),
    RenSyms(HashMap<Name, Name>),
    DelSecs(HashSet<Name>),
    RenSecs(HashMap<Name, Name>),
    /// Only one of the two symbol tables of an ELF file.
    DelTable(bool, HashSet<Name>),
    RenTable(bool, HashMap<Name, Name>),
    AddDebug,
    DelRunpath,
    SetRunpath(Name),
    AddRunpath(Vec<Name>),
    UseRunpath,
    UseRpath,
    DelNeeded(HashSet<Name>),
    RepNeeded(HashMap<Name, Name>),
    AddNeeded(Vec<Name>),
    SetSoname(Name),
    SetInterp(Name),
}

/// Apply through the method for the modification.
fn call(r: &mut Rewriter, op: Op) -> object_rewrite::Result<()> {
    match op {
        Op::DelSyms(v) => r.delete_symbols(&v),
        Op::RenSyms(v) => r.rename_symbols(&v),
        Op::DelSecs(v) => r.delete_sections(&v),
        Op::RenSecs(v) => return r.rename_sections(&v),
        Op::DelTable(false, v) => r.elf_delete_symbols(&v),
        Op::DelTable(true, v) => r.elf_delete_dynamic_symbols(&v),
        Op::RenTable(false, v) => r.elf_rename_symbols(&v),
        Op::RenTable(true, v) => r.elf_rename_dynamic_symbols(&v),
        Op::AddDebug => return r.elf_add_dynamic_debug(),
        Op::DelRunpath => return r.elf_delete_runpath(),
        Op::SetRunpath(v) => return r.elf_set_runpath(v),
        Op::AddRunpath(v) => return r.elf_add_runpath(&v),
        Op::UseRunpath => return r.elf_use_runpath(),
        Op::UseRpath => return r.elf_use_rpath(),
        Op::DelNeeded(v) => return r.elf_delete_needed(&v),
        Op::RepNeeded(v) => return r.elf_replace_needed(&v),
        Op::AddNeeded(v) => return r.elf_add_needed(&v),
        Op::SetSoname(v) => return r.elf_set_soname(v),
        Op::SetInterp(v) => return r.elf_set_interpreter(v),
    }
    Ok(())
}
/// The place of a modification in `Options`; `None` when it has none.
pub fn rank(op: &Op) -> Option<usize> {
    Some(match op {
        Op::DelSyms(_) => 0,
        Op::RenSyms(_) => 1,
        Op::DelSecs(_) => 2,
        Op::RenSecs(_) => 3,
        Op::DelTable(..) | Op::RenTable(..) => return None,
        Op::AddDebug => 4,
        Op::DelRunpath => 5,
        Op::SetRunpath(_) => 6,
        Op::AddRunpath(_) => 7,
        Op::UseRunpath => 8,
        Op::UseRpath => 9,
        Op::DelNeeded(_) => 10,
        Op::RepNeeded(_) => 11,
        Op::AddNeeded(_) => 12,
        Op::SetSoname(_) => 13,
        Op::SetInterp(_) => 14,
    })
}
pub fn options(ops: &[Op]) -> Options {
    let mut o = Options::default();
    for op in ops {
        match op.clone() {
            Op::DelSyms(v) => o.delete_symbols = v,
            Op::RenSyms(v) => o.rename_symbols = v,
            Op::DelSecs(v) => o.delete_sections = v,
            Op::RenSecs(v) => o.rename_sections = v,
            Op::DelTable(..) | Op::RenTable(..) => unreachable!(),
            Op::AddDebug => o.elf.add_dynamic_debug = true,
            Op::DelRunpath => o.elf.delete_runpath = true,
            Op::SetRunpath(v) => o.elf.set_runpath = Some(v),
            Op::AddRunpath(v) => o.elf.add_runpath = v,
            Op::UseRunpath => o.elf.use_runpath = true,
            Op::UseRpath => o.elf.use_rpath = true,
            Op::DelNeeded(v) => o.elf.delete_needed = v,
            Op::RepNeeded(v) => o.elf.replace_needed = v,
            Op::AddNeeded(v) => o.elf.add_needed = v,
            Op::SetSoname(v) => o.elf.set_soname = Some(v),
            Op::SetInterp(v) => o.elf.set_interpreter = Some(v),
        }
    }
    o
}

// ---------------------------------------------------------------- ELF model

const NEEDED: i64 = 1;
const SONAME: i64 = 14;
const RPATH: i64 = 15;
const DEBUG: i64 = 21;
const RUNPATH: i64 = 29;

fn first_in(m: &Model, ty: u32) -> Option<usize> {
    m.segs.iter().find(|p| p.s.ty == ty)?.secs.first().copied()
}
fn dynamic(m: &Model) -> Option<&Vec<(i64, DVal)>> {
    match &m.secs[first_in(m, PT_DYNAMIC)?].data {
        Data::Dynamic(d) => Some(d),
        _ => None,
    }
}
fn interp(m: &Model) -> Option<usize> {
    first_in(m, PT_INTERP).filter(|&i| matches!(m.secs[i].data, Data::Bytes(_)) && m.secs[i].ty != SHT_NOTE)
}
fn path(t: i64) -> bool {
    t == RPATH || t == RUNPATH
}
/// Apply to the model; `false` when it is not possible.
fn apply(m: &mut Model, op: &Op) -> bool {
    match op {
        Op::DelSyms(v) => m.syms.iter_mut().chain(&mut m.dsyms).filter(|s| v.contains(&s.name)).for_each(|s| s.del = true),
        Op::RenSyms(v) => m.syms.iter_mut().chain(&mut m.dsyms).for_each(|s| rename(&mut s.name, v)),
        Op::DelSecs(v) => m.secs.iter_mut().filter(|s| v.contains(&s.name)).for_each(|s| s.del = true),
        Op::RenSecs(v) => m.secs.iter_mut().for_each(|s| rename(&mut s.name, v)),
        Op::DelTable(d, v) => if *d { &mut m.dsyms } else { &mut m.syms }.iter_mut().filter(|s| v.contains(&s.name)).for_each(|s| s.del = true),
        Op::RenTable(d, v) => if *d { &mut m.dsyms } else { &mut m.syms }.iter_mut().for_each(|s| rename(&mut s.name, v)),
        Op::SetInterp(v) => {
            let Some(i) = interp(m) else { return false };
            let mut v = v.clone();
            if !v.is_empty() && v.last() != Some(&0) {
                v.push(0);
            }
            m.secs[i].data = Data::Bytes(v);
        }
        _ => {
            if dynamic(m).is_none() {
                return false;
            }
            let i = first_in(m, PT_DYNAMIC).unwrap();
            let Data::Dynamic(d) = &mut m.secs[i].data else { unreachable!() };
            match op {
                Op::AddDebug => {
                    if !d.iter().any(|e| e.0 == DEBUG) {
                        d.push((DEBUG, DVal::Int(0)));
                    }
                }
                Op::DelRunpath => d.retain(|e| !path(e.0)),
                Op::SetRunpath(v) => {
                    d.iter_mut().filter(|e| path(e.0)).for_each(|e| e.1 = DVal::Str(v.clone()));
                    if !d.iter().any(|e| path(e.0)) {
                        d.push((RUNPATH, DVal::Str(v.clone())));
                    }
                }
                Op::AddRunpath(v) => {
                    for e in d.iter_mut().filter(|e| path(e.0)) {
                        let DVal::Str(s) = &mut e.1 else { unreachable!() };
                        for p in v {
                            if !s.is_empty() {
                                s.push(b':');
                            }
                            s.extend_from_slice(p);
                        }
                    }
                    if !d.iter().any(|e| path(e.0)) {
                        d.push((RUNPATH, DVal::Str(v.join(&b':'))));
                    }
                }
                Op::UseRunpath => d.iter_mut().filter(|e| e.0 == RPATH).for_each(|e| e.0 = RUNPATH),
                Op::UseRpath => d.iter_mut().filter(|e| e.0 == RUNPATH).for_each(|e| e.0 = RPATH),
                Op::DelNeeded(v) => d.retain(|e| e.0 != NEEDED || !matches!(&e.1, DVal::Str(s) if v.contains(s))),
                Op::RepNeeded(v) => {
                    for e in d.iter_mut().filter(|e| e.0 == NEEDED) {
                        if let DVal::Str(s) = &mut e.1 {
                            rename(s, v);
                        }
                    }
                }
                Op::AddNeeded(v) => {
                    let new: Vec<_> = v.iter().filter(|v| !d.iter().any(|e| e.0 == NEEDED && e.1 == DVal::Str(v.to_vec()))).map(|v| (NEEDED, DVal::Str(v.clone()))).collect();
                    d.splice(0..0, new);
                }
                Op::SetSoname(v) => {
                    d.iter_mut().filter(|e| e.0 == SONAME).for_each(|e| e.1 = DVal::Str(v.clone()));
                    if !d.iter().any(|e| e.0 == SONAME) {
                        d.push((SONAME, DVal::Str(v.clone())));
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    true
}
fn rename(n: &mut Name, v: &HashMap<Name, Name>) {
    if let Some(x) = v.get(n) {
        *n = x.clone();
    }
}
/// What the rewriter says about the dynamic section and the interpreter.
fn getters(r: &Rewriter, m: &Model) -> R {
    let d = dynamic(m).map_or(&[][..], |d| &d[..]);
    let first = |f: &dyn Fn(i64) -> bool| d.iter().find(|e| f(e.0)).map(|e| if let DVal::Str(s) = &e.1 { s.clone() } else { vec![] });
    ensure_eq!(r.elf_runpath().map(|v| v.to_vec()), first(&path), "elf_runpath");
    ensure_eq!(r.elf_soname().map(|v| v.to_vec()), first(&|t| t == SONAME), "elf_soname");
    let needed: Vec<Name> = d.iter().filter(|e| e.0 == NEEDED).map(|e| if let DVal::Str(s) = &e.1 { s.clone() } else { vec![] }).collect();
    ensure_eq!(r.elf_needed().map(|v| v.to_vec()).collect::<Vec<_>>(), needed, "elf_needed");
    let i = interp(m).map(|i| if let Data::Bytes(v) = &m.secs[i].data { v.clone() } else { vec![] });
    ensure_eq!(r.elf_interpreter().map(|v| v.to_vec()), i, "elf_interpreter");
    Ok(())
}

// ---------------------------------------------------------------- ELF layout

/// Sections that nothing refers to by address may move.
fn movable(m: &Model, i: usize) -> bool {
    let s = &m.secs[i];
    s.data.is_meta() || matches!(s.data, Data::Rel(_) | Data::Attrs(_)) || s.ty == SHT_NOTE || Some(i) == interp(m)
}
fn known_size(m: &Model, i: usize) -> u64 {
    let s = &m.secs[i];
    match &s.data {
        Data::Bytes(v) => v.len() as u64,
        Data::NoBits(n) => *n,
        Data::DRel(r) => r.len() as u64 * m.word() * if s.ty == SHT_RELA { 3 } else { 2 },
        Data::Dynamic(d) => (d.len() as u64 + 1) * 2 * m.word(),
        _ => s.size,
    }
}
/// Addresses that must not move collide when there are `n` program headers.
fn collide(m: &Model, n: usize, all: bool) -> bool {
    let img = m.img();
    let mut v = vec![];
    let phoff = img.ehsize() as u64;
    for (off, size) in [(0, phoff), (phoff, (n * img.phentsize()) as u64)] {
        if let Some(p) = m.segs.iter().find(|p| p.s.ty == PT_LOAD && p.s.off <= off && off - p.s.off < p.s.filesz) {
            v.push((p.s.vaddr + (off - p.s.off), size));
        }
    }
    for p in m.segs.iter().filter(|p| p.s.ty == PT_LOAD) {
        v.push((p.s.vaddr, 0));
        v.push((p.s.vaddr + p.s.memsz, 0));
    }
    for (i, s) in m.secs.iter().enumerate() {
        if s.alloc() && (all || !movable(m, i)) && !(s.ty == SHT_NOBITS && s.flags & SHF_TLS != 0) {
            v.push((s.addr, if all { s.size } else { known_size(m, i) }));
        }
    }
    // Contents end with the contents of their segment.
    for (i, s) in m.secs.iter().enumerate() {
        if s.alloc() && (all || !movable(m, i)) && s.ty != SHT_NOBITS {
            let size = if all { s.size } else { known_size(m, i) };
            if m.segs.iter().any(|p| p.s.ty == PT_LOAD && s.addr >= p.s.vaddr && s.addr - p.s.vaddr < p.s.memsz && s.addr - p.s.vaddr + size > p.s.filesz) {
                return true;
            }
        }
    }
    v.sort();
    v.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0)
}
/// Compare the written file with what it should be, up to the places of sections that had to move.
fn compare(g: &mut Gen, out: &[u8], want: &Model, orig: &Model, modified: bool, asked: bool) -> R<Model> {
    let got = decode(out)?;
    let mut want = want.clone();
    let n = want.segs.len();
    ensure!(got.segs.len() >= n, "{} segments, expected at least {n}", got.segs.len());
    ensure_eq!(got.secs.len(), want.secs.len(), "number of sections");
    let linked = want.linked();
    let mut moved = vec![];
    for (i, s) in want.secs.iter_mut().enumerate() {
        let x = &got.secs[i];
        s.size = x.size;
        if linked && s.alloc() && s.ty != SHT_NOBITS && (x.addr != s.addr || x.off != s.off) {
            moved.push(i);
        }
    }
    let collides = linked && asked && collide(&want, n, true);
    if !collides {
        ensure!(moved.is_empty(), "sections {moved:?} moved without need");
        ensure_eq!(got.segs.len(), n, "number of segments");
    }
    g.label_if(!moved.is_empty(), "moved");
    for &i in &moved {
        ensure!(movable(&want, i), "section {i} {:?} moved", String::from_utf8_lossy(&want.secs[i].name));
        (want.secs[i].addr, want.secs[i].off) = (got.secs[i].addr, got.secs[i].off);
    }
    let end = want.segs.iter().filter(|p| p.s.ty == PT_LOAD).map(|p| p.s.vaddr + p.s.memsz).max().unwrap_or(0);
    let align = want.segs.iter().filter(|p| p.s.ty == PT_LOAD).map(|p| p.s.align).max().unwrap_or(1).max(1);
    let covers = |m: &Model, p: &MSeg| extent(m, p, false);
    // Empty sections may count or not.
    let fits = |m: &Model, p: &MSeg, a: (u64, u64, u64, u64)| {
        let (Some(c), Some(d)) = (extent(m, p, false), extent(m, p, true)) else { return false };
        let inside = |x: (u64, u64), y: (u64, u64)| x.0 >= y.0 && x.0 + x.1 <= y.0 + y.1;
        p.secs.iter().all(|&i| m.secs[i].size == 0) || a == c || (p.secs.iter().any(|&i| m.secs[i].ty == SHT_NOBITS) || inside((c.0, c.1), (a.0, a.1)) && inside((a.0, a.1), (d.0, d.1))) && inside((c.2, c.3), (a.2, a.3)) && inside((a.2, a.3), (d.2, d.3))
    };
    let place = |s: &vh::elf::Seg| (s.off, s.filesz, s.vaddr, s.memsz);
    // The original segments.
    let mut split: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..n {
        let (a, p) = (&got.segs[i].s, &mut want.segs[i]);
        if p.s.ty == PT_LOAD {
            continue;
        }
        if p.s.ty == PT_PHDR {
            if modified {
                let size = (got.segs.len() * want.is64.then_some(56).unwrap_or(32)) as u64;
                (p.s.filesz, p.s.memsz) = (size, size);
            }
            continue;
        }
        // Those that stay, and then those for each of the new segments.
        let mut parts: Vec<(Option<u32>, Vec<usize>)> = vec![(None, vec![])];
        for &i in &p.secs {
            let k = moved.contains(&i).then(|| got.secs[i].flags).map(|f| 4 | if f & SHF_WRITE != 0 { 2 } else { 0 } | if f & SHF_EXECINSTR != 0 { 1 } else { 0 });
            match parts.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1.push(i),
                None => parts.push((k, vec![i])),
            }
        }
        parts.retain(|x| !x.1.is_empty());
        let gone = p.secs.iter().filter(|i| moved.contains(i)).count();
        if gone > 0 {
            let mut parts = parts.into_iter().map(|x| x.1);
            p.secs = parts.next().unwrap();
            split.extend(parts.map(|v| (i, v)));
        }
        let p = &want.segs[i];
        let exact = covers(&want, p);
        let tight = covers(orig, &orig.segs[i]) == Some(place(&orig.segs[i].s)) && orig.segs[i].s.paddr == orig.segs[i].s.vaddr;
        match exact {
            // Zero-initialised thread-local data shares its addresses with whatever follows.
            Some(_) if gone > 0 && p.secs.iter().any(|&i| want.secs[i].ty == SHT_NOBITS) => {}
            Some(_) if modified && p.secs.len() < orig.segs[i].secs.len() && orig.segs[i].secs.iter().any(|&i| orig.secs[i].ty == SHT_NOBITS) => {}
            // Follows its sections.
            Some(c) if tight && modified || gone > 0 => ensure!(fits(&want, p, place(a)), "segment {i} of type {:#x} at {:x?} has sections at {c:x?}", p.s.ty, place(a)),
            Some(c) if tight && asked && place(a) == c => {}
            Some(_) if modified && p.secs.iter().any(|&i| want.secs[i].ty == SHT_NOBITS) && fits(&want, p, place(a)) => {}
            _ => ensure_eq!(place(a), place(&p.s), "place of segment {i} of type {:#x}", p.s.ty),
        }
        let p = &mut want.segs[i].s;
        if place(a) != place(p) {
            (p.off, p.filesz, p.vaddr, p.memsz) = place(a);
            p.paddr = p.vaddr;
        }
    }
    // The new ones.
    let mut held = vec![];
    let mut nsplit = 0;
    let mut top = end;
    for j in n..got.segs.len() {
        let mut x = got.segs[j].clone();
        x.secs.clear();
        ensure_eq!(x.s.paddr, x.s.vaddr, "physical address of new segment {j}");
        if x.s.ty == PT_LOAD {
            for &i in &moved {
                let s = &got.secs[i];
                if s.addr >= x.s.vaddr && s.addr + s.size <= x.s.vaddr + x.s.memsz && !held.contains(&i) {
                    let f = 4 | if s.flags & SHF_WRITE != 0 { 2 } else { 0 } | if s.flags & SHF_EXECINSTR != 0 { 1 } else { 0 };
                    if s.size == 0 && x.s.flags != f {
                        // At the boundary.
                        continue;
                    }
                    x.secs.push(i);
                    held.push(i);
                    ensure_eq!(x.s.flags, f, "flags of new segment {j} with section {i} with flags {:#x}", s.flags);
                }
            }
            ensure!(!x.secs.is_empty(), "new segment {j} holds nothing");
            ensure!(x.s.vaddr >= top, "new segment {j} at {:#x} below {top:#x}", x.s.vaddr);
            ensure!(x.s.align >= align, "new segment {j} with alignment {:#x}, the others have {align:#x}", x.s.align);
            ensure_eq!(x.s.filesz, x.s.memsz, "sizes of new segment {j}");
            let c = covers(&got, &x).unwrap();
            ensure!(c.3 <= x.s.memsz && c.0 + c.1 <= x.s.off + x.s.filesz && x.s.filesz < c.3 + 64, "new segment {j} at {:x?} for sections at {c:x?}", place(&x.s));
            top = x.s.vaddr + x.s.memsz;
        } else {
            let Some((i, v)) = split.get(nsplit) else { fail!("unexpected new segment {j}: {:?}", x.s) };
            nsplit += 1;
            x.secs = v.clone();
            let p = &want.segs[*i].s;
            ensure_eq!((x.s.ty, x.s.flags, x.s.align), (p.ty, p.flags, p.align), "type, flags, alignment of new segment {j}");
            let c = covers(&got, &x).unwrap();
            ensure!(fits(&got, &x, place(&x.s)), "new segment {j} at {:x?} for sections at {c:x?}", place(&x.s));
        }
        want.segs.push(x);
    }
    ensure_eq!(nsplit, split.len(), "segments split");
    g.label_if(nsplit > 0, "split");
    for &i in &moved {
        ensure!(held.contains(&i) || got.secs[i].size == 0, "section {i} moved to {:#x}, in no new segment", got.secs[i].addr);
    }
    same(&got, &want)?;
    if want.segs.iter().any(|p| p.s.ty == PT_LOAD) {
        mapped(&got, out)?;
    }
    for (i, p) in got.segs.iter().enumerate() {
        for q in &got.segs[i + 1..] {
            let (p, q) = (&p.s, &q.s);
            if p.ty == PT_LOAD && q.ty == PT_LOAD && p.memsz > 0 && q.memsz > 0 {
                ensure!(p.vaddr + p.memsz <= q.vaddr || q.vaddr + q.memsz <= p.vaddr, "load segments overlap: {p:x?} and {q:x?}");
            }
        }
    }
    Ok(got)
}

/// Offset, size, address and size of a segment's sections.
fn extent(m: &Model, p: &MSeg, empty: bool) -> Option<(u64, u64, u64, u64)> {
    let mut r: Option<(u64, u64, u64, u64)> = None;
    for &i in &p.secs {
        let x = &m.secs[i];
        let f = if x.ty == SHT_NOBITS { 0 } else { x.size };
        if !empty && x.size == 0 && p.secs.iter().any(|&i| m.secs[i].size > 0) {
            continue;
        }
        r = Some(match r {
            None => (x.off, x.addr, x.off + f, x.addr + x.size),
            Some(r) => (r.0.min(x.off), r.1.min(x.addr), r.2.max(x.off + f), r.3.max(x.addr + x.size)),
        });
    }
    r.map(|r| (r.0, r.2 - r.0, r.1, r.3 - r.1))
}

// ---------------------------------------------------------------- generation

pub fn elf_model(g: &mut Gen) -> Model {
    let mut m = gen_model(g);
    if m.linked() {
        let load = m.segs.iter().any(|p| p.s.ty == PT_LOAD);
        // The things that there are options for.
        if let Some(i) = m.find(&Data::Dynamic(vec![])) {
            if g.chance(7, 8) && !m.segs.iter().any(|p| p.s.ty == PT_DYNAMIC) {
                let at = g.below(m.segs.len() + 1);
                m.segs.insert(at, MSeg { s: vh::elf::Seg { ty: PT_DYNAMIC, flags: 6, ..Default::default() }, secs: vec![i], ..Default::default() });
            }
            m.spare = if g.chance(1, 2) { g.range(0, 5) } else { 0 };
            let mut d = vec![];
            for _ in 0..g.upto(4) {
                d.push((g.pickc(&[NEEDED, NEEDED, RPATH, RUNPATH, SONAME, DEBUG]), DVal::Str(g.name(6))));
            }
            let Data::Dynamic(v) = &mut m.secs[i].data else { unreachable!() };
            for mut e in d {
                if e.0 == DEBUG {
                    e.1 = DVal::Int(0);
                }
                let at = g.below(v.len() + 1);
                v.insert(at, e);
            }
        }
        if load && g.chance(1, 2) && !m.segs.iter().any(|p| p.s.ty == PT_INTERP) {
            let n = g.range(1, 12);
            let s = MSec::new(b".interp", SHT_PROGBITS, SHF_ALLOC, 1, Data::Bytes([g.name(n), vec![0]].concat()));
            m.secs.push(s);
            let at = g.below(m.segs.len() + 1);
            m.segs.insert(at, MSeg { s: vh::elf::Seg { ty: PT_INTERP, flags: 4, align: 1, ..Default::default() }, secs: vec![m.secs.len() - 1], ..Default::default() });
        }
    }
    m
}
fn set(g: &mut Gen, pool: &[Name]) -> HashSet<Name> {
    (0..g.range(1, 3)).map(|_| one(g, pool)).collect()
}
fn one(g: &mut Gen, pool: &[Name]) -> Name {
    if pool.is_empty() || g.chance(1, 8) { g.name(6) } else { g.pick(pool).clone() }
}
fn new_name(g: &mut Gen, pool: &[Name]) -> Name {
    match g.upto(5) {
        0 => one(g, pool),
        1 => g.name(60),
        2 => vec![],
        _ => g.name(10),
    }
}
fn map(g: &mut Gen, pool: &[Name]) -> HashMap<Name, Name> {
    let mut out = HashMap::new();
    for _ in 0..g.range(1, 3) {
        let a = one(g, pool);
        let b = new_name(g, pool);
        // Sometimes a swap or a chain.
        if g.chance(1, 4) {
            let c = new_name(g, pool);
            out.insert(b.clone(), if g.bool() { a.clone() } else { c });
        }
        out.insert(a, b);
    }
    out
}
fn names(g: &mut Gen, pool: &[Name]) -> Vec<Name> {
    let mut v: Vec<Name> = (0..g.range(1, 3)).map(|_| new_name(g, pool)).collect();
    v.sort();
    v.dedup();
    let n = v.len();
    if n > 1 && g.bool() {
        v.swap(0, n - 1);
    }
    v
}
pub struct Pools {
    syms: Vec<Name>,
    secs: Vec<Name>,
    needed: Vec<Name>,
}
pub fn pools(m: &Model) -> Pools {
    let needed = m.secs.iter().flat_map(|s| if let Data::Dynamic(d) = &s.data { &d[..] } else { &[] }).filter_map(|e| if let (NEEDED, DVal::Str(s)) = e { Some(s.clone()) } else { None }).collect();
    // Sections that hold the tables are rarely what to delete.
    let secs = m.secs.iter().filter(|s| !s.data.is_meta()).map(|s| s.name.clone()).collect();
    Pools { syms: m.syms.iter().chain(&m.dsyms).map(|s| s.name.clone()).collect(), secs, needed }
}
pub fn gen_op(g: &mut Gen, p: &Pools, all: &[Name]) -> Op {
    match g.upto(21) {
        0 => Op::DelSyms(set(g, &p.syms)),
        1 | 2 => Op::RenSyms(map(g, &p.syms)),
        3 => {
            let tables = g.chance(1, 8);
            Op::DelSecs(set(g, if tables { all } else { &p.secs }))
        }
        4 => {
            // The name tells what kind of section it is.
            let mut v = map(g, all);
            v.remove(&b".annobin.notes"[..]);
            Op::RenSecs(v)
        }
        5 => Op::DelTable(g.bool(), set(g, &p.syms)),
        6 => Op::RenTable(g.bool(), map(g, &p.syms)),
        7 => Op::AddDebug,
        8 => Op::DelRunpath,
        9 => Op::SetRunpath(new_name(g, &[])),
        10 | 11 => Op::AddRunpath(names(g, &[])),
        12 => Op::UseRunpath,
        13 => Op::UseRpath,
        14 => Op::DelNeeded(set(g, &p.needed)),
        15 => Op::RepNeeded(map(g, &p.needed)),
        16 | 17 => Op::AddNeeded(names(g, &p.needed)),
        18 => Op::SetSoname(new_name(g, &[])),
        _ => {
            let mut v = if g.chance(1, 3) { g.name(80) } else { g.name(12) };
            if g.chance(1, 4) {
                v.push(0);
            }
            Op::SetInterp(v)
        }
    }
}

// ---------------------------------------------------------------- subs

/// Returns what was written, and the model of it.
fn pass(g: &mut Gen, v: &[u8], m: &Model) -> R<Option<(Vec<u8>, Model)>> {
    let mut r = must!(Rewriter::read(v), "Rewriter::read");
    getters(&r, m)?;
    let mut want = m.clone();
    let p = pools(m);
    let all: Vec<Name> = m.secs.iter().map(|s| s.name.clone()).collect();
    let n = if g.chance(1, 10) { 0 } else { g.range(1, 4) };
    let mut ops: Vec<Op> = (0..n).map(|_| gen_op(g, &p, &all)).collect();
    // An empty section may be in no load segment.
    if interp(m).is_some_and(|i| m.secs[i].size == 0) {
        ops.retain(|o| !matches!(o, Op::SetInterp(_)));
    }
    let by_options = g.bool();
    if by_options {
        ops.retain(|o| rank(o).is_some());
        ops.sort_by_key(|o| rank(o).unwrap());
        ops.dedup_by_key(|o| rank(o).unwrap());
        let ok = ops.iter().all(|o| apply(&mut want, o));
        let res = r.modify(options(&ops));
        ensure_eq!(res.is_ok(), ok, "modify with {ops:?}");
        if let Err(e) = res {
            ensure_eq!(e.kind(), ErrorKind::Modify, "kind of error");
            g.label("not applicable");
            return Ok(None);
        }
    } else {
        for o in &ops {
            let before = want.clone();
            let ok = apply(&mut want, o);
            let res = call(&mut r, o.clone());
            ensure_eq!(res.is_ok(), ok, "{o:?}");
            if let Err(e) = res {
                ensure_eq!(e.kind(), ErrorKind::Modify, "kind of error");
                want = before;
                g.label("not applicable");
            }
        }
    }
    getters(&r, &want)?;
    let modified = want != *m;
    // The rewriter leaves everything in place when there was nothing to change.
    want.delete_orphans();
    want.delete_unused_versions();
    let problem = want.problem().filter(|p| *p != "loaded sections overlap");
    let mut w = vec![];
    let res = r.write(&mut w);
    if problem == Some(ODD) {
        g.label(ODD);
        return Ok(None);
    }
    if let Some(p) = problem {
        let Err(e) = res else { fail!("written in spite of: {p}") };
        ensure!(matches!(e.kind(), ErrorKind::Write | ErrorKind::Modify), "kind of error {e:?}");
        g.label(p);
        return Ok(None);
    }
    let want = want.compact()?;
    if let Err(e) = res {
        ensure!(matches!(e.kind(), ErrorKind::Write | ErrorKind::Modify), "kind of error {e:?}");
        let n = want.segs.len();
        let more = 8 + want.segs.len();
        let full = want.linked() && !ops.is_empty() && (collide(&want, n, false) || collide(&want, n + more, false) || file_collide(&want, n + more));
        ensure!(full, "write failed: {e} (after {ops:?})\n{}", layout(&want));
        g.label("no room");
        return Ok(None);
    }
    if want.linked() && modified {
        ensure!(!collide(&want, want.segs.len(), false), "written although what cannot move overlaps");
    }
    // The originals of the remaining segments, for what their place was.
    let mut orig = m.clone();
    orig.segs = want_segs(m, &want);
    let got = compare(g, &w, &want, &orig, modified, !ops.is_empty()).map_err(|f| Failure { msg: format!("{} (after {ops:?})\n{}\nfrom\n{}", f.msg, layout(&want), layout(m)), ..f })?;
    g.nontrivial_if(!ops.is_empty() && m.secs.len() > 2);
    for o in &ops {
        g.label(match o {
            Op::DelSyms(_) => "delete symbols",
            Op::RenSyms(_) => "rename symbols",
            Op::DelSecs(_) => "delete sections",
            Op::RenSecs(_) => "rename sections",
            Op::DelTable(..) => "delete symbols of one table",
            Op::RenTable(..) => "rename symbols of one table",
            Op::AddDebug => "add debug",
            Op::DelRunpath => "delete runpath",
            Op::SetRunpath(_) => "set runpath",
            Op::AddRunpath(_) => "add runpath",
            Op::UseRunpath => "use runpath",
            Op::UseRpath => "use rpath",
            Op::DelNeeded(_) => "delete needed",
            Op::RepNeeded(_) => "replace needed",
            Op::AddNeeded(_) => "add needed",
            Op::SetSoname(_) => "set soname",
            Op::SetInterp(_) => "set interpreter",
        });
    }
    g.sample(|| format!("{ops:?}: {} sections, {} segments, {} + {} symbols", m.secs.len(), m.segs.len(), m.syms.len(), m.dsyms.len()));
    Ok(Some((w, got)))
}
fn layout(m: &Model) -> String {
    let mut v: Vec<String> = m.segs.iter().map(|p| format!("segment {:x?} with {:?}", p.s, p.secs)).collect();
    v.extend(m.secs.iter().enumerate().map(|(i, s)| format!("section {i} {:?} type {:#x} flags {:#x} at {:#x}+{:#x}, offset {:#x}, alignment {}", String::from_utf8_lossy(&s.name), s.ty, s.flags, s.addr, known_size(m, i), s.off, s.align)));
    v.join("\n")
}
/// Program headers run into loaded sections that no segment maps together with them.
fn file_collide(m: &Model, n: usize) -> bool {
    let img = m.img();
    let end = img.ehsize() as u64 + (n * img.phentsize()) as u64;
    m.secs.iter().any(|s| s.alloc() && s.ty != SHT_NOBITS && s.off < end)
}
fn want_segs(m: &Model, want: &Model) -> Vec<MSeg> {
    // Segments keep their order; deleted ones lost all their sections.
    let mut v = m.segs.clone();
    let mut w = want.segs.iter();
    let mut next = w.next();
    v.retain(|p| {
        let Some(n) = next else { return false };
        if n.s == p.s {
            next = w.next();
            return true;
        }
        false
    });
    v
}

fn elf(g: &mut Gen) -> R {
    let mut m = elf_model(g);
    let mut v = m.encode(g);
    // Load segments may have different alignments.
    if g.chance(1, 4) {
        let (be, is64) = (m.be, m.is64);
        for (i, p) in m.segs.iter_mut().enumerate() {
            if p.s.ty == PT_LOAD && g.bool() {
                p.s.align = g.pickc(&[1, 2, 4, 8, 0x10, 0x40]).min(p.s.align);
                let (at, n) = if is64 { (64 + 56 * i + 48, 8) } else { (52 + 32 * i + 28, 4) };
                let b = if be { p.s.align.to_be_bytes()[8 - n..].to_vec() } else { p.s.align.to_le_bytes()[..n].to_vec() };
                v[at..at + n].copy_from_slice(&b);
            }
        }
        g.label("different alignments");
    }
    g.file(&v)?;
    let Some((w, got)) = pass(g, &v, &m)? else { return Ok(()) };
    // Program headers that aren't loaded have an arbitrary address that may now be in the way.
    let loaded = got.segs.iter().all(|p| p.s.ty != PT_PHDR || got.segs.iter().any(|l| l.s.ty == PT_LOAD && l.s.vaddr <= p.s.vaddr && p.s.vaddr + p.s.memsz <= l.s.vaddr + l.s.memsz));
    if loaded && g.chance(1, 3) && !got.secs.is_empty() {
        let mut got = got;
        got.attach();
        pass(g, &w, &got)?;
    }
    Ok(())
}

fn macho(g: &mut Gen) -> R {
    let object = g.bool();
    let m = mm::gen_model(g, object);
    let page = if object { 0 } else { g.pickc(&[0x10, 0x100, 0x1000, 0x4000]) };
    let v = m.encode(g, page);
    let m = mm::decode_with(&v, false).map_err(|f| Failure { sig: "encoder".into(), msg: format!("own encoder: {}", f.msg) })?;
    g.file(&v)?;
    let mut r = must!(Rewriter::read(&v), "Rewriter::read");
    ensure!(r.elf_runpath().is_none() && r.elf_soname().is_none() && r.elf_needed().next().is_none() && r.elf_interpreter().is_none(), "ELF information in a Mach-O file");
    let mut want = m.clone();
    let syms: Vec<Name> = m.syms.iter().map(|s| s.name.clone()).collect();
    let secs: Vec<Name> = m.secs.iter().map(|s| s.name.clone()).collect();
    let n = if g.chance(1, 10) { 0 } else { g.range(1, 4) };
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(match g.upto(9) {
            0 | 1 => Op::DelSyms(set(g, &syms)),
            2..=4 => Op::RenSyms(map(g, &syms)),
            5 => Op::DelSecs(set(g, &secs)),
            6..=8 => {
                let mut v = map(g, &secs);
                if g.chance(7, 8) {
                    v.values_mut().for_each(|n| n.truncate(16));
                }
                Op::RenSecs(v)
            }
            _ => gen_op(g, &Pools { syms: syms.clone(), secs: secs.clone(), needed: vec![] }, &secs),
        });
    }
    let by_options = g.bool();
    if by_options {
        ops.retain(|o| rank(o).is_some());
        ops.sort_by_key(|o| rank(o).unwrap());
        ops.dedup_by_key(|o| rank(o).unwrap());
    }
    let mut ok = true;
    let mut failed = false;
    for o in &ops {
        let good = match o {
            Op::DelSyms(v) => {
                want.syms.iter_mut().filter(|s| v.contains(&s.name)).for_each(|s| s.del = true);
                true
            }
            Op::RenSyms(v) => {
                want.syms.iter_mut().for_each(|s| rename(&mut s.name, v));
                true
            }
            Op::DelSecs(v) => {
                want.secs.iter_mut().filter(|s| v.contains(&s.name)).for_each(|s| s.del = true);
                true
            }
            Op::RenSecs(v) => {
                let long = want.secs.iter().any(|s| !s.del && v.get(&s.name).is_some_and(|n| n.len() > 16));
                if !long {
                    want.secs.iter_mut().for_each(|s| rename(&mut s.name, v));
                }
                !long
            }
            Op::DelTable(..) | Op::RenTable(..) => true,
            _ => false,
        };
        if !by_options {
            let res = call(&mut r, o.clone());
            ensure_eq!(res.is_ok(), good, "{o:?}");
        }
        ok &= good;
        if !good {
            failed = true;
            break;
        }
    }
    if by_options {
        let res = r.modify(options(&ops));
        ensure_eq!(res.is_ok(), ok, "modify with {ops:?}");
    }
    if failed {
        g.label("not applicable");
        return Ok(());
    }
    let want2 = want.compact();
    let problem = want2.problem(&want);
    let mut w = vec![];
    let res = r.write(&mut w);
    if let Some(p) = problem {
        g.label("cannot be written");
        let Err(e) = res else { fail!("written despite: {p}") };
        ensure_eq!(e.kind(), ErrorKind::Write, "kind of error");
        return Ok(());
    }
    must!(res, "write");
    let got = mm::decode(&w)?;
    mm::same(&got, &want2).map_err(|f| Failure { msg: format!("{} (after {ops:?})", f.msg), ..f })?;
    g.nontrivial_if(!ops.is_empty() && m.secs.len() > 1 && m.syms.len() > 1);
    g.sample(|| format!("{ops:?}: {} sections, {} symbols", m.secs.len(), m.syms.len()));
    Ok(())
}

fn main() {
    run(
        "C33",
        "a case is non-trivial when at least one modification was written to a file with more than two sections",
        &[
            "the files are of the kinds that the builder supports (see C30 and C32)",
            "sections that other data may refer to by address do not move, so that modifications for which there is no room are refused",
            "names contain no NUL, and needed libraries to add are distinct",
        ],
        &[sub("elf", 300_000, 20_000_000, elf), sub("macho", 200_000, 10_000_000, macho)],
    )
}
