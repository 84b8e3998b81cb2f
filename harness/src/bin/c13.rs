//! C13: Mach-O dynamic-linker tables decode to the encoded fixups and symbols.
use object::macho as m;
use object::read::macho::{
    Bind, DyldChainedFixups, ExportData, ExportSymbol, Fixup, FixupAuth, MachOFile, Rebase,
};
use object::read::*;
use object::{Endianness, pod};
use vh::b::*;
use vh::macho::*;
use vh::*;

fn en(be: bool) -> Endianness {
    if be { Endianness::Big } else { Endianness::Little }
}

/// A number in `n` bits, mostly small.
fn uleb(g: &mut Gen) -> u64 {
    match g.below(6) {
        0 => g.u64(),
        1 => 0,
        2 => (g.upto(64) as i64).wrapping_neg() as u64,
        _ => g.upto(300),
    }
}

fn dyld_info(be: bool, areas: &[(u32, u32); 5]) -> Vec<u8> {
    let mut b = B::new(be, true);
    b.u32(0x8000_0022).u32(48);
    for (o, s) in areas {
        b.u32(*o).u32(*s);
    }
    b.v
}

/// Put a stream into a buffer at some place, and return the dyld info command with it as area `i`.
fn place(g: &mut Gen, be: bool, i: usize, s: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let off = g.len(20);
    let mut data = g.bytes(off);
    data.extend_from_slice(s);
    let tail = g.len(8);
    data.extend(g.bytes(tail));
    let mut a = [(0, 0); 5];
    for (j, x) in a.iter_mut().enumerate() {
        *x = if j == i { (off as u32, s.len() as u32) } else { (g.upto(4) as u32, 0) };
    }
    (dyld_info(be, &a), data)
}

/// Run `it` to its end: the items, and whether it ended with an error. Iteration must stay ended after that.
fn drain<T>(max: usize, mut next: impl FnMut() -> Option<object::read::Result<T>>) -> R<(Vec<T>, bool)> {
    let mut out = vec![];
    loop {
        match next() {
            None => return Ok((out, false)),
            Some(Err(_)) => {
                ensure!(next().is_none(), "iteration continues after an error");
                return Ok((out, true));
            }
            Some(Ok(x)) => out.push(x),
        }
        ensure!(out.len() <= max, "more than {max} items");
    }
}

type Bytes = Vec<u8>;

/// Rebase locations chosen first, then expressed as opcodes in one of the possible ways, with
/// the state changes needed in between.
pub fn rebases(g: &mut Gen) -> R {
    let (be, ps) = (g.bool(), if g.bool() { 8u64 } else { 4 });
    let mut b = B::new(be, true);
    let mut want: Vec<Rebase> = vec![];
    let mut ops = 0;
    let (mut ty, mut seg, mut off) = (None::<u8>, None::<u8>, 0u64);
    let mut failed = false;
    let n = g.len(14);
    let mut done = false;
    for k in 0..n {
        let missing = k == 0 && g.chance(1, 20);
        if (ty.is_none() && !missing) || g.chance(1, 6) {
            let t = if g.chance(1, 6) { g.upto(15) as u8 } else { g.range(1, 3) as u8 };
            b.u8(0x10 | t);
            ty = Some(t);
            ops += 1;
        }
        if (seg.is_none() && !(k == 0 && g.chance(1, 20))) || g.chance(1, 6) {
            let s = g.upto(15) as u8;
            off = if g.chance(1, 8) { g.u64() } else { g.upto(0xffff) };
            b.u8(0x20 | s).uleb(off);
            seg = Some(s);
            ops += 1;
        }
        let (count, adv) = match g.below(8) {
            0 => {
                let d = uleb(g);
                b.u8(0x30).uleb(d);
                off = off.wrapping_add(d);
                (0, 0)
            }
            1 => {
                let d = g.upto(15);
                b.u8(0x40 | d as u8);
                off = off.wrapping_add(d * ps);
                (0, 0)
            }
            2 => {
                let c = g.upto(15);
                b.u8(0x50 | c as u8);
                (c, ps)
            }
            3 => {
                let c = g.upto(200);
                b.u8(0x60 | if g.chance(1, 8) { g.upto(15) as u8 } else { 0 }).uleb(c);
                (c, ps)
            }
            4 | 5 => {
                let d = uleb(g);
                b.u8(0x70).uleb(d);
                (1, ps.wrapping_add(d))
            }
            6 => {
                let (c, d) = (g.upto(40), uleb(g));
                b.u8(0x80).uleb(c).uleb(d);
                (c, ps.wrapping_add(d))
            }
            _ => {
                if g.chance(1, 6) {
                    done = true;
                    b.u8(0);
                    let n = g.len(5);
                    b.bytes(&g.bytes(n));
                    break;
                }
                (0, 0)
            }
        };
        ops += 1;
        for _ in 0..count {
            let (Some(t), Some(s)) = (ty, seg) else {
                failed = true;
                break;
            };
            want.push(Rebase { segment_index: s, segment_offset: off, kind: m::RebaseType(t) });
            off = off.wrapping_add(adv);
        }
        if failed {
            break;
        }
    }
    if !failed && !done && g.chance(1, 8) {
        failed = true;
        b.u8(*g.pick(&[0x90, 0xa5, 0xff, 0x30, 0x70, 0x80, 0x60, 0x21]));
        if g.bool() && b.v.last().unwrap() < &0x90 {
            b.u8(0x80);
        }
    }
    g.nontrivial_if(want.len() > 2);
    g.label_if(failed, "rebase error");
    g.label_if(done, "rebase done");
    g.sample(|| format!("rebase {} opcodes, {} locations, failed={failed}", ops, want.len()));
    g.files(&[&[be as u8], &b.v])?;
    let (cmd, data) = place(g, be, 0, &b.v);
    let (c, _) = must!(pod::from_bytes::<m::DyldInfoCommand<Endianness>>(&cmd), "command");
    let e = en(be);
    let mut it = must!(c.rebases(e, &data[..], ps as u8), "rebases");
    let (got, err) = drain(want.len() + 1, || it.next().transpose())?;
    ensure_eq!(got, want, "rebases");
    ensure_eq!(err, failed, "rebase stream error");
    let mut it = must!(c.rebase_operations(e, &data[..]), "operations");
    drain(b.len() + 1, || it.next().transpose())?;
    // Outside the data.
    let short = &data[..data.len().min(g.below(data.len() + 1))];
    let end = u32::from_le_bytes(cmd[8..12].try_into().unwrap());
    let end = if be { end.swap_bytes() } else { end } as usize + b.len();
    ensure_eq!(c.rebase_data(e, short).is_ok(), end <= short.len() || b.v.is_empty(), "rebase data in {} bytes, stream ends at {end}", short.len());
    Ok(())
}

#[derive(Clone)]
struct St {
    ty: Option<u8>,
    seg: Option<u8>,
    off: u64,
    dylib: Option<i32>,
    sym: Option<(u8, Bytes)>,
    addend: i64,
}

struct BindStream {
    bytes: Bytes,
    want: Vec<(u8, u64, u8, i32, Bytes, u8, i64)>,
    /// Imports: symbol, dylib, flags.
    imports: Vec<(Bytes, i32, u8)>,
    failed: bool,
    ops: usize,
}

/// The library of an import that must be reported as an error: none is selected, or no symbol.
const NO_LIB: i32 = i32::MAX;

/// `mode`: 0 regular, 1 weak, 2 lazy.
fn gen_binds(g: &mut Gen, ps: u64, mode: usize, bad: bool, libs: u64) -> BindStream {
    let mut b = B::new(false, true);
    let fresh = St {
        ty: if mode > 0 { Some(1) } else { None },
        seg: None,
        off: 0,
        dylib: if mode == 1 { Some(-3) } else { None },
        sym: None,
        addend: 0,
    };
    let mut st = fresh.clone();
    let mut r = BindStream { bytes: vec![], want: vec![], imports: vec![], failed: false, ops: 0 };
    let mut unbound = false;
    let n = g.len(14);
    'all: for k in 0..n {
        let lax = g.chance(1, 12);
        r.ops += 1;
        if (st.dylib.is_none() && !lax) || (mode != 1 && g.chance(1, 4)) {
            let d = match g.below(4) {
                0 => {
                    let d = g.upto(libs.min(15));
                    b.u8(0x10 | d as u8);
                    d as i64
                }
                1 | 2 => {
                    let d = if bad { if g.chance(1, 12) { g.u64() } else { g.upto(600) } } else { g.upto(libs) };
                    b.u8(0x20).uleb(d);
                    if d > i32::MAX as u64 {
                        r.failed = true;
                        break 'all;
                    }
                    d as i64
                }
                _ => {
                    let d = if bad { g.upto(15) as i64 } else { g.upto(3) as i64 };
                    b.u8(0x30 | (d.wrapping_neg() & 15) as u8);
                    let d = -d;
                    // -9..=-15 are the nibbles 7 down to 1, sign extended as all nibbles are.
                    d
                }
            };
            st.dylib = Some(d as i32);
        }
        if (st.sym.is_none() && !(bad && lax)) || g.chance(1, 3) {
            let f = if g.bool() { 0 } else { g.pickc(&[1, 8, 9, 15, 2]) };
            let s = g.name(12);
            let s: Bytes = s.into_iter().filter(|c| *c != 0).collect();
            b.u8(0x40 | f).cstr(&s);
            st.sym = Some((f, s));
            unbound = true;
        }
        if (st.ty.is_none() && !lax) || g.chance(1, 6) {
            let t = if g.chance(1, 6) { g.upto(15) as u8 } else { g.range(1, 3) as u8 };
            b.u8(0x50 | t);
            st.ty = Some(t);
        }
        if g.chance(1, 5) {
            let a = g.i64();
            b.u8(0x60).sleb(a);
            st.addend = a;
        }
        if (st.seg.is_none() && !lax) || g.chance(1, 4) {
            let s = g.upto(15) as u8;
            st.off = if g.chance(1, 8) { g.u64() } else { g.upto(0xffff) };
            b.u8(0x70 | s).uleb(st.off);
            st.seg = Some(s);
        }
        let (count, adv) = match g.below(8) {
            0 => {
                let d = uleb(g);
                b.u8(0x80).uleb(d);
                st.off = st.off.wrapping_add(d);
                (0, 0)
            }
            1 | 2 => {
                b.u8(0x90);
                (1, ps)
            }
            3 => {
                let d = uleb(g);
                b.u8(0xa0).uleb(d);
                (1, ps.wrapping_add(d))
            }
            4 => {
                let d = g.upto(15);
                b.u8(0xb0 | d as u8);
                (1, ps + d * ps)
            }
            5 => {
                let (c, d) = (g.upto(40), uleb(g));
                b.u8(0xc0).uleb(c).uleb(d);
                (c, ps.wrapping_add(d))
            }
            6 if mode == 2 => {
                for _ in 0..g.range(1, 3) {
                    b.u8(0);
                }
                st = fresh.clone();
                (0, 0)
            }
            6 if g.chance(1, 4) => {
                b.u8(0);
                let n = g.len(5);
                b.bytes(&g.bytes(n));
                break 'all;
            }
            _ => (0, 0),
        };
        for i in 0..count {
            if i == 0 && unbound {
                unbound = false;
                match (st.dylib, &st.sym) {
                    (Some(d), Some((f, n))) if d != 0 => r.imports.push((n.clone(), d, *f)),
                    (Some(_), Some(_)) => {}
                    _ => r.imports.push((vec![], NO_LIB, 0)),
                }
            }
            let (Some(t), Some(s), Some(d), Some((f, n))) = (st.ty, st.seg, st.dylib, st.sym.clone()) else {
                r.failed = true;
                if bad {
                    break 'all;
                }
                break;
            };
            if !r.failed {
                r.want.push((s, st.off, t, d, n, f, st.addend));
            }
            st.off = st.off.wrapping_add(adv);
        }
        if bad && k + 1 == n && g.chance(1, 8) {
            r.failed = true;
            b.u8(*g.pick(&[0xd0, 0xff, 0x40, 0x20, 0x60, 0x70, 0x80, 0xc0]));
        }
    }
    r.bytes = b.v;
    r
}

pub fn binds(g: &mut Gen) -> R {
    let (be, ps) = (g.bool(), if g.bool() { 8u64 } else { 4 });
    let mode = g.below(3);
    let s = gen_binds(g, ps, mode, true, 15);
    g.nontrivial_if(s.want.len() > 2);
    g.label_if(s.failed, "bind error");
    g.label(["regular", "weak", "lazy"][mode]);
    g.sample(|| format!("binds mode {mode}: {} opcode groups, {} locations, failed={}", s.ops, s.want.len(), s.failed));
    g.files(&[&[be as u8], &s.bytes])?;
    let (cmd, data) = place(g, be, mode + 1, &s.bytes);
    let (c, _) = must!(pod::from_bytes::<m::DyldInfoCommand<Endianness>>(&cmd), "command");
    let e = en(be);
    let mut it = must!(
        match mode {
            0 => c.binds(e, &data[..], ps as u8),
            1 => c.weak_binds(e, &data[..], ps as u8),
            _ => c.lazy_binds(e, &data[..], ps as u8),
        },
        "binds"
    );
    let (got, err) = drain(s.want.len() + 1, || it.next().transpose())?;
    let got: Vec<_> = got
        .iter()
        .map(|b: &Bind| (b.segment_index, b.segment_offset, b.kind.0, b.dylib.0, b.symbol.to_vec(), b.flags.0, b.addend))
        .collect();
    ensure_eq!(got, s.want, "binds of mode {mode}");
    ensure_eq!(err, s.failed, "bind stream error");
    Ok(())
}

// Chained fixups.

#[derive(Clone, Debug, PartialEq)]
enum Fx {
    Rebase(u64, Option<(u8, u16, bool)>),
    Bind(u32, i32, Option<(u8, u16, bool)>),
    Kernel(u64, u8, Option<(u8, u16, bool)>),
    Segmented(u8, u64, Option<(u8, u16, bool)>),
}
fn au(a: Option<FixupAuth>) -> Option<(u8, u16, bool)> {
    a.map(|a| (a.key as u8, a.diversity, a.addr_div))
}
fn fx(f: Fixup) -> Fx {
    match f {
        Fixup::Rebase(r) => Fx::Rebase(r.target_offset, au(r.auth)),
        Fixup::Bind(r) => Fx::Bind(r.ordinal, r.addend, au(r.auth)),
        Fixup::KernelCacheRebase(r) => Fx::Kernel(r.target_offset, r.cache_level, au(r.auth)),
        Fixup::SegmentedRebase(r) => Fx::Segmented(r.target_segment_index, r.target_segment_offset, au(r.auth)),
    }
}

/// (width, stride, bits of next)
fn shape(fmt: u16) -> Option<(usize, u64, u32)> {
    Some(match fmt {
        1 | 9 | 12 => (8, 8, 11),
        7 | 10 => (8, 4, 11),
        2 | 6 => (8, 4, 12),
        8 => (8, 4, 12),
        11 => (8, 1, 12),
        3 => (4, 4, 5),
        4 => (4, 4, 2),
        5 => (4, 4, 6),
        13 => (8, 8, 11),
        14 => (8, 4, 12),
        _ => return None,
    })
}

/// A random fixup, and its encoding with a link of `next` units.
fn gen_fixup(g: &mut Gen, fmt: u16, base: u64, next: u64) -> (Fx, u64) {
    let bind = g.bool();
    let auth = g.bool();
    let (key, div, ad) = (g.upto(3), g.u16(), g.bool());
    let a = Some((key as u8, div, ad));
    let abits = (div as u64) << 32 | (ad as u64) << 48 | key << 49;
    match fmt {
        1 | 7 | 9 | 10 | 12 => {
            let link = next << 51 | (bind as u64) << 62 | (auth as u64) << 63;
            match (bind, auth) {
                (false, false) => {
                    let t = g.uint(42);
                    let h = if g.bool() { 0 } else { g.u8() as u64 };
                    let target = if fmt == 1 || fmt == 10 { t + base } else { t };
                    if target >> 43 != 0 {
                        return (Fx::Rebase(0, None), if base >> 43 == 0 && matches!(fmt, 1 | 10) { base } else { 0 } | link);
                    }
                    (Fx::Rebase(t | h << 56, None), target | h << 43 | link)
                }
                (false, true) => {
                    let t = g.uint(32);
                    (Fx::Rebase(t, a), t | abits | link)
                }
                (true, auth) => {
                    let o = if fmt == 12 { g.uint(24) } else { g.uint(16) };
                    if auth {
                        (Fx::Bind(o as u32, 0, a), o | abits | link)
                    } else {
                        let x = g.uint(19);
                        let sx = if x >> 18 == 1 { x as i64 - (1 << 19) } else { x as i64 };
                        (Fx::Bind(o as u32, sx as i32, None), o | x << 32 | link)
                    }
                }
            }
        }
        2 | 6 => {
            let link = next << 51 | (bind as u64) << 63;
            if bind {
                let (o, x) = (g.uint(24), g.uint(8));
                (Fx::Bind(o as u32, x as i32, None), o | x << 24 | link)
            } else {
                let t = g.uint(35);
                let h = if g.bool() { 0 } else { g.u8() as u64 };
                let target = if fmt == 2 { t + base } else { t };
                (Fx::Rebase(t | h << 56, None), target | h << 36 | link)
            }
        }
        8 | 11 => {
            let link = next << 51 | (auth as u64) << 63;
            let (t, l) = (g.uint(30), g.upto(3));
            (Fx::Kernel(t, l as u8, if auth { a } else { None }), t | l << 30 | if auth { abits } else { 0 } | link)
        }
        3 => {
            let link = next << 26 | (bind as u64) << 31;
            if bind {
                let (o, x) = (g.uint(20), g.uint(6));
                (Fx::Bind(o as u32, x as i32, None), o | x << 20 | link)
            } else {
                let t = g.uint(25);
                (Fx::Rebase(t, None), (t + base) | link)
            }
        }
        4 => {
            let t = g.uint(30);
            (Fx::Rebase(t, None), t | next << 30)
        }
        5 => {
            let t = g.uint(26);
            (Fx::Rebase(t, None), t | next << 26)
        }
        13 => {
            let link = next << 52 | (auth as u64) << 63;
            let t = g.uint(34);
            if auth {
                let data = g.bool();
                let a = Some((if data { 2 } else { 0 }, div, ad));
                (Fx::Rebase(t, a), t | (div as u64) << 34 | (ad as u64) << 50 | (data as u64) << 51 | link)
            } else {
                let h = if g.bool() { 0 } else { g.u8() as u64 };
                (Fx::Rebase(t | h << 56, None), t | h << 34 | link)
            }
        }
        _ => {
            let link = next << 51 | (auth as u64) << 63;
            let (o, s) = (g.uint(28), g.upto(15));
            (Fx::Segmented(s as u8, o, if auth { a } else { None }), o | s << 28 | if auth { abits } else { 0 } | link)
        }
    }
}

struct ChSeg {
    fmt: u16,
    page_size: u16,
    pages: Vec<u16>,
    extra: Vec<u16>,
    data: Bytes,
    want: Vec<(u64, Fx)>,
    fail: bool,
}

fn gen_chain(g: &mut Gen, be: bool, base: u64) -> ChSeg {
    let fmt = g.range(1, 14) as u16;
    let (w, stride, nb) = shape(fmt).unwrap();
    let npages = g.len1(4);
    let page_size = if g.chance(1, 3) { 0x1000 } else { g.pickc(&[0x40u64, 0x80, 0x100]) };
    let mut data = g.bytes(0);
    data.resize(page_size as usize * npages, 0);
    if g.bool() {
        for x in data.iter_mut() {
            *x = 0xa5;
        }
    }
    let mut b = B { be, is64: true, v: data };
    let (mut pages, mut extra, mut want) = (vec![], vec![], vec![]);
    if g.chance(1, 40) {
        // Entries no page refers to.
        let n = if g.chance(1, 4) { g.pickc(&[0xfff, 0x1000, 0x1fff, 0x2000, 0x3fff, 0x4000, 0x7000, 0x7f00]) } else { g.range(1, 300) };
        extra = vec![0x8000 | g.u16(); n];
    }
    for p in 0..npages {
        // Offsets of the fixups of this page, ascending, not overlapping.
        let mut offs = vec![];
        let mut o = g.upto(4) * stride.max(4) / if stride == 1 && g.bool() { 3 } else { 1 };
        while o + w as u64 <= page_size && offs.len() < 8 {
            offs.push(o);
            let step = (w as u64).div_ceil(stride);
            let far = g.chance(1, 6);
            o += stride * (step + if far { g.upto((1 << nb) - 1) } else { g.upto(3) });
            if g.chance(1, 5) {
                break;
            }
        }
        if g.chance(1, 5) {
            offs.clear();
        }
        if offs.is_empty() {
            pages.push(0xffff);
            continue;
        }
        // Split into chains.
        let mut chains: Vec<Vec<u64>> = vec![vec![offs[0]]];
        for w2 in offs.windows(2) {
            let d = (w2[1] - w2[0]) / stride;
            if d >= 1 << nb || g.chance(1, 8) {
                chains.push(vec![w2[1]]);
            } else {
                chains.last_mut().unwrap().push(w2[1]);
            }
        }
        if chains.len() == 1 && g.chance(5, 6) {
            pages.push(offs[0] as u16);
        } else {
            pages.push(0x8000 | (npages + extra.len()) as u16);
            let n = chains.len();
            for (i, c) in chains.iter().enumerate() {
                extra.push(c[0] as u16 | if i + 1 == n { 0x8000 } else { 0 });
            }
        }
        for c in &chains {
            for (i, o) in c.iter().enumerate() {
                let next = c.get(i + 1).map_or(0, |n| (n - o) / stride);
                let (f, v) = gen_fixup(g, fmt, base, next);
                let at = p as u64 * page_size + o;
                b.put(at as usize, w, v);
                want.push((at, f));
            }
        }
    }
    ChSeg { fmt, page_size: page_size as u16, pages, extra, data: b.v, want, fail: false }
}

type Imp = (i32, bool, i64, Bytes);

struct Chained {
    blob: Bytes,
    segs: Vec<Option<ChSeg>>,
    imports: Vec<Imp>,
}

fn gen_chained(g: &mut Gen, be: bool, base: u64, libs: Option<u64>) -> Chained {
    let mut h = B::new(be, true);
    let format = g.range(1, 3) as u32;
    let mut imports: Vec<Imp> = vec![];
    let mut t = StrTab::new(if g.bool() { b"\0" } else { b"" }, g.bool());
    let mut imp = B::new(be, true);
    for _ in 0..g.len(8) {
        let name: Bytes = g.name(12);
        let off = t.add(&name) as u64;
        let weak = g.chance(1, 3);
        let max = if format == 3 { 0xfff0 } else { 0xf0 };
        let ord: i32 = match libs {
            Some(n) => g.upto(n + 3) as i32 - 3,
            None if g.chance(1, 4) => -(g.range(1, 15) as i32),
            None => {
                let k = g.uint(16) % (max as u64 + 1);
                k as i32
            }
        };
        let add = match format {
            1 => {
                imp.u32((ord as u32 & 0xff) | (weak as u32) << 8 | (off as u32) << 9);
                0
            }
            2 => {
                let a = g.u32();
                imp.u32((ord as u32 & 0xff) | (weak as u32) << 8 | (off as u32) << 9).u32(a);
                a as i32 as i64
            }
            _ => {
                let a = g.u64();
                imp.u64((ord as u64 & 0xffff) | (weak as u64) << 16 | if g.bool() { 0x1234 << 17 & 0xfffe_0000 } else { 0 } | off << 32).u64(a);
                a as i64
            }
        };
        imports.push((ord, weak, add, name));
    }
    let nseg = g.len(4);
    let mut segs = vec![];
    let mut starts = B::new(be, true);
    starts.u32(nseg as u32).zeros(4 * nseg);
    for i in 0..nseg {
        if g.chance(1, 4) {
            segs.push(None);
            continue;
        }
        let s = gen_chain(g, be, base);
        starts.align(if g.bool() { 8 } else { 2 });
        let o = starts.len();
        starts.put(4 + 4 * i, 4, o as u64);
        let n = s.pages.len() + s.extra.len();
        let pad = if g.chance(1, 3) { g.range(0, 3) } else { 0 };
        let size = 22 + 2 * n + pad;
        starts.u32(size as u32).u16(s.page_size).u16(s.fmt).u64(g.u64()).u32(g.u32()).u16(s.pages.len() as u16);
        for x in s.pages.iter().chain(&s.extra) {
            starts.u16(*x);
        }
        starts.zeros(pad);
        segs.push(Some(s));
    }
    // Area order.
    let mut parts = [(0, starts.v), (1, imp.v), (2, t.v)];
    if g.chance(1, 3) {
        parts.swap(0, g.range(0, 2));
    }
    let mut offs = [0u32; 3];
    let mut body = B::new(be, true);
    body.zeros(28);
    for (i, p) in &parts {
        body.align(if g.bool() { 8 } else { 4 });
        if g.chance(1, 4) {
            body.zeros(8);
        }
        offs[*i] = body.len() as u32;
        body.bytes(p);
    }
    h.u32(0).u32(offs[0]).u32(offs[1]).u32(offs[2]).u32(imports.len() as u32).u32(format).u32(0);
    body.v[..28].copy_from_slice(&h.v);
    Chained { blob: body.v, segs, imports }
}

pub fn chained(g: &mut Gen) -> R {
    let be = g.chance(1, 4);
    let e = en(be);
    let base = if g.chance(1, 3) { 0 } else if g.bool() { 0x4000 } else { 0x10_0000 };
    let base = if g.chance(1, 4) && base > 0 { 0x1_0000_0000 } else { base };
    // Bases that do not fit in 26 bits are not possible for 32-bit formats.
    let mut c = gen_chained(g, be, if base > 0xffff_ffff { 0x1_0000_0000 } else { base }, None);
    for s in c.segs.iter_mut().flatten() {
        if s.fmt == 3 && base > 0xffff_ffff {
            s.fail = true;
        }
    }
    g.nontrivial_if(c.segs.iter().flatten().any(|s| s.want.len() > 2) || c.imports.len() > 2);
    for s in c.segs.iter().flatten() {
        g.label(["", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14"][s.fmt as usize]);
        g.label_if(!s.extra.is_empty(), "multi");
    }
    g.sample(|| format!("{} imports, segments {:?}", c.imports.len(), c.segs.iter().map(|s| s.as_ref().map(|s| (s.fmt, s.want.len()))).collect::<Vec<_>>()));
    let kind = [be as u8];
    let mut parts: Vec<&[u8]> = vec![&kind, &c.blob];
    parts.extend(c.segs.iter().flatten().map(|s| &s.data[..]));
    g.files(&parts)?;
    let f = must!(DyldChainedFixups::parse(e, &c.blob), "parse");
    let mut it = must!(f.imports(e), "imports");
    let (got, err) = drain(c.imports.len() + 1, || it.next().transpose())?;
    let got: Vec<Imp> = got.iter().map(|i| (i.dylib.0, i.weak_import, i.addend, i.name.to_vec())).collect();
    ensure_eq!(got, c.imports, "imports");
    ensure!(!err, "imports error");
    let mut it = must!(f.segments(e), "segments");
    let (got, err) = drain(c.segs.len() + 1, || it.next().transpose())?;
    ensure!(!err, "segments error");
    let want: Vec<_> = c.segs.iter().enumerate().filter(|s| s.1.is_some()).collect();
    ensure_eq!(got.iter().map(|s| s.index() as usize).collect::<Vec<_>>(), want.iter().map(|s| s.0).collect::<Vec<_>>(), "segment indices");
    for (s, (i, w)) in got.iter().zip(want) {
        let w = w.as_ref().unwrap();
        ensure_eq!(s.header().pointer_format.get(e).0, w.fmt, "format of segment {i}");
        ensure_eq!(s.header().page_size.get(e), w.page_size, "page size of segment {i}");
        ensure_eq!(s.header().page_count.get(e) as usize, w.pages.len(), "page count of segment {i}");
        if w.fail {
            continue;
        }
        let mut it = s.fixups(e, base, &w.data);
        let (got, err) = drain(w.want.len() + 1, || it.next().transpose())?;
        let got: Vec<(u64, Fx)> = got.into_iter().map(|(o, f)| (o, fx(f))).collect();
        ensure_eq!(got, w.want, "fixups of segment {i}, format {}", w.fmt);
        ensure!(!err, "fixups error");
        // Truncated segment data: the fixups before the end, then an error.
        let k = g.below(w.data.len() + 1);
        let wd = shape(w.fmt).unwrap().0;
        let n = w.want.iter().position(|(o, _)| *o as usize + wd > k).unwrap_or(w.want.len());
        let mut it = s.fixups(e, base, &w.data[..k]);
        let (got, err) = drain(w.want.len() + 1, || it.next().transpose())?;
        ensure!(got.len() == n && err == (n < w.want.len()), "truncated segment {i}: {} fixups, error {err}, expected {n}", got.len());
    }
    Ok(())
}

fn chained_bad(g: &mut Gen) -> R {
    let be = g.bool();
    let e = en(be);
    let mut c = gen_chained(g, be, 0, None);
    let mut b = B { be, is64: true, v: std::mem::take(&mut c.blob) };
    match g.below(6) {
        0 => {
            b.put(0, 4, g.range64(1, 0xffff_ffff));
            ensure!(DyldChainedFixups::parse(e, &b.v).is_err(), "bad fixups version accepted");
        }
        1 => {
            b.put(24, 4, g.range64(1, 0xffff_ffff));
            let f = must!(DyldChainedFixups::parse(e, &b.v), "parse");
            ensure!(f.imports(e).is_err(), "compressed symbols accepted");
            ensure!(f.segments(e).is_ok(), "segments with compressed symbols");
        }
        2 => {
            // Import table runs out of data.
            let w = if matches!(D::new(be, true, &b.v).at(20).u32(), Some(1)) { 4 } else { 8 };
            let n = g.upto(3);
            let at = b.len() as u64 - n.min(b.len() as u64);
            b.put(8, 4, at);
            b.put(16, 4, n / w + 1 + g.upto(5));
            let f = must!(DyldChainedFixups::parse(e, &b.v), "parse");
            let mut it = must!(f.imports(e), "imports");
            let (_, err) = drain(10, || it.next().transpose())?;
            ensure!(err, "import outside the data accepted");
        }
        3 => {
            b.put(20, 4, if g.bool() { 0 } else { g.range64(4, 0xffff_ffff) });
            let f = must!(DyldChainedFixups::parse(e, &b.v), "parse");
            let mut it = must!(f.imports(e), "imports");
            let (got, err) = drain(1, || it.next().transpose())?;
            ensure!(got.is_empty() && err != c.imports.is_empty(), "unknown import format accepted");
        }
        4 => {
            let o = b.len() as u64 + 1 + g.upto(100);
            let i = g.range(1, 3);
            b.put(4 * i, 4, o);
            let f = must!(DyldChainedFixups::parse(e, &b.v), "parse");
            if i == 1 {
                ensure!(f.segments(e).is_err(), "starts outside the data accepted");
            } else {
                ensure!(f.imports(e).is_err(), "imports or symbols outside the data accepted");
            }
        }
        _ => {
            // Unknown pointer format.
            let mut s = B::new(be, true);
            let fmt = if g.bool() { 0 } else { g.range(15, 0xffff) as u16 };
            s.u32(0).u32(28).u32(28).u32(28).u32(0).u32(1).u32(0);
            s.u32(1).u32(8).u32(24).u16(0x1000).u16(fmt).u64(0).u32(0).u16(1).u16(0);
            let f = must!(DyldChainedFixups::parse(e, &s.v), "parse");
            let mut it = must!(f.segments(e), "segments");
            let x = must_some!(must!(it.next(), "segment"), "segment");
            let data = g.bytes(16);
            let mut it = x.fixups(e, 0, &data);
            let (got, err) = drain(1, || it.next().transpose())?;
            ensure!(got.is_empty() && err, "unknown pointer format {fmt} accepted");
        }
    }
    g.nontrivial();
    Ok(())
}

// Exports trie.

#[derive(Clone, Debug, PartialEq)]
enum Ex {
    Reg(u64),
    Re(u64, Bytes),
    Stub(u64, u64),
}
#[derive(Default, Debug)]
struct Node {
    term: Option<(u64, Ex)>,
    kids: Vec<(Bytes, usize)>,
}
struct Trie {
    bytes: Bytes,
    want: Vec<(Bytes, u64, Ex)>,
    /// Offset of each node, and of each child reference: (node, width).
    offs: Vec<usize>,
}

fn ex_bytes(f: u64, e: &Ex) -> Bytes {
    let mut b = B::new(false, true);
    b.uleb(f);
    match e {
        Ex::Reg(a) => {
            b.uleb(*a);
        }
        Ex::Re(o, n) => {
            b.uleb(*o).cstr(n);
        }
        Ex::Stub(a, c) => {
            b.uleb(*a).uleb(*c);
        }
    }
    b.v
}

fn gen_trie(g: &mut Gen, max: usize, libs: Option<u64>) -> Trie {
    let mut nodes: Vec<Node> = vec![Node::default()];
    let mut prefix: Vec<Bytes> = vec![vec![]];
    let n = g.len(max);
    let limit = if g.chance(1, 10) { 1 + g.len(60) } else { 4 };
    for _ in 0..n {
        let p = g.below(nodes.len());
        let edge: Bytes = loop {
            let e: Bytes = g.name(limit).into_iter().filter(|c| *c != 0).collect();
            break if e.is_empty() { b"_".to_vec() } else { e };
        };
        if nodes[p].kids.iter().any(|k| k.0[0] == edge[0]) {
            continue;
        }
        let id = nodes.len();
        let mut full = prefix[p].clone();
        full.extend_from_slice(&edge);
        prefix.push(full);
        nodes.push(Node::default());
        nodes[p].kids.push((edge, id));
    }
    for (i, x) in nodes.iter_mut().enumerate() {
        let leaf = x.kids.is_empty() && i > 0;
        if leaf || g.chance(1, 3) {
            let kind = g.pickc(&[0u64, 0, 0, 1, 2]);
            let weak = if g.chance(1, 4) { 4 } else { 0 };
            let stat = if g.chance(1, 6) { 0x20 } else { 0 };
            let addr = if g.chance(1, 5) { g.u64() } else { g.upto(0xffff_ffff) };
            x.term = Some(match g.below(5) {
                0 => {
                    let n = if g.bool() { vec![] } else { g.name(10).into_iter().filter(|c| *c != 0).collect() };
                    let o = match libs {
                        Some(l) => g.range64(1, l.max(1)),
                        None => uleb(g),
                    };
                    (8 | weak | kind, Ex::Re(o, n))
                }
                1 => (0x10 | weak | if libs.is_some() { 0 } else { kind }, Ex::Stub(addr, uleb(g))),
                _ => (kind | weak | stat, Ex::Reg(addr)),
            });
        }
    }
    // Node order in the data; root first.
    let mut order: Vec<usize> = (1..nodes.len()).collect();
    if g.bool() {
        for i in (1..order.len()).rev() {
            let j = g.below(i + 1);
            order.swap(i, j);
        }
    }
    order.insert(0, 0);
    let mut gaps = vec![0; nodes.len()];
    if g.chance(1, 4) {
        for x in gaps.iter_mut() {
            *x = g.below(3);
        }
    }
    let long = g.chance(1, 8);
    let mut offs = vec![0usize; nodes.len()];
    let bytes = loop {
        let mut b = B::new(false, true);
        let mut new = vec![0; nodes.len()];
        for &i in &order {
            new[i] = b.len();
            match &nodes[i].term {
                Some((f, e)) => {
                    let t = ex_bytes(*f, e);
                    b.uleb(t.len() as u64).bytes(&t);
                }
                None => {
                    b.u8(0);
                }
            }
            b.u8(nodes[i].kids.len() as u8);
            for (e, k) in &nodes[i].kids {
                b.cstr(e);
                if long {
                    let o = offs[*k] as u64;
                    b.u8(o as u8 & 0x7f | 0x80).u8((o >> 7) as u8 & 0x7f | 0x80).u8((o >> 14) as u8 & 0x7f);
                } else {
                    b.uleb(offs[*k] as u64);
                }
            }
            b.zeros(gaps[i]);
        }
        if new == offs {
            break b.v;
        }
        offs = new;
    };
    let mut want = vec![];
    fn walk(nodes: &[Node], i: usize, name: &mut Bytes, want: &mut Vec<(Bytes, u64, Ex)>) {
        if let Some((f, e)) = &nodes[i].term {
            want.push((name.clone(), *f, e.clone()));
        }
        for (e, k) in &nodes[i].kids {
            let n = name.len();
            name.extend_from_slice(e);
            walk(nodes, *k, name, want);
            name.truncate(n);
        }
    }
    walk(&nodes, 0, &mut vec![], &mut want);
    Trie { bytes, want, offs }
}

fn ex(s: &ExportSymbol) -> (Bytes, u64, Ex) {
    let e = match s.data() {
        ExportData::Regular { address } => Ex::Reg(*address),
        ExportData::Reexport { dylib_ordinal, import_name } => Ex::Re(*dylib_ordinal, import_name.to_vec()),
        ExportData::StubAndResolver { stub_address, resolver_address } => Ex::Stub(*stub_address, *resolver_address),
    };
    (s.name().to_vec(), s.flags().0, e)
}

fn linkedit(be: bool, cmd: u32, off: u32, size: u32) -> Bytes {
    let mut b = B::new(be, true);
    b.u32(cmd).u32(16).u32(off).u32(size);
    b.v
}

pub fn trie(g: &mut Gen) -> R {
    let be = g.bool();
    let e = en(be);
    let n = if g.chance(1, 20) { 120 } else { 16 };
    let t = gen_trie(g, n, None);
    g.nontrivial_if(t.want.len() > 2);
    g.sample(|| format!("trie of {} nodes: {:?}", t.offs.len(), t.want.iter().take(4).map(|x| String::from_utf8_lossy(&x.0).into_owned()).collect::<Vec<_>>()));
    g.files(&[&[be as u8], &t.bytes])?;
    let (cmd, data) = place(g, be, 4, &t.bytes);
    let (c, _) = must!(pod::from_bytes::<m::DyldInfoCommand<Endianness>>(&cmd), "command");
    let mut it = must!(c.exports_trie(e, &data[..]), "exports");
    let (got, err) = drain(t.want.len() + 1, || it.next().transpose())?;
    ensure_eq!(got.iter().map(ex).collect::<Vec<_>>(), t.want, "exports");
    ensure!(!err, "exports error");
    let cmd = linkedit(be, 0x8000_0033, 0, t.bytes.len() as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&cmd), "command");
    let mut it = must!(c.exports_trie(e, &t.bytes[..]), "exports");
    let (got, err) = drain(t.want.len() + 1, || it.next().transpose())?;
    ensure!(got.iter().map(ex).eq(t.want.iter().cloned()) && !err, "exports from the linkedit command differ");
    let other = linkedit(be, g.pickc(&[0x1d, 0x1e, 0x26, 0x29, 0x8000_0034]), 0, t.bytes.len() as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&other), "command");
    ensure!(c.exports_trie(e, &t.bytes[..]).is_err(), "exports trie of another command");
    // Truncated: a prefix of the exports, then an error, and the iteration ends.
    let k = g.below(t.bytes.len());
    let cmd = linkedit(be, 0x8000_0033, 0, k as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&cmd), "command");
    let mut it = must!(c.exports_trie(e, &t.bytes[..]), "exports");
    let mut n = 0;
    let mut bad = false;
    for i in 0.. {
        ensure!(i < 4 * t.bytes.len() + 16, "iteration of a truncated trie does not end");
        match it.next() {
            Ok(None) => break,
            Ok(Some(x)) => {
                if !bad {
                    ensure!(n < t.want.len() && ex(&x) == t.want[n], "export {n} of a truncated trie");
                    n += 1;
                }
            }
            Err(_) => bad = true,
        }
    }
    ensure!(bad || n == t.want.len(), "truncated trie without an error");
    Ok(())
}

fn trie_bad(g: &mut Gen) -> R {
    let e = Endianness::Little;
    let run = |v: &[u8]| -> R<(Vec<(Bytes, u64, Ex)>, bool)> {
        let cmd = linkedit(false, 0x8000_0033, 0, v.len() as u32);
        let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&cmd), "command");
        let mut it = must!(c.exports_trie(e, v), "exports");
        let (mut out, mut bad) = (vec![], false);
        for i in 0.. {
            ensure!(i < 4 * v.len() + 600, "iteration does not end");
            match it.next() {
                Ok(None) => break,
                Ok(Some(x)) => out.push(ex(&x)),
                Err(_) => bad = true,
            }
        }
        Ok((out, bad))
    };
    let mut b = B::new(false, true);
    g.nontrivial();
    match g.below(4) {
        0 => {
            // A chain of nodes whose last one refers back to one of them.
            let n = g.range(1, 5);
            let back = g.below(n);
            for i in 0..n {
                let to = if i + 1 < n { (i + 1) * 5 } else { back * 5 };
                b.u8(0).u8(1).cstr(b"a").u8(to as u8);
            }
            let (got, bad) = run(&b.v)?;
            ensure!(got.is_empty() && bad, "cycle accepted");
        }
        1 => {
            let f = g.range64(0x40, 0xffff) & !0x3f | g.upto(0x3f);
            let t = ex_bytes(f, &Ex::Reg(1));
            b.uleb(t.len() as u64).bytes(&t).u8(0);
            let (got, bad) = run(&b.v)?;
            ensure!(got.is_empty() && bad, "unknown export flags {f:#x} accepted");
        }
        2 => {
            // Child outside the data.
            b.u8(0).u8(1).cstr(b"a").uleb(if g.bool() { 100 } else { g.range64(100, !0) });
            let (got, bad) = run(&b.v)?;
            ensure!(got.is_empty() && bad, "child outside the data accepted");
        }
        _ => {
            // Terminal data that is too short for its contents.
            let x = match g.below(3) {
                0 => (0, Ex::Reg(0x1234)),
                1 => (8, Ex::Re(1, b"ab".to_vec())),
                _ => (0x10, Ex::Stub(0x100, 0x200)),
            };
            let t = ex_bytes(x.0, &x.1);
            let k = g.range(1, t.len() - 1);
            b.uleb(k as u64).bytes(&t[..k]).u8(0).zeros(4);
            // The bytes after the terminal area must not be used.
            let (got, bad) = run(&b.v)?;
            ensure!(got.is_empty() && bad, "short terminal data accepted: {got:?}");
        }
    }
    Ok(())
}

pub fn starts(g: &mut Gen) -> R {
    let be = g.bool();
    let e = en(be);
    let base = if g.chance(1, 6) { !0 - g.upto(1000) } else { g.uint(48) };
    let mut b = B::new(be, true);
    let (mut want, mut failed) = (vec![], false);
    let mut a = base;
    for _ in 0..g.len(12) {
        let d = if g.chance(1, 10) { g.u64().max(1) } else { 1 + g.upto(500) };
        b.uleb(d);
        match a.checked_add(d) {
            Some(x) => a = x,
            None => {
                failed = true;
                break;
            }
        }
        want.push(a);
    }
    if !failed {
        match g.below(3) {
            0 => {
                b.u8(0);
                let n = g.len(6);
                b.bytes(&g.bytes(n));
            }
            1 => {
                b.u8(0x80);
                failed = true;
            }
            _ => {}
        }
    }
    g.nontrivial_if(want.len() > 2);
    let off = g.len(10);
    let mut data = g.bytes(off);
    g.files(&[&[be as u8], &b.v])?;
    data.extend_from_slice(&b.v);
    let cmd = linkedit(be, 0x26, off as u32, b.len() as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&cmd), "command");
    let mut it = must!(c.function_starts(e, &data[..], base), "function starts");
    let (got, err) = drain(want.len() + 1, || it.next().transpose())?;
    ensure_eq!(got, want, "function starts from {base:#x}");
    ensure_eq!(err, failed, "function starts error");
    let other = linkedit(be, g.pickc(&[0x1d, 0x1e, 0x8000_0033, 0x8000_0034]), off as u32, b.len() as u32);
    let (c, _) = must!(pod::from_bytes::<m::LinkeditDataCommand<Endianness>>(&other), "command");
    ensure!(c.function_starts(e, &data[..], base).is_err(), "function starts of another command");
    Ok(())
}

/// Whole files: the unified imports and exports.
pub fn files(g: &mut Gen) -> R {
    let mut mo = gen_header(g);
    mo.filetype = g.pickc(&[2, 6, 8]);
    gen_segments(g, &mut mo, false);
    let mut libs: Vec<(u32, Bytes, u32, u32)> = vec![];
    let nlib = g.len(4);
    // The special first byte of an index of libraries is ordinal 0.
    gen_syms(g, &mut mo, 6);
    for y in &mut mo.syms {
        // Undefined symbols with valid library ordinals.
        if y.ty & 0xe == 0 && y.ty & 0xe0 == 0 && g.chance(4, 5) {
            let o = if g.chance(1, 4) { g.pickc(&[0, 0xfd, 0xfe, 0xff]) } else { g.upto(nlib as u64) as u16 };
            y.desc = y.desc & 0xff | o << 8;
        }
    }
    let mut libcmd = vec![];
    for _ in 0..nlib {
        let c = *g.pick(&DYLIBS);
        let name: Bytes = g.name(14).into_iter().filter(|c| *c != 0).collect();
        let (cv, kv) = (g.u32(), g.u32());
        libcmd.push(Lc::Raw(c, mo.str_cmd(&[g.u32() & 0xffff, cv, kv], &name), vec![]));
        libs.push((c, name, cv, kv));
    }
    let ps = if mo.is64 { 8 } else { 4 };
    let l = nlib as u64;
    let use_info = g.bool();
    let use_chain = g.chance(1, 3);
    let use_trie = g.chance(1, 3);
    let use_starts = g.bool();
    let streams: Vec<BindStream> = (0..3).map(|i| if g.chance(1, 4) { gen_binds(g, ps, i, false, 0) } else { gen_binds(g, ps, i, false, l) }).collect();
    let t1 = gen_trie(g, 8, Some(l));
    let t2 = gen_trie(g, 8, Some(l));
    let ch = gen_chained(g, mo.be, 0, Some(l));
    let mut cmds: Vec<Lc> = vec![];
    if use_info {
        let mut body = B::new(mo.be, mo.is64);
        let mut fix = vec![];
        let b0 = mo.blobs.len();
        body.u32(0).u32(0);
        for (i, s) in streams.iter().enumerate() {
            fix.push((body.len(), b0 + i));
            body.u32(0).u32(s.bytes.len() as u32);
            mo.blobs.push(s.bytes.clone());
        }
        fix.push((body.len(), b0 + 3));
        body.u32(0).u32(t1.bytes.len() as u32);
        mo.blobs.push(t1.bytes.clone());
        cmds.push(Lc::Raw(if g.bool() { 0x22 } else { 0x8000_0022 }, body.v, fix));
    }
    if use_chain {
        let mut body = B::new(mo.be, mo.is64);
        body.u32(0).u32(ch.blob.len() as u32);
        cmds.push(Lc::Raw(0x8000_0034, body.v, vec![(0, mo.blobs.len())]));
        mo.blobs.push(ch.blob.clone());
    }
    if use_trie {
        let mut body = B::new(mo.be, mo.is64);
        body.u32(0).u32(t2.bytes.len() as u32);
        cmds.push(Lc::Raw(0x8000_0033, body.v, vec![(0, mo.blobs.len())]));
        mo.blobs.push(t2.bytes.clone());
    }
    if use_starts {
        let mut body = B::new(mo.be, mo.is64);
        body.u32(0).u32(3);
        cmds.push(Lc::Raw(0x26, body.v, vec![(0, mo.blobs.len())]));
        mo.blobs.push(vec![4, 5, 6]);
    }
    // Mix the commands, keeping the order of the libraries.
    for c in libcmd {
        cmds.push(c);
    }
    let old = std::mem::take(&mut mo.cmds);
    let mut queues = [old.into_iter().collect::<std::collections::VecDeque<_>>(), cmds.into_iter().collect()];
    while queues.iter().any(|q| !q.is_empty()) {
        let i = g.below(2);
        let i = if queues[i].is_empty() { 1 - i } else { i };
        mo.cmds.extend(queues[i].pop_front());
    }
    let v = mo.encode(g);
    g.file(&v)?;
    g.nontrivial_if(use_info || use_chain || use_trie);
    g.label_if(use_info, "info");
    g.label_if(use_chain, "chained");
    g.label_if(use_trie, "trie");
    g.sample(|| format!("file with info {use_info} chained {use_chain} trie {use_trie}, {nlib} libraries, {} symbols", mo.syms.len()));

    // Expected imports: (library, name, weak); None is an error.
    type WImp = Option<(Bytes, Bytes, bool, (i64, u32))>;
    let lib = |d: i32| -> Option<Bytes> {
        if d <= 0 { Some(vec![]) } else { libs.get(d as usize - 1).map(|l| l.1.clone()) }
    };
    let mut want: Vec<WImp> = vec![];
    g.label_if(use_info && !use_chain && streams.iter().any(|s| s.imports.iter().any(|i| i.1 == NO_LIB)), "bind without a library");
    if use_chain {
        for (d, w, _, n) in &ch.imports {
            if *d != 0 {
                want.push(lib(*d).map(|l| (l, n.clone(), *w, (*d as i64, *w as u32))));
            }
        }
    } else if use_info {
        for s in &streams {
            for (n, d, f) in &s.imports {
                want.push(lib(*d).map(|l| (l, n.clone(), f & 1 != 0, (*d as i64, *f as u32))));
            }
        }
    } else {
        for y in &mo.syms {
            if y.ty & 0xee != 0 || y.value != 0 {
                continue;
            }
            let name = want_name(&mo, y);
            let ord = y.desc >> 8;
            let l = if mo.flags & 0x80 == 0 || ord == 0 || ord >= 0xfe { Some(vec![]) } else { libs.get(ord as usize - 1).map(|l| l.1.clone()) };
            want.push(match (l, name) {
                (Some(l), Some(n)) => Some((l, n, y.desc & 0x40 != 0, (-100 - y.ty as i64, y.desc as u32))),
                _ => None,
            });
        }
    }
    // Expected exports.
    type WExp = Option<(Bytes, String, bool)>;
    let text = mo.segs_in_order().iter().find(|s| s.name == b"__TEXT").map_or(0, |s| s.vmaddr);
    let show = |t: ExportTarget| -> String {
        match t {
            ExportTarget::Address { address } => format!("address {address:#x}"),
            ExportTarget::Absolute { value } => format!("absolute {value:#x}"),
            ExportTarget::TlvDescriptor { address } => format!("tlv {address:#x}"),
            ExportTarget::Resolver { resolver, stub } => format!("resolver {resolver:#x} {stub:x?}"),
            ExportTarget::Reexport { library, name: NameOrOrdinal::Name(n) } => format!("reexport {library:?} {n:?}"),
            _ => "other".into(),
        }
    };
    let mut wexp: Vec<WExp> = vec![];
    if use_trie || use_info {
        for (n, f, x) in if use_trie { &t2.want } else { &t1.want } {
            let s = match x {
                Ex::Reg(a) => match f & 3 {
                    0 => format!("address {:#x}", text.wrapping_add(*a)),
                    1 => format!("tlv {:#x}", text.wrapping_add(*a)),
                    _ => format!("absolute {a:#x}"),
                },
                Ex::Stub(a, r) => format!("resolver {:#x} {:x?}", text.wrapping_add(*r), Some(text.wrapping_add(*a))),
                Ex::Re(o, t) => match libs.get(*o as usize - 1) {
                    Some(l) => format!("reexport {:?} {:?}", l.1, if t.is_empty() { n } else { t }),
                    None => {
                        wexp.push(None);
                        continue;
                    }
                },
            };
            wexp.push(Some((n.clone(), s, f & 4 != 0)));
        }
    } else {
        let sects = mo.sects();
        for y in &mo.syms {
            if y.ty & 0xe0 != 0 || y.ty & 0x11 != 1 {
                continue;
            }
            let t = match y.ty & 0xe {
                2 => Some(format!("absolute {:#x}", y.value)),
                0xa => u32::try_from(y.value).ok().and_then(|o| cstr_at(&mo.strtab, o as usize)).map(|n| (n.to_vec(), format!("reexport {:?} {:?}", b"" as &[u8], n))).map(|(n, s)| {
                    // An empty name means the name of the export itself.
                    if n.is_empty() { format!("reexport {:?} {:?}", b"" as &[u8], want_name(&mo, y).unwrap_or_default()) } else { s }
                }),
                0xe => {
                    if y.desc & 0x100 != 0 {
                        Some(format!("resolver {:#x} None", y.value))
                    } else if y.sect == 0 {
                        None
                    } else {
                        sects.get(y.sect as usize - 1).map(|s| if s.flags & 0xff == 0x13 { format!("tlv {:#x}", y.value) } else { format!("address {:#x}", y.value) })
                    }
                }
                _ => continue,
            };
            wexp.push(match (t, want_name(&mo, y)) {
                (Some(t), Some(n)) => Some((n, t, y.desc & 0x80 != 0)),
                _ => None,
            });
        }
    }
    macro_rules! go { ($t:ty) => {{
        let f = must!(MachOFile::<$t>::parse(&v[..]), "parse");
        let e = f.endian();
        let mut it = must!(f.import_libraries(), "libraries");
        for (i, w) in libs.iter().enumerate() {
            let x = must!(must_some!(it.next(), "library"), "library");
            ensure_eq!(x.name(), &w.1[..], "library {i}");
            let ImportLibraryFlags::MachO { ordinal, cmd, current_version, compatibility_version, .. } = x.flags() else { fail!("library flags") };
            ensure_eq!((ordinal, cmd.0, current_version.0, compatibility_version.0), (i as u32 + 1, w.0, w.2, w.3), "library {i} flags");
        }
        ensure!(it.next().is_none(), "extra library");
        let mut it = must!(f.imports(), "imports");
        for (i, w) in want.iter().enumerate() {
            let x = must_some!(it.next(), "import {i}");
            let Some(w) = w else {
                ensure!(x.is_err(), "import {i} should be an error, got {x:?}");
                continue;
            };
            let x = must!(x, "import {i}, expected {w:?}");
            let NameOrOrdinal::Name(n) = x.name() else { fail!("import without a name") };
            let fl = match x.flags() {
                ImportFlags::MachO { n_type, n_desc } => (-100 - n_type.0 as i64, n_desc.0 as u32),
                ImportFlags::MachOBind { dylib, flags } => (dylib.0 as i64, flags.0 as u32),
                _ => fail!("import flags"),
            };
            ensure_eq!((x.library().to_vec(), n.to_vec(), x.is_weak(), fl), *w, "import {i}");
        }
        ensure!(it.next().is_none(), "extra import");
        let mut it = must!(f.exports(), "exports");
        for (i, w) in wexp.iter().enumerate() {
            let x = must_some!(it.next(), "export {i}");
            let Some(w) = w else {
                ensure!(x.is_err(), "export {i} should be an error, got {x:?}");
                continue;
            };
            let x = must!(x, "export {i}, expected {w:?}");
            let NameOrOrdinal::Name(n) = x.name() else { fail!("export without a name") };
            ensure_eq!((n.to_vec(), show(x.target()), x.is_weak()), *w, "export {i}");
            let n = n.to_vec();
            ensure_eq!(x.into_name().into_name().map(|n| n.to_vec()), Some(n), "into_name of export {i}");
        }
        ensure!(it.next().is_none(), "extra export");
        // The tables reached through the load commands.
        let mut cmds = must!(f.macho_load_commands(), "commands");
        while let Some(c) = must!(cmds.next(), "command") {
            if let Some(c) = must!(c.dyld_info(), "dyld info") {
                for (k, s) in streams.iter().enumerate() {
                    let it = match k {
                        0 => c.binds(e, &v[..], ps as u8),
                        1 => c.weak_binds(e, &v[..], ps as u8),
                        _ => c.lazy_binds(e, &v[..], ps as u8),
                    };
                    let n = must!(it, "binds").filter(|x| x.is_ok()).count();
                    ensure_eq!(n, s.want.len(), "binds {k}");
                }
            }
            if c.cmd().0 == 0x26 {
                let c: &m::LinkeditDataCommand<Endianness> = must!(c.data(), "function starts command");
                let a = must!(c.function_starts(e, &v[..], text), "function starts").collect::<object::read::Result<Vec<u64>>>();
                let want: Option<Vec<u64>> = [4u64, 9, 15].iter().map(|d| text.checked_add(*d)).collect();
                ensure_eq!(a.ok(), want, "function starts");
            }
        }
    }} }
    if mo.is64 { go!(m::MachHeader64<Endianness>) } else { go!(m::MachHeader32<Endianness>) }
    let f = must!(File::parse(&v[..]), "generic parse");
    ensure_eq!(must!(f.imports(), "imports").count(), want.len(), "imports of the generic file");
    ensure_eq!(must!(f.exports(), "exports").count(), wexp.len(), "exports of the generic file");
    Ok(())
}

fn want_name(mo: &Mo, y: &Nl) -> Option<Bytes> {
    if y.strx == 0 { Some(vec![]) } else { cstr_at(&mo.strtab, y.strx as usize).map(|s| s.to_vec()) }
}

fn main() {
    run(
        "C13",
        "more than two fixups, exports or starts, a whole file with at least one dynamic-linker table, or a damaged table",
        &[
            "opcode, pointer, import and trie layouts follow mach-o/loader.h, mach-o/fixup-chains.h and dyld",
            "values of 32-bit chains above max_valid_pointer are not generated, the reader does not model them",
            "tries in which two edges share a child are not generated",
        ],
        &[
            sub("rebases", 100_000, 10_000_000, rebases),
            sub("binds", 100_000, 10_000_000, binds),
            sub("chained", 60_000, 6_000_000, chained),
            sub("chained_bad", 40_000, 2_000_000, chained_bad),
            sub("trie", 60_000, 6_000_000, trie),
            sub("trie_bad", 40_000, 1_000_000, trie_bad),
            sub("starts", 60_000, 4_000_000, starts),
            sub("files", 60_000, 8_000_000, files),
        ],
    )
}
