//! Independent WebAssembly encoder and generator.
use crate::b::*;
use crate::engine::*;

#[derive(Clone, Debug, PartialEq)]
pub struct WImport {
    pub module: String,
    pub name: String,
    /// 0 function, 1 table, 2 memory, 3 global, 4 tag
    pub kind: u8,
    pub mem64: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Init {
    I32(i32),
    I64(i64),
    Other,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WGlobal {
    pub mutable: bool,
    pub init: Init,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WExport {
    pub name: String,
    pub kind: u8,
    pub index: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LinkSym {
    /// 0 function, 1 data, 2 global, 3 section, 4 event, 5 table
    pub kind: u8,
    pub flags: u32,
    pub index: u32,
    pub name: Option<String>,
    pub offset: u32,
    pub size: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WReloc {
    pub ty: u8,
    pub offset: u32,
    pub index: u32,
    pub addend: i64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct WSection {
    pub id: u8,
    pub name: String,
    /// The contents, without the name.
    pub start: usize,
    pub end: usize,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Wasm {
    pub imports: Option<Vec<WImport>>,
    pub nfuncs: usize,
    pub globals: Vec<WGlobal>,
    pub exports: Option<Vec<WExport>>,
    pub start: Option<u32>,
    /// Offset in the code section and size of each body.
    pub bodies: Vec<(u64, u64)>,
    pub mem64: bool,
    pub names: Option<Vec<(u32, String)>>,
    pub linking: Option<Vec<LinkSym>>,
    /// Target section and entries.
    pub relocs: Vec<(u32, Vec<WReloc>)>,
    pub secs: Vec<WSection>,
}
pub const UNDEFINED: u32 = 0x10;
pub const EXPLICIT: u32 = 0x40;

/// LEB128, sometimes padded to the full length as linkers want it.
fn leb(g: &mut Gen, b: &mut B, x: u64) {
    b.uleb(x);
    if g.chance(1, 6) && x < 1 << 28 {
        let n = b.v.iter().rev().skip(1).take_while(|&&c| c & 0x80 != 0).count().min(4);
        let n = x.checked_ilog2().map_or(1, |l| l as usize / 7 + 1).max(1).max(n.min(1));
        let k = g.range(n, 5);
        let l = b.v.len();
        if k > n {
            b.v[l - 1] |= 0x80;
            for _ in n..k - 1 {
                b.v.push(0x80);
            }
            b.v.push(0);
        }
    }
}
fn string(g: &mut Gen, b: &mut B, s: &str) {
    leb(g, b, s.len() as u64);
    b.bytes(s.as_bytes());
}
fn limits(g: &mut Gen, b: &mut B, m64: bool) {
    let max = g.bool();
    b.u8(if m64 { 4 } else { 0 } | max as u8);
    let n = g.upto(300);
    leb(g, b, n);
    if max {
        leb(g, b, n + 5);
    }
}
fn text(g: &mut Gen) -> String {
    match g.upto(3) {
        0 => g.pickc(&["env", "memory", "main", "f", "", "__heap_base", "x", "foo"]).to_string(),
        1 => format!("né{}", g.upto(99)),
        _ => g.ident(12),
    }
}
fn konst(b: &mut B) {
    b.u8(0x41).sleb(0).u8(0x0b);
}

impl Wasm {
    fn put(&mut self, g: &mut Gen, v: &mut B, id: u8, name: &str, data: &[u8]) {
        let mut pre = B::new(false, false);
        if id == 0 {
            string(g, &mut pre, name);
        }
        v.u8(id);
        leb(g, v, (pre.len() + data.len()) as u64);
        v.bytes(&pre.v);
        let start = v.len();
        v.bytes(data);
        self.secs.push(WSection { id, name: name.to_string(), start, end: v.len(), data: data.to_vec() });
    }
    pub fn nimports(&self, kind: u8) -> usize {
        self.imports.iter().flatten().filter(|i| i.kind == kind).count()
    }
}

fn custom(g: &mut Gen, w: &mut Wasm, v: &mut B) {
    for _ in 0..if g.chance(1, 5) { g.range(1, 2) } else { 0 } {
        let name = match g.upto(3) {
            0 => format!(".debug_{}", g.pickc(&["info", "line", "", "str"])),
            1 => g.pickc(&["producers", "target_features", "dylink.0", ".debug", "x.debug_info", "relocs", ""]).to_string(),
            _ => text(g),
        };
        if name == "name" || name == "linking" || name.starts_with("reloc.") {
            continue;
        }
        let d = g.blob(30);
        w.put(g, v, 0, &name, &d);
    }
}

pub fn generate(g: &mut Gen) -> (Wasm, Vec<u8>) {
    let mut w = Wasm::default();
    let mut v = B::new(false, false);
    v.bytes(b"\0asm\x01\0\0\0");
    let object = g.bool();
    custom(g, &mut w, &mut v);
    let ntypes = g.range(1, 3);
    let mut b = B::new(false, false);
    leb(g, &mut b, ntypes as u64);
    for _ in 0..ntypes {
        b.u8(0x60);
        let (p, r) = (g.upto(3), g.upto(1));
        leb(g, &mut b, p);
        for _ in 0..p {
            b.u8(g.pickc(&[0x7f, 0x7e, 0x7d, 0x7c]));
        }
        leb(g, &mut b, r);
        for _ in 0..r {
            b.u8(0x7f);
        }
    }
    w.put(g, &mut v, 1, "", &b.v);
    custom(g, &mut w, &mut v);
    if g.chance(2, 3) {
        let mut l = vec![];
        let mut b = B::new(false, false);
        let n = g.len(6);
        leb(g, &mut b, n as u64);
        let mut module = text(g);
        for _ in 0..n {
            if g.bool() {
                module = text(g);
            }
            let i = WImport { module: module.clone(), name: text(g), kind: g.pickc(&[0u8, 0, 1, 2, 3, 3, 4]), mem64: g.chance(1, 3) };
            string(g, &mut b, &i.module);
            string(g, &mut b, &i.name);
            b.u8(i.kind);
            match i.kind {
                0 => {
                    let t = g.below(ntypes);
                    leb(g, &mut b, t as u64);
                }
                1 => {
                    b.u8(0x70);
                    limits(g, &mut b, false);
                }
                2 => {
                    limits(g, &mut b, i.mem64);
                    w.mem64 |= i.mem64;
                }
                3 => {
                    b.u8(0x7f).u8(g.bool() as u8);
                }
                _ => {
                    b.u8(0);
                    let t = g.below(ntypes);
                    leb(g, &mut b, t as u64);
                }
            }
            l.push(i);
        }
        w.imports = Some(l);
        w.put(g, &mut v, 2, "", &b.v);
        custom(g, &mut w, &mut v);
    }
    w.nfuncs = if g.chance(3, 4) { g.len(5) } else { 0 };
    if w.nfuncs > 0 || g.chance(1, 5) {
        let mut b = B::new(false, false);
        leb(g, &mut b, w.nfuncs as u64);
        for _ in 0..w.nfuncs {
            let t = g.below(ntypes);
            leb(g, &mut b, t as u64);
        }
        w.put(g, &mut v, 3, "", &b.v);
    }
    let ntables = if g.chance(1, 3) { g.range(1, 3) } else { 0 };
    if ntables > 0 {
        let mut b = B::new(false, false);
        leb(g, &mut b, ntables as u64);
        for _ in 0..ntables {
            b.u8(g.pickc(&[0x70u8, 0x6f]));
            limits(g, &mut b, false);
        }
        w.put(g, &mut v, 4, "", &b.v);
    }
    custom(g, &mut w, &mut v);
    let nmems = if g.chance(1, 2) { g.range(1, 3) } else { 0 };
    if nmems > 0 {
        let mut b = B::new(false, false);
        leb(g, &mut b, nmems as u64);
        for _ in 0..nmems {
            let m = g.chance(1, 4);
            w.mem64 |= m;
            limits(g, &mut b, m);
        }
        w.put(g, &mut v, 5, "", &b.v);
    }
    let ntags = if g.chance(1, 5) { g.range(1, 2) } else { 0 };
    if ntags > 0 {
        let mut b = B::new(false, false);
        leb(g, &mut b, ntags as u64);
        for _ in 0..ntags {
            b.u8(0).u8(0);
        }
        w.put(g, &mut v, 13, "", &b.v);
    }
    if g.chance(1, 2) {
        let n = g.len(4);
        let mut b = B::new(false, false);
        leb(g, &mut b, n as u64);
        for _ in 0..n {
            let x = WGlobal {
                mutable: g.chance(1, 4),
                init: match g.upto(3) {
                    0 => Init::Other,
                    1 => Init::I64(g.i64()),
                    _ => Init::I32(g.u32() as i32),
                },
            };
            b.u8(match x.init {
                Init::I32(_) => 0x7f,
                Init::I64(_) => 0x7e,
                Init::Other => 0x7c,
            });
            b.u8(x.mutable as u8);
            match x.init {
                Init::I32(x) => b.u8(0x41).sleb(x as i64),
                Init::I64(x) => b.u8(0x42).sleb(x),
                Init::Other => b.u8(0x44).u64(7),
            };
            b.u8(0x0b);
            w.globals.push(x);
        }
        w.put(g, &mut v, 6, "", &b.v);
        custom(g, &mut w, &mut v);
    }
    let count = |w: &Wasm, k: u8| {
        w.nimports(k)
            + match k {
                0 => w.nfuncs,
                1 => ntables,
                2 => nmems,
                3 => w.globals.len(),
                _ => ntags,
            }
    };
    if g.chance(1, 2) {
        let n = g.len(5);
        let mut l = vec![];
        for _ in 0..n {
            let kind = g.pickc(&[0u8, 0, 3, 3, 1, 2, 4]);
            let c = count(&w, kind);
            if c > 0 {
                l.push(WExport { name: text(g), kind, index: g.below(c) as u32 });
            }
        }
        let mut b = B::new(false, false);
        leb(g, &mut b, l.len() as u64);
        for e in &l {
            string(g, &mut b, &e.name);
            b.u8(e.kind);
            leb(g, &mut b, e.index as u64);
        }
        w.exports = Some(l);
        w.put(g, &mut v, 7, "", &b.v);
    }
    if g.chance(1, 2) && count(&w, 0) > 0 {
        let f = g.below(count(&w, 0)) as u32;
        let mut b = B::new(false, false);
        leb(g, &mut b, f as u64);
        w.start = Some(f);
        w.put(g, &mut v, 8, "", &b.v);
    }
    if ntables > 0 && w.nfuncs > 0 && g.bool() {
        let mut b = B::new(false, false);
        b.u8(1).u8(0);
        konst(&mut b);
        b.u8(1).u8(0);
        w.put(g, &mut v, 9, "", &b.v);
    }
    custom(g, &mut w, &mut v);
    let ndata = if nmems > 0 { g.len(3) } else { 0 };
    if g.chance(1, 3) {
        let mut b = B::new(false, false);
        leb(g, &mut b, ndata as u64);
        w.put(g, &mut v, 12, "", &b.v);
    }
    if w.nfuncs > 0 {
        let mut b = B::new(false, false);
        leb(g, &mut b, w.nfuncs as u64);
        for _ in 0..w.nfuncs {
            let mut body = B::new(false, false);
            body.u8(0);
            let n = g.upto(12);
            for _ in 0..n {
                body.u8(0x01);
            }
            if g.chance(1, 8) {
                // A body whose size takes two bytes.
                for _ in 0..150 {
                    body.u8(0x01);
                }
            }
            body.u8(0x0b);
            leb(g, &mut b, body.len() as u64);
            w.bodies.push((b.len() as u64, body.len() as u64));
            b.bytes(&body.v);
        }
        w.put(g, &mut v, 10, "", &b.v);
    }
    custom(g, &mut w, &mut v);
    if ndata > 0 {
        let mut b = B::new(false, false);
        leb(g, &mut b, ndata as u64);
        for _ in 0..ndata {
            if g.chance(1, 3) {
                b.u8(1);
            } else {
                b.u8(0);
                konst(&mut b);
            }
            let d = g.blob(20);
            leb(g, &mut b, d.len() as u64);
            b.bytes(&d);
        }
        w.put(g, &mut v, 11, "", &b.v);
    }
    custom(g, &mut w, &mut v);
    if object && g.chance(3, 4) {
        let n = g.len(8);
        let mut l = vec![];
        for _ in 0..n {
            let kind = g.upto(5) as u8;
            let ik = [0u8, 9, 3, 9, 4, 1][kind as usize];
            let (imp, all) = if ik == 9 { (1, 2) } else { (w.nimports(ik), count(&w, ik)) };
            let undef = g.bool();
            let (lo, hi) = if undef { (0, imp) } else { (imp, all) };
            if lo == hi {
                continue;
            }
            let index = g.range(lo, hi - 1) as u32;
            let mut s = LinkSym { kind, flags: 0, index, name: None, offset: 0, size: 0 };
            s.flags = g.pickc(&[0u32, 1, 2]) | g.pickc(&[0, 4]) | g.pickc(&[0, 0x20, 0x80]) | if g.chance(1, 8) { 0x100 } else { 0 };
            if undef && kind != 3 {
                s.flags |= UNDEFINED;
            }
            if g.chance(1, 4) {
                s.flags |= EXPLICIT;
            }
            if kind == 1 {
                s.name = Some(text(g));
                if !undef {
                    if g.chance(1, 6) {
                        s.flags |= 0x200;
                    }
                    s.offset = g.uint(32) as u32;
                    s.size = g.uint(32) as u32;
                    s.index = g.upto(3) as u32;
                }
            } else if kind != 3 && (!undef || s.flags & EXPLICIT != 0) {
                s.name = Some(text(g));
            }
            l.push(s);
        }
        let mut b = B::new(false, false);
        leb(g, &mut b, 2);
        let mut sub = |g: &mut Gen, id: u8, d: &B| {
            b.u8(id);
            leb(g, &mut b, d.len() as u64);
            b.bytes(&d.v);
        };
        if g.chance(1, 3) {
            // Segment information.
            let mut d = B::new(false, false);
            d.u8(1);
            string(g, &mut d, ".rodata");
            d.u8(2).u8(0);
            sub(g, 5, &d);
        }
        let mut d = B::new(false, false);
        leb(g, &mut d, l.len() as u64);
        for s in &l {
            d.u8(s.kind);
            leb(g, &mut d, s.flags as u64);
            match s.kind {
                1 => {
                    string(g, &mut d, s.name.as_ref().unwrap());
                    if s.flags & UNDEFINED == 0 {
                        leb(g, &mut d, s.index as u64);
                        leb(g, &mut d, s.offset as u64);
                        leb(g, &mut d, s.size as u64);
                    }
                }
                _ => {
                    leb(g, &mut d, s.index as u64);
                    if let Some(n) = &s.name {
                        string(g, &mut d, n);
                    }
                }
            }
        }
        sub(g, 8, &d);
        if g.chance(1, 3) {
            // COMDATs.
            let mut d = B::new(false, false);
            d.u8(1);
            string(g, &mut d, "group");
            d.u8(0).u8(1).u8(0).u8(0);
            sub(g, 7, &d);
        }
        w.linking = Some(l);
        w.put(g, &mut v, 0, "linking", &b.v);
    }
    for _ in 0..if object { g.upto(3) } else { 0 } {
        let target = g.below(w.secs.len() + 1) as u32;
        let n = g.len(5);
        let mut l = vec![];
        let mut b = B::new(false, false);
        leb(g, &mut b, target as u64);
        leb(g, &mut b, n as u64);
        for _ in 0..n {
            let mut r = WReloc { ty: g.upto(26) as u8, offset: g.uint(32) as u32, index: g.uint(32) as u32, addend: 0 };
            b.u8(r.ty);
            leb(g, &mut b, r.offset as u64);
            leb(g, &mut b, r.index as u64);
            match r.ty {
                3 | 4 | 5 | 8 | 9 | 11 | 21 | 23 => r.addend = g.u32() as i32 as i64,
                14 | 15 | 16 | 17 | 22 | 25 => r.addend = g.i64(),
                _ => {}
            }
            if matches!(r.ty, 3 | 4 | 5 | 8 | 9 | 11 | 21 | 23 | 14 | 15 | 16 | 17 | 22 | 25) {
                b.sleb(r.addend);
            }
            l.push(r);
        }
        w.relocs.push((target, l));
        let name = format!("reloc.{}", g.pickc(&["CODE", "DATA", "", ".debug_info"]));
        w.put(g, &mut v, 0, &name, &b.v);
        custom(g, &mut w, &mut v);
    }
    if g.chance(1, 2) {
        let n = g.len(5);
        let mut l: Vec<(u32, String)> = vec![];
        let total = (w.nimports(0) + w.nfuncs) as u64;
        for _ in 0..n {
            let i = g.upto(total + 1) as u32;
            if l.iter().all(|x| x.0 != i) {
                l.push((i, text(g)));
            }
        }
        l.sort();
        let mut b = B::new(false, false);
        if g.bool() {
            b.u8(0);
            let mut d = B::new(false, false);
            string(g, &mut d, "module");
            leb(g, &mut b, d.len() as u64);
            b.bytes(&d.v);
        }
        let mut d = B::new(false, false);
        leb(g, &mut d, l.len() as u64);
        for (i, s) in &l {
            leb(g, &mut d, *i as u64);
            string(g, &mut d, s);
        }
        b.u8(1);
        leb(g, &mut b, d.len() as u64);
        b.bytes(&d.v);
        if g.chance(1, 4) {
            // Global names.
            b.u8(7).u8(4).u8(1).u8(0).u8(1).u8(b'g');
        }
        w.names = Some(l);
        w.put(g, &mut v, 0, "name", &b.v);
    }
    custom(g, &mut w, &mut v);
    (w, v.v)
}
