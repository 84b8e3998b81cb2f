//! Independent PE image encoder and generator.
use crate::b::*;
use crate::coff::*;
use crate::engine::*;

#[derive(Clone, Debug)]
pub enum Item {
    Ordinal(u16),
    Name(u16, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Lib {
    pub name: Vec<u8>,
    pub items: Vec<Item>,
    /// Descriptor fields in order.
    pub fields: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Target {
    Addr(u32),
    ByName(Vec<u8>, Vec<u8>),
    ByOrdinal(Vec<u8>, u16),
}
#[derive(Clone, Debug, Default)]
pub struct Exports {
    pub base: u16,
    pub fields: (u32, u32, u16, u16),
    pub name: Vec<u8>,
    pub name_rva: u32,
    pub funcs: Vec<Target>,
    pub addrs: Vec<u32>,
    pub names: Vec<(Vec<u8>, u16)>,
    pub name_rvas: Vec<u32>,
    pub no_table: bool,
}
#[derive(Clone, Debug)]
pub enum ResId {
    Id(u16),
    Name(Vec<u16>),
}
#[derive(Clone, Debug)]
pub enum Res {
    Table { fields: (u32, u32, u16, u16), named: u16, entries: Vec<(ResId, Res)> },
    Data { rva: u32, size: u32, page: u32, reserved: u32 },
}
#[derive(Clone, Debug, Default)]
pub struct Pdb {
    pub guid: Vec<u8>,
    pub age: u32,
    pub path: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Rich {
    pub offset: usize,
    pub key: u32,
    pub entries: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, Default)]
pub struct Pe {
    pub is64: bool,
    pub lfanew: usize,
    /// Optional header fields in the order of the 32-bit form, without magic and directory count.
    pub opt: Vec<u64>,
    pub dirs: Vec<(u32, u32)>,
    pub opt_extra: usize,
    /// Sections and symbols.
    pub c: Coff,
    pub rich: Option<Rich>,
    pub imports: Option<Vec<Lib>>,
    pub delay: Option<Vec<Lib>>,
    pub exports: Option<Exports>,
    pub relocs: Option<Vec<(u32, Vec<u16>)>>,
    pub res: Option<Res>,
    pub debug: Option<Vec<[u32; 8]>>,
    pub pdb: Option<Pdb>,
    pub sec_table: usize,
}
/// Widths of the optional header fields after the magic: (32-bit, 64-bit).
pub const OPT: &[(usize, usize)] = &[
    (1, 1), (1, 1), (4, 4), (4, 4), (4, 4), (4, 4), (4, 4), (4, 0), (4, 8), (4, 4), (4, 4), (2, 2), (2, 2), (2, 2), (2, 2), (2, 2), (2, 2),
    (4, 4), (4, 4), (4, 4), (4, 4), (2, 2), (2, 2), (4, 8), (4, 8), (4, 8), (4, 8), (4, 4),
];
impl Pe {
    pub fn base(&self) -> u64 {
        self.opt[8]
    }
    pub fn visible(&self, i: usize) -> usize {
        let s = &self.c.secs[i];
        (s.vsize as usize).min(s.data.len())
    }
    /// The file bytes from an address to the end of its section.
    pub fn at(&self, rva: u32) -> Option<&[u8]> {
        for (i, s) in self.c.secs.iter().enumerate() {
            let n = self.visible(i);
            if rva >= s.vaddr && ((rva - s.vaddr) as usize) < n {
                return Some(&s.data[(rva - s.vaddr) as usize..n]);
            }
        }
        None
    }
}

/// Contents of a section under construction.
pub struct Space {
    pub base: u32,
    pub v: Vec<u8>,
}
impl Space {
    fn align(&mut self, g: &mut Gen, align: usize) -> u32 {
        if g.bool() {
            let n = g.upto(5) as usize;
            self.v.extend(g.bytes(n));
        }
        while self.v.len() % align != 0 {
            self.v.push(0xcc);
        }
        self.base + self.v.len() as u32
    }
    fn reserve(&mut self, g: &mut Gen, n: usize, align: usize) -> u32 {
        let a = self.align(g, align);
        self.v.resize(self.v.len() + n, 0);
        a
    }
    fn put(&mut self, g: &mut Gen, b: &[u8], align: usize) -> u32 {
        let a = self.align(g, align);
        self.v.extend(b);
        a
    }
    fn fill(&mut self, rva: u32, b: &[u8]) {
        let o = (rva - self.base) as usize;
        self.v[o..o + b.len()].copy_from_slice(b);
    }
}
fn zstr(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    v.push(0);
    v
}

fn gen_libs(g: &mut Gen, sp: &mut [Space], is64: bool, delay: bool) -> (Vec<Lib>, u32, u32) {
    let d = g.below(sp.len());
    let t = d;
    let n = if delay || g.chance(2, 3) { d } else { g.below(sp.len()) };
    let count = g.len(5);
    let dsize = if delay { 32 } else { 20 };
    let early = g.bool();
    let mut rva = if early { sp[d].reserve(g, dsize * (count + 1), 4) } else { 0 };
    let mut libs = vec![];
    for _ in 0..count {
        let name = g.name(20);
        let k = g.len(6);
        let items: Vec<Item> = (0..k)
            .map(|_| if g.chance(1, 3) { Item::Ordinal(g.uint(16) as u16) } else { Item::Name(g.u16(), g.name(12)) })
            .collect();
        let w = if is64 { 8 } else { 4 };
        let early = g.bool();
        let mut thunks = if early { sp[t].reserve(g, w * (k + 1), 4) } else { 0 };
        let name_rva = sp[n].put(g, &zstr(&name), 1);
        let mut b = B::new(false, is64);
        for it in &items {
            match it {
                Item::Ordinal(o) => b.w(if is64 { 1 << 63 } else { 1 << 31 } | *o as u64),
                Item::Name(h, s) => {
                    let mut x = h.to_le_bytes().to_vec();
                    x.extend(zstr(s));
                    let a = sp[n].put(g, &x, 2);
                    b.w(a as u64)
                }
            };
        }
        b.w(0);
        if early {
            sp[t].fill(thunks, &b.v);
        } else {
            thunks = sp[t].put(g, &b.v, 4);
        }
        // Usually a second copy exists, which may be bound.
        let other = g.bytes(b.v.len());
        let other = sp[t].put(g, &other, 4);
        let fields = if delay {
            vec![1 | g.u32() & !1, name_rva, g.u32(), other, thunks, g.u32(), g.u32(), g.u32()]
        } else if g.chance(1, 4) {
            vec![0, g.u32(), g.u32(), name_rva, thunks]
        } else {
            vec![thunks, g.u32(), g.u32(), name_rva, other]
        };
        libs.push(Lib { name, items, fields });
    }
    let mut b = B::new(false, false);
    for l in &libs {
        for &f in &l.fields {
            b.u32(f);
        }
    }
    b.zeros(dsize);
    if early {
        sp[d].fill(rva, &b.v);
    } else {
        rva = sp[d].put(g, &b.v, 4);
    }
    (libs, rva, b.v.len() as u32)
}

fn gen_exports(g: &mut Gen, sp: &mut Space) -> (Exports, u32, u32) {
    let rva = sp.align(g, 4);
    let base = if g.bool() { 1 } else { g.uint(16) as u16 };
    let n = g.len(12).min(0x10000 - base as usize);
    let mut e = Exports { base, fields: (g.u32(), g.u32(), g.u16(), g.u16()), name: g.name(12), ..Exports::default() };
    let mut v = vec![0; 40];
    let pad = |g: &mut Gen, v: &mut Vec<u8>| {
        while g.chance(1, 3) || v.len() % 2 != 0 {
            v.push(0x41);
        }
    };
    e.name_rva = rva + v.len() as u32;
    v.extend(zstr(&e.name));
    let used = if n > 0 { g.len(10) } else { 0 };
    for _ in 0..used {
        e.names.push((g.name(14), g.below(n) as u16));
    }
    if g.bool() {
        e.names.sort();
    }
    // Reserve the tables in a random order.
    let (mut f, mut p, mut o) = (0, 0, 0);
    let first = g.upto(2);
    for i in 0..3 {
        pad(g, &mut v);
        match (first + i) % 3 {
            0 => {
                f = v.len();
                v.resize(f + 4 * n, 0)
            }
            1 => {
                p = v.len();
                v.resize(p + 4 * used, 0)
            }
            _ => {
                o = v.len();
                v.resize(o + 2 * used, 0)
            }
        }
    }
    for i in 0..n {
        let named = e.names.iter().any(|x| x.1 as usize == i);
        let t = match g.upto(5) {
            0 => Target::ByName(g.name(8), g.name(8).iter().map(|&c| if c == b'.' || c == b'#' { b'_' } else { c }).collect()),
            1 => Target::ByOrdinal(g.name(8), g.uint(16) as u16),
            2 if !named => Target::Addr(0),
            _ => Target::Addr(g.u32()),
        };
        e.addrs.push(match &t {
            Target::Addr(a) => *a,
            Target::ByName(l, s) => {
                let a = v.len();
                v.extend(l);
                v.push(b'.');
                v.extend(zstr(s));
                rva + a as u32
            }
            Target::ByOrdinal(l, x) => {
                let a = v.len();
                v.extend(l);
                let z = if g.chance(1, 5) { "0" } else { "" };
                v.extend(format!(".#{z}{x}\0").into_bytes());
                rva + a as u32
            }
        });
        e.funcs.push(t);
    }
    for (s, _) in &e.names {
        e.name_rvas.push(rva + v.len() as u32);
        v.extend(zstr(s));
    }
    // Plain addresses are outside of the directory.
    for i in 0..n {
        if let Target::Addr(a) = &mut e.funcs[i] {
            if *a >= rva && *a < rva + v.len() as u32 || *a == 0 && e.names.iter().any(|x| x.1 as usize == i) {
                *a = if g.bool() { rva - 1 } else { rva + v.len() as u32 };
            }
            e.addrs[i] = *a;
        }
    }
    e.no_table = n == 0 && g.bool();
    let mut h = B::new(false, false);
    let x = e.fields;
    h.u32(x.0).u32(x.1).u16(x.2).u16(x.3).u32(e.name_rva).u32(base as u32).u32(n as u32).u32(used as u32);
    h.u32(if e.no_table { 0 } else { rva + f as u32 });
    if used == 0 && g.bool() {
        h.u32(0).u32(0);
    } else {
        h.u32(rva + p as u32).u32(rva + o as u32);
    }
    v[..40].copy_from_slice(&h.v);
    for (i, a) in e.addrs.iter().enumerate() {
        v[f + 4 * i..][..4].copy_from_slice(&a.to_le_bytes());
    }
    for (i, a) in e.name_rvas.iter().enumerate() {
        v[p + 4 * i..][..4].copy_from_slice(&a.to_le_bytes());
        v[o + 2 * i..][..2].copy_from_slice(&e.names[i].1.to_le_bytes());
    }
    sp.v.extend(&v);
    (e, rva, v.len() as u32)
}

fn gen_res(g: &mut Gen, depth: usize) -> Res {
    if depth > 0 && (depth >= 4 || g.chance(2, 5)) {
        return Res::Data { rva: g.u32(), size: g.u32(), page: g.u32(), reserved: g.u32() };
    }
    let (named, ids) = (g.upto(2) as u16, g.upto(2) as u16);
    let mut entries = vec![];
    for i in 0..named + ids {
        let id = if i < named {
            let n = g.len(6);
            ResId::Name((0..n).map(|_| if g.chance(1, 6) { g.u16() } else { g.range(32, 126) as u16 }).collect())
        } else {
            ResId::Id(g.u16())
        };
        entries.push((id, gen_res(g, depth + 1)));
    }
    Res::Table { fields: (g.u32(), g.u32(), g.u16(), g.u16()), named, entries }
}
fn emit_res(g: &mut Gen, r: &Res, v: &mut Vec<u8>) -> u32 {
    while v.len() % 4 != 0 || g.chance(1, 6) && !v.is_empty() {
        v.push(0xee);
    }
    let at = v.len();
    let mut b = B::new(false, false);
    match r {
        Res::Data { rva, size, page, reserved } => {
            b.u32(*rva).u32(*size).u32(*page).u32(*reserved);
            v.extend(&b.v);
        }
        Res::Table { fields: x, named, entries } => {
            b.u32(x.0).u32(x.1).u16(x.2).u16(x.3).u16(*named).u16(entries.len() as u16 - named);
            v.resize(at + 16 + 8 * entries.len(), 0);
            for (id, e) in entries {
                let n = match id {
                    ResId::Id(x) => *x as u32,
                    ResId::Name(s) => {
                        if v.len() % 2 != 0 {
                            v.push(0);
                        }
                        let o = v.len() as u32;
                        v.extend((s.len() as u16).to_le_bytes());
                        for c in s {
                            v.extend(c.to_le_bytes());
                        }
                        o | 1 << 31
                    }
                };
                let o = emit_res(g, e, v);
                b.u32(n).u32(o | if matches!(e, Res::Table { .. }) { 1 << 31 } else { 0 });
            }
            v[at..at + b.v.len()].copy_from_slice(&b.v);
        }
    }
    at as u32
}

/// Generates an image and its encoding.
pub fn gen_pe(g: &mut Gen) -> (Pe, Vec<u8>) {
    let mut p = Pe { is64: g.bool(), ..Pe::default() };
    p.c.machine = if g.chance(1, 8) { g.u16() } else { g.pickc(&[0x8664u16, 0x14c, 0x1c4, 0xaa64, 0xa641, 0x1c0]) };
    p.c.time = g.u32();
    p.c.chars = g.u16();
    for (i, &(a, b)) in OPT.iter().enumerate() {
        let w = if p.is64 { b } else { a };
        p.opt.push(if w == 0 { 0 } else { g.uint(8 * w as u32) });
        // Bases are such that addresses do not wrap most of the time.
        if i == 8 && g.chance(3, 4) {
            p.opt[8] = g.pickc(&[0x40_0000u64, 0x1000_0000]) | if p.is64 && g.bool() { 1 << 32 } else { 0 };
        }
    }
    // Section addresses.
    let ns = if g.chance(1, 12) { 0 } else { g.len1(6) };
    let mut sp: Vec<Space> = vec![];
    let mut va = g.pickc(&[0x1000u32, 0x10, 0x2_0000]);
    for _ in 0..ns {
        sp.push(Space { base: va, v: if g.bool() { vec![] } else { g.blob(30) } });
        va += g.pickc(&[0x8000u32, 0x10000, 0x100_0000]);
    }
    for i in (1..ns).rev() {
        if g.chance(1, 3) {
            let j = g.below(i + 1);
            sp.swap(i, j);
        }
    }
    let nd = if g.chance(2, 3) { 16 } else { g.upto(17) as usize };
    p.dirs = vec![(0, 0); nd];
    let has = |g: &mut Gen, i: usize| ns > 0 && i < nd && g.chance(2, 5);
    // (section, offset of the entry, rva of the data)
    let mut fix: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
    let mut overlay = vec![];
    let is64 = p.is64;
    if has(g, 1) {
        let (l, a, n) = gen_libs(g, &mut sp, is64, false);
        p.imports = Some(l);
        p.dirs[1] = (a, n);
    }
    if has(g, 13) {
        let (l, a, n) = gen_libs(g, &mut sp, is64, true);
        p.delay = Some(l);
        p.dirs[13] = (a, n);
    }
    if has(g, 0) {
        let i = g.below(ns);
        let (e, a, n) = gen_exports(g, &mut sp[i]);
        p.exports = Some(e);
        p.dirs[0] = (a, n);
    }
    if has(g, 5) {
        let n = g.len(4);
        let mut r = vec![];
        let mut b = B::new(false, false);
        for _ in 0..n {
            let k = 2 * g.len1(6);
            let page = g.u32();
            let mut e: Vec<u16> = (0..k).map(|_| g.u16()).collect();
            if g.bool() {
                e[k - 1] = 0;
            }
            b.u32(page).u32(8 + 2 * k as u32);
            for &x in &e {
                b.u16(x);
            }
            r.push((page, e));
        }
        let i = g.below(ns);
        // A directory must be at an address backed by the file.
        if !b.v.is_empty() {
            p.dirs[5] = (sp[i].put(g, &b.v, 4), b.v.len() as u32);
            p.relocs = Some(r);
        }
    }
    if has(g, 2) {
        let r = gen_res(g, 0);
        let mut v = vec![];
        emit_res(g, &r, &mut v);
        let i = g.below(ns);
        p.dirs[2] = (sp[i].put(g, &v, 4), v.len() as u32);
        p.res = Some(r);
    }
    if has(g, 6) {
        let n = g.len1(4);
        let i = g.below(ns);
        let a = sp[i].reserve(g, 28 * n, 4);
        p.dirs[6] = (a, 28 * n as u32);
        let mut d = vec![];
        for k in 0..n {
            let mut e = [g.u32(), g.u32(), g.u16() as u32, g.u16() as u32, g.pickc(&[2u32, 2, 2, 1, 12, 13, 16, 20]), g.u32(), g.u32(), g.u32()];
            if e[4] == 2 {
                let pdb = Pdb { guid: g.bytes(16), age: g.u32(), path: if g.chance(1, 8) { vec![] } else { g.name(30) } };
                let rsds = g.chance(2, 3);
                let mut v = g.pickc(&[&b"NB10"[..], b"NB09", b"RSD2"]).to_vec();
                if rsds {
                    v = b"RSDS".to_vec();
                }
                v.extend(&pdb.guid);
                v.extend(pdb.age.to_le_bytes());
                v.extend(zstr(&pdb.path));
                if g.chance(1, 4) {
                    v.extend(g.blob(6));
                }
                if rsds && p.pdb.is_none() {
                    p.pdb = Some(pdb);
                }
                e[5] = v.len() as u32;
                let eo = (a - sp[i].base) as usize + 28 * k;
                if g.chance(1, 4) {
                    fix.push((i, eo, None));
                    e[7] = overlay.len() as u32;
                    overlay.extend(v);
                } else {
                    let j = g.below(ns);
                    let r = sp[j].put(g, &v, 1);
                    e[6] = r;
                    fix.push((i, eo, Some((j, (r - sp[j].base) as usize))));
                }
            }
            d.push(e);
        }
        for (k, e) in d.iter().enumerate() {
            let mut b = B::new(false, false);
            b.u32(e[0]).u32(e[1]).u16(e[2] as u16).u16(e[3] as u16).u32(e[4]).u32(e[5]).u32(e[6]).u32(e[7]);
            sp[i].fill(a + 28 * k as u32, &b.v);
        }
        p.debug = Some(d);
    }
    for k in [3, 4, 9, 10, 11, 12, 14, 15, 16] {
        if k < nd && g.chance(1, 5) {
            p.dirs[k] = (g.u32(), g.u32());
        }
    }
    // A size without an address means the directory is absent.
    for k in [0, 1, 2, 5, 6, 13] {
        if k < nd && p.dirs[k].0 == 0 && g.chance(1, 4) {
            p.dirs[k].1 = g.u32();
        }
    }
    // Sections and symbols.
    p.c.no_symtab = g.bool();
    for s in &sp {
        let mut c = CSec { name: gen_name(g), b64: g.chance(1, 4), vaddr: s.base, data: s.v.clone(), ..CSec::default() };
        if p.c.no_symtab {
            c.name.truncate(8);
            if c.name[0] == b'/' {
                c.name[0] = b'.';
            }
        }
        c.chars = if g.bool() { g.u32() } else { g.pickc(&[0x60000020u32, 0xc0000040, 0x40000040, 0xc0000080, 0x42000040]) };
        let n = c.data.len() as u32;
        match g.upto(2) {
            0 => {
                c.vsize = n;
                let k = g.upto(20) as usize;
                c.data.resize(c.data.len() + k, 0);
            }
            1 => c.vsize = n + g.upto(0x3000) as u32,
            _ => c.vsize = n,
        }
        c.rel_off = g.u32();
        c.line_off = g.u32();
        c.nrel = g.u16();
        c.nline = g.u16();
        c.raw_size = c.data.len() as u32;
        p.c.secs.push(c);
    }
    if !p.c.no_symtab {
        p.c.syms = gen_syms(g, ns, false);
    }
    p.c.index();
    let t = p.c.strings(g);
    // Layout.
    let mut stub = vec![];
    if g.chance(1, 3) {
        let k = 4 * g.upto(6) as usize;
        stub.extend(vec![0x90; k]);
        // A marker that is not aligned is none.
        if k > 4 && g.bool() {
            let o = 4 * g.below(k / 4 - 1) + g.range(1, 3);
            stub[o..o + 4].copy_from_slice(b"Rich");
        }
    }
    if g.chance(1, 2) {
        let n = g.len(6);
        let r = Rich { offset: 64 + stub.len(), key: g.u32(), entries: (0..n).map(|_| (g.u32(), g.u32())).collect() };
        let mut b = B::new(false, false);
        let mut r = r;
        if g.chance(1, 6) {
            // Nor is a start of the entries that is not aligned.
            let k = g.range(1, 3);
            b.bytes(&vec![0x90; k]);
            b.u32(0x536e_6144 ^ r.key).u32(r.key).u32(r.key).u32(r.key);
            b.bytes(&vec![0x90; 4 - k]);
            r.offset += b.v.len();
            if r.key == 0x9090_9090 {
                b.v.fill(0);
            }
        }
        b.u32(0x536e_6144 ^ r.key).u32(r.key).u32(r.key).u32(r.key);
        for &(a, c) in &r.entries {
            b.u32(a ^ r.key).u32(c ^ r.key);
        }
        let hidden = b.v.chunks(4).any(|c| c == b"Rich");
        b.bytes(b"Rich").u32(r.key);
        stub.extend(&b.v);
        if !hidden {
            p.rich = Some(r);
        } else {
            stub.fill(0);
        }
        let k = g.upto(5) as usize;
        stub.extend(vec![0; k]);
    }
    p.lfanew = 64 + stub.len();
    p.opt_extra = if g.chance(1, 6) { g.upto(10) as usize } else { 0 };
    let opt_size = if p.is64 { 112 } else { 96 } + 8 * nd + p.opt_extra;
    p.sec_table = p.lfanew + 24 + opt_size;
    let mut at = p.sec_table + 40 * ns;
    let fa = g.pickc(&[1usize, 4, 16, 512]);
    let mut order: Vec<usize> = (0..ns).collect();
    for i in (1..ns).rev() {
        if g.chance(1, 3) {
            let j = g.below(i + 1);
            order.swap(i, j);
        }
    }
    let mut body: Vec<(usize, Vec<u8>)> = vec![];
    for &i in &order {
        if p.c.secs[i].data.is_empty() {
            p.c.secs[i].raw_off = if g.bool() { 0 } else { at as u32 };
            continue;
        }
        at = at.div_ceil(fa) * fa;
        p.c.secs[i].raw_off = at as u32;
        at += p.c.secs[i].data.len();
    }
    let over = at;
    at += overlay.len();
    body.push((over, overlay));
    for &(i, o, to) in &fix {
        let e = (o - (p.dirs[6].0 - p.c.secs[i].vaddr) as usize) / 28;
        let x = match to {
            Some((j, q)) => p.c.secs[j].raw_off + q as u32,
            None => over as u32 + p.debug.as_ref().unwrap()[e][7],
        };
        p.debug.as_mut().unwrap()[e][7] = x;
        p.c.secs[i].data[o + 24..o + 28].copy_from_slice(&x.to_le_bytes());
    }
    for s in &p.c.secs {
        body.push((s.raw_off as usize, s.data.clone()));
    }
    if !p.c.no_symtab {
        p.c.sym_off = at as u32;
        let mut b = B::new(false, false);
        for s in &p.c.syms {
            b.bytes(&s.raw_name).u32(s.value).u16(s.sec as u16).u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
            for a in &s.aux {
                b.bytes(a);
            }
        }
        b.bytes(&t.v);
        at += b.v.len();
        body.push((p.c.sym_off as usize, b.v));
    }
    let mut v = vec![0; at.max(p.sec_table + 40 * ns)];
    for (o, b) in body {
        if !b.is_empty() {
            v[o..o + b.len()].copy_from_slice(&b);
        }
    }
    // DOS header, with arbitrary contents between the fields.
    let dos = g.bytes(64);
    v[..64].copy_from_slice(&dos);
    v[..2].copy_from_slice(b"MZ");
    v[60..64].copy_from_slice(&(p.lfanew as u32).to_le_bytes());
    v[64..p.lfanew].copy_from_slice(&stub);
    if v[..p.lfanew].chunks(4).take(15).any(|c| c == b"Rich") {
        v[2..60].fill(0);
    }
    let mut b = B::new(false, p.is64);
    b.bytes(b"PE\0\0").u16(p.c.machine).u16(ns as u16).u32(p.c.time).u32(if p.c.no_symtab { 0 } else { p.c.sym_off });
    b.u32(if p.c.no_symtab { 0 } else { p.c.nsyms }).u16(opt_size as u16).u16(p.c.chars);
    b.u16(if p.is64 { 0x20b } else { 0x10b });
    for (&(x, y), &f) in OPT.iter().zip(&p.opt) {
        match if p.is64 { y } else { x } {
            1 => b.u8(f as u8),
            2 => b.u16(f as u16),
            4 => b.u32(f as u32),
            8 => b.u64(f),
            _ => &mut b,
        };
    }
    b.u32(nd as u32);
    for d in &p.dirs {
        b.u32(d.0).u32(d.1);
    }
    let extra = g.bytes(p.opt_extra);
    b.bytes(&extra);
    for s in &p.c.secs {
        b.bytes(&s.raw_name).u32(s.vsize).u32(s.vaddr).u32(s.raw_size).u32(s.raw_off).u32(s.rel_off).u32(s.line_off).u16(s.nrel).u16(s.nline).u32(s.chars);
    }
    v[p.lfanew..p.lfanew + b.v.len()].copy_from_slice(&b.v);
    (p, v)
}
