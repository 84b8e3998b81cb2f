//! Independent model and encoders of the ELF dynamic linking tables.
use crate::b::*;
use crate::elf::{k::*, *};
use crate::engine::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Verdef {
    pub flags: u16,
    pub ndx: u16,
    pub hash: u32,
    pub names: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vernaux {
    pub name: Vec<u8>,
    pub hash: u32,
    pub flags: u16,
    pub other: u16,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Verneed {
    pub file: Vec<u8>,
    pub aux: Vec<Vernaux>,
}

/// What a version index means.
#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub name: Vec<u8>,
    pub hash: u32,
    pub file: Option<Vec<u8>>,
}

#[derive(Clone, Debug, Default)]
pub struct DynModel {
    pub syms: Vec<Sym>,
    pub versym: Option<Vec<u16>>,
    pub verdefs: Vec<Verdef>,
    pub verneeds: Vec<Verneed>,
    /// First symbol in the GNU hash table.
    pub base: usize,
    pub gnu: bool,
    pub sysv: bool,
    pub sysv_hashed: Vec<usize>,
    pub nbucket: u32,
    pub bloom: Vec<u64>,
    pub shift: u32,
    pub dyns: Vec<(i64, u64)>,
    pub needed: Vec<Vec<u8>>,
    // Section indices.
    pub s_dynsym: usize,
    pub s_dynstr: usize,
    pub s_hash: usize,
    pub s_gnu: usize,
    pub s_versym: usize,
    pub s_verdef: usize,
    pub s_verneed: usize,
    pub s_dynamic: usize,
}

impl DynModel {
    pub fn version(&self, index: u16) -> Result<Option<Ver>, ()> {
        let index = index & 0x7fff;
        if index < 2 {
            return Ok(None);
        }
        for d in &self.verdefs {
            if d.flags & 1 == 0 && d.ndx == index {
                return Ok(Some(Ver { name: d.names[0].clone(), hash: d.hash, file: None }));
            }
        }
        for n in &self.verneeds {
            for a in &n.aux {
                if a.other & 0x7fff == index {
                    return Ok(Some(Ver { name: a.name.clone(), hash: a.hash, file: Some(n.file.clone()) }));
                }
            }
        }
        Err(())
    }
    pub fn versym(&self, i: usize) -> u16 {
        self.versym.as_ref().and_then(|v| v.get(i).copied()).unwrap_or(1)
    }
    pub fn matches(&self, i: usize, need: Option<&Ver>) -> bool {
        let v = self.versym(i);
        let def = if self.versym.is_none() { Ok(None) } else { self.version(v) };
        match (def, need) {
            (Err(()), _) => false,
            (Ok(Some(d)), Some(n)) => d.name == n.name && d.hash == n.hash,
            (Ok(None), Some(_)) => false,
            (Ok(Some(_)), None) => v & 0x8000 == 0,
            (Ok(None), None) => true,
        }
    }
}

fn gap(g: &mut Gen) -> usize {
    if g.chance(1, 6) { 4 * (g.range(1, 3) + if g.chance(1, 400) { 0x4000 } else { 0 }) } else { 0 }
}

/// Entries with auxiliary lists, either interleaved or in two runs, linked by relative offsets.
/// `head`/`aux` write the fixed part; the offsets of the (aux, next) fields are patched.
pub fn put_chains(g: &mut Gen, be: bool, n: &[usize], head: &mut dyn FnMut(&mut B, usize), aux: &mut dyn FnMut(&mut B, usize, usize), aux_at: usize, next_at: usize, aux_next_at: usize) -> Vec<u8> {
    let mut b = B::new(be, false);
    let mut heads = vec![];
    let two_runs = g.chance(1, 3);
    let mut put_aux = |g: &mut Gen, b: &mut B, i: usize, h: usize| {
        let mut prev = None;
        for j in 0..n[i] {
            let k = gap(g);
            b.zeros(k);
            let p = b.len();
            match prev {
                None => b.put(h + aux_at, 4, (p - h) as u64),
                Some(q) => b.put(q + aux_next_at, 4, (p - q) as u64),
            }
            aux(b, i, j);
            prev = Some(p);
        }
    };
    for i in 0..n.len() {
        let k = gap(g);
        if i > 0 {
            b.zeros(k);
        }
        let p = b.len();
        if let Some(&q) = heads.last() {
            let q: usize = q;
            b.put(q + next_at, 4, (p - q) as u64);
        }
        heads.push(p);
        head(&mut b, i);
        if !two_runs {
            put_aux(g, &mut b, i, p);
        }
    }
    if two_runs {
        for i in 0..n.len() {
            put_aux(g, &mut b, i, heads[i]);
        }
    }
    b.v
}

pub fn put_verdef(g: &mut Gen, be: bool, d: &[Verdef], t: &mut StrTab) -> Vec<u8> {
    let offs: Vec<Vec<u32>> = d.iter().map(|d| d.names.iter().map(|n| t.add(n)).collect()).collect();
    let n: Vec<usize> = d.iter().map(|d| d.names.len()).collect();
    put_chains(
        g,
        be,
        &n,
        &mut |b, i| {
            b.u16(1).u16(d[i].flags).u16(d[i].ndx).u16(d[i].names.len() as u16).u32(d[i].hash).u32(0).u32(0);
        },
        &mut |b, i, j| {
            b.u32(offs[i][j]).u32(0);
        },
        12,
        16,
        4,
    )
}
pub fn put_verneed(g: &mut Gen, be: bool, d: &[Verneed], t: &mut StrTab) -> Vec<u8> {
    let files: Vec<u32> = d.iter().map(|d| t.add(&d.file)).collect();
    let offs: Vec<Vec<u32>> = d.iter().map(|d| d.aux.iter().map(|a| t.add(&a.name)).collect()).collect();
    let n: Vec<usize> = d.iter().map(|d| d.aux.len()).collect();
    put_chains(
        g,
        be,
        &n,
        &mut |b, i| {
            b.u16(1).u16(d[i].aux.len() as u16).u32(files[i]).u32(0).u32(0);
        },
        &mut |b, i, j| {
            let a = &d[i].aux[j];
            b.u32(a.hash).u16(a.flags).u16(a.other).u32(offs[i][j]).u32(0);
        },
        8,
        12,
        12,
    )
}

pub fn put_sysv(g: &mut Gen, be: bool, nsyms: usize, hashed: &[usize], syms: &[Sym], nbucket: u32) -> Vec<u8> {
    let mut bucket = vec![0u32; nbucket as usize];
    let mut chain = vec![0u32; nsyms];
    let mut order = hashed.to_vec();
    for i in (1..order.len()).rev() {
        let j = g.below(i + 1);
        order.swap(i, j);
    }
    for i in order {
        let h = (sysv_hash(&syms[i].name) % nbucket) as usize;
        chain[i] = bucket[h];
        bucket[h] = i as u32;
    }
    let mut b = B::new(be, false);
    b.u32(nbucket).u32(nsyms as u32);
    bucket.iter().chain(&chain).for_each(|&x| {
        b.u32(x);
    });
    b.v
}

pub fn gnu_bloom(is64: bool, syms: &[Sym], base: usize, count: usize, shift: u32) -> Vec<u64> {
    let w = if is64 { 64 } else { 32 };
    let mut bloom = vec![0u64; count];
    for s in syms.iter().skip(base) {
        let h = gnu_hash(&s.name);
        let i = (h / w) as usize % count;
        bloom[i] |= 1 << (h % w);
        bloom[i] |= 1 << (((h as u64) >> shift.min(63)) as u32 % w);
    }
    bloom
}

pub fn put_gnu(be: bool, is64: bool, syms: &[Sym], base: usize, nbucket: u32, bloom: &[u64], shift: u32) -> Vec<u8> {
    let mut b = B::new(be, is64);
    b.u32(nbucket).u32(base as u32).u32(bloom.len() as u32).u32(shift);
    bloom.iter().for_each(|&x| {
        b.w(x);
    });
    let hs: Vec<u32> = syms.iter().skip(base).map(|s| gnu_hash(&s.name)).collect();
    for k in 0..nbucket {
        let first = hs.iter().position(|h| h % nbucket == k);
        b.u32(first.map_or(0, |i| (i + base) as u32));
    }
    for (i, &h) in hs.iter().enumerate() {
        let last = hs.get(i + 1).is_none_or(|n| n % nbucket != h % nbucket);
        b.u32(h & !1 | last as u32);
    }
    b.v
}

/// Dynamic symbols, versions and hash tables; the sections are added to `img`.
/// `defsec` are section indices usable for defined symbols.
pub fn gen_dyn(g: &mut Gen, img: &mut Img, defsec: &[u16], clean: bool) -> DynModel {
    let mut m = DynModel { gnu: g.chance(2, 3), sysv: g.chance(2, 3), nbucket: g.range(1, 6) as u32, ..DynModel::default() };
    let pool: Vec<Vec<u8>> = (0..g.range(1, 8)).map(|_| g.name(6)).collect();
    let versioned = g.chance(2, 3);
    let mut next = 2u16;
    if versioned {
        for _ in 0..g.len(4) {
            let base = m.verdefs.is_empty() && g.bool();
            let ndx = if base { 1 } else { next };
            next += !base as u16;
            if !clean && g.chance(1, 8) {
                next += 3;
            }
            let names: Vec<_> = (0..g.range(1, 3)).map(|_| g.name(8)).collect();
            let hash = if !clean && g.chance(1, 20) { g.u32() } else { sysv_hash(&names[0]) };
            m.verdefs.push(Verdef { flags: base as u16 | if g.chance(1, 8) { 2 } else { 0 }, ndx, hash, names });
        }
        for _ in 0..g.len(3) {
            let mut aux = vec![];
            for _ in 0..g.range(if clean { 1 } else { 0 }, 3) {
                let name = if !m.verdefs.is_empty() && g.chance(1, 3) { m.verdefs[0].names[0].clone() } else { g.name(8) };
                aux.push(Vernaux { hash: sysv_hash(&name), name, flags: g.upto(2) as u16, other: next });
                next += 1;
            }
            m.verneeds.push(Verneed { file: g.name(10), aux });
        }
    }
    let n = g.len(16);
    let mut syms = vec![];
    for _ in 0..n {
        let def = g.chance(2, 3);
        let bind = if clean { g.pickc(&[1u8, 1, 2]) } else { g.pickc(&[1u8, 1, 2, 0, 10]) };
        let ty = g.pickc(&[0u8, 1, 2, 2, 6, 10, 3, 4]);
        let name = if !clean && g.chance(1, 12) { vec![] } else { g.pick(&pool).clone() };
        syms.push(Sym {
            name,
            info: bind << 4 | ty,
            other: g.upto(3) as u8,
            shndx: if !def {
                0
            } else if !clean && g.chance(1, 6) {
                g.pickc(&[0xfff1u16, 0xfff2, 0xff07])
            } else {
                g.pickc(defsec)
            },
            value: g.uint(img.wbits()),
            size: g.uint(8),
            ..Sym::default()
        });
    }
    // Undefined first, then (for GNU hash) ordered by bucket.
    syms.sort_by_key(|s| if s.shndx == 0 { (0, 0) } else { (1, if m.gnu { gnu_hash(&s.name) % m.nbucket } else { 0 }) });
    if m.gnu {
        m.base = 1 + syms.iter().filter(|s| s.shndx == 0).count();
    }
    if n > 0 || g.bool() || clean {
        syms.insert(0, Sym::default());
    } else {
        m.base = 0;
    }
    if m.gnu && m.base == 0 {
        m.gnu = false;
    }
    m.syms = syms;
    if versioned {
        let all: Vec<u16> = (2..next).collect();
        let vs: Vec<u16> = (0..m.syms.len())
            .map(|i| {
                if i == 0 {
                    return 0;
                }
                let mut v = if !all.is_empty() && g.chance(2, 3) { g.pickc(&all) } else { g.upto(1) as u16 };
                if clean && m.version(v).is_err() {
                    v = 1;
                }
                if g.chance(1, 4) {
                    v |= 0x8000;
                }
                v
            })
            .collect();
        m.versym = Some(vs);
    }
    // Tables.
    let mut t = StrTab::new(b"\0", g.bool());
    for s in m.syms.iter_mut().skip(1) {
        s.name_off = t.add(&s.name);
    }
    let vd = if m.verdefs.is_empty() { None } else { Some(put_verdef(g, img.be, &m.verdefs, &mut t)) };
    let vn = if m.verneeds.is_empty() { None } else { Some(put_verneed(g, img.be, &m.verneeds, &mut t)) };
    let wb = img.wbits();
    if g.chance(4, 5) {
        for _ in 0..g.len(6) {
            match g.upto(3) {
                0 => {
                    let s = g.name(10);
                    m.dyns.push((1, t.add(&s) as u64));
                    m.needed.push(s);
                }
                1 => {
                    let s = g.name(10);
                    let tag = g.pickc(&[14i64, 15, 29]);
                    m.dyns.push((tag, t.add(&s) as u64));
                }
                2 => m.dyns.push((g.pickc(&[30i64, 0x6ffffffb, 24, 2, 9, 22]), g.uint(wb))),
                _ if !clean => {
                    let tag = match g.upto(3) {
                        0 => g.pickc(&[3i64, 4, 5, 6, 7, 12, 13, 17, 21, 23, 25, 26, 32, 34, 35, 36, 37, 38, 0x6ffffdff, 0x6ffffe00, 0x6ffffeff, 0x6fffff00, 0x6ffffff0, 0x6ffffffc, 0x6ffffffe, 0x7ffffffd, 0x7fffffff]),
                        1 if img.is64 => g.uint(64) as i64,
                        _ => g.uint(32) as i32 as i64,
                    };
                    if tag != 0 && tag != 1 {
                        m.dyns.push((tag, g.uint(wb)))
                    }
                }
                _ => {}
            }
        }
        m.dyns.push((0, 0));
    }
    m.s_dynstr = img.add(b".dynstr", SHT_STRTAB, t.v);
    let mut b = img.b();
    for s in &m.syms {
        img.put_sym(&mut b, s);
    }
    m.s_dynsym = img.add(b".dynsym", SHT_DYNSYM, b.v);
    {
        let ent = img.symsize() as u64;
        let w = img.word() as u64;
        let s = &mut img.secs[m.s_dynsym];
        s.link = m.s_dynstr as u32;
        s.info = 1;
        s.entsize = ent;
        s.align = w;
    }
    if m.sysv {
        m.sysv_hashed = (1..m.syms.len()).filter(|&i| clean || m.syms[i].shndx != 0 || g.bool()).collect();
        let d = put_sysv(g, img.be, m.syms.len(), &m.sysv_hashed, &m.syms, m.nbucket);
        m.s_hash = img.add(b".hash", SHT_HASH, d);
        img.secs[m.s_hash].link = m.s_dynsym as u32;
        img.secs[m.s_hash].entsize = 4;
        img.secs[m.s_hash].align = img.word() as u64;
    }
    if m.gnu {
        m.shift = g.upto(if clean { 12 } else { 40 }) as u32;
        let count = 1usize << g.upto(2);
        m.bloom = gnu_bloom(img.is64, &m.syms, m.base, count, m.shift);
        let mut bloom = m.bloom.clone();
        if !clean && g.chance(1, 6) {
            // False positives are allowed.
            bloom.iter_mut().for_each(|x| *x |= 0x8421_8421_1248_1248);
        }
        let mut d = put_gnu(img.be, img.is64, &m.syms, m.base, m.nbucket, &bloom, m.shift);
        if !clean && g.chance(1, 6) {
            d.extend([1, 2, 3, 4, 5, 6, 7]);
        }
        m.s_gnu = img.add(b".gnu.hash", SHT_GNU_HASH, d);
        img.secs[m.s_gnu].link = m.s_dynsym as u32;
        img.secs[m.s_gnu].align = img.word() as u64;
    }
    if let Some(v) = &m.versym {
        let mut b = img.b();
        v.iter().for_each(|&x| {
            b.u16(x);
        });
        m.s_versym = img.add(b".gnu.version", SHT_GNU_VERSYM, b.v);
        img.secs[m.s_versym].link = m.s_dynsym as u32;
        img.secs[m.s_versym].entsize = 2;
        img.secs[m.s_versym].align = 2;
    }
    for (d, ty, name, n) in [(vd, SHT_GNU_VERDEF, ".gnu.version_d", m.verdefs.len()), (vn, SHT_GNU_VERNEED, ".gnu.version_r", m.verneeds.len())] {
        if let Some(d) = d {
            let i = img.add(name.as_bytes(), ty, d);
            img.secs[i].link = m.s_dynstr as u32;
            img.secs[i].info = n as u32;
            img.secs[i].align = 4;
            if ty == SHT_GNU_VERDEF {
                m.s_verdef = i
            } else {
                m.s_verneed = i
            }
        }
    }
    if !m.dyns.is_empty() {
        let mut b = img.b();
        for &(t, v) in &m.dyns {
            b.w(t as u64).w(v);
        }
        if !clean && g.chance(1, 4) {
            // Entries after DT_NULL are not part of the table.
            b.w(1).w(0);
        }
        m.s_dynamic = img.add(b".dynamic", SHT_DYNAMIC, b.v);
        let w = img.word() as u64;
        let s = &mut img.secs[m.s_dynamic];
        s.link = m.s_dynstr as u32;
        s.entsize = 2 * w;
        s.align = w;
    }
    m
}

// ------------------------------------------------------------ strict decoders for written output

pub fn get_verdefs(be: bool, v: &[u8], strs: &[u8], count: usize) -> Option<Vec<Verdef>> {
    let d = D::new(be, false, v);
    let mut p = 0;
    let mut out = vec![];
    for i in 0..count {
        let mut h = d.at(p);
        if h.u16()? != 1 {
            return None;
        }
        let (flags, ndx, cnt, hash, aux, next) = (h.u16()?, h.u16()?, h.u16()?, h.u32()?, h.u32()?, h.u32()?);
        let mut q = p + aux as usize;
        let mut names = vec![];
        for j in 0..cnt {
            let mut a = d.at(q);
            names.push(cstr_at(strs, a.u32()? as usize)?.to_vec());
            let n = a.u32()?;
            if (n == 0) != (j + 1 == cnt) {
                return None;
            }
            q += n as usize;
        }
        out.push(Verdef { flags, ndx, hash, names });
        if (next == 0) != (i + 1 == count) {
            return None;
        }
        p += next as usize;
    }
    Some(out)
}
pub fn get_verneeds(be: bool, v: &[u8], strs: &[u8], count: usize) -> Option<Vec<Verneed>> {
    let d = D::new(be, false, v);
    let mut p = 0;
    let mut out = vec![];
    for i in 0..count {
        let mut h = d.at(p);
        if h.u16()? != 1 {
            return None;
        }
        let (cnt, file, aux, next) = (h.u16()?, h.u32()?, h.u32()?, h.u32()?);
        let mut q = p + aux as usize;
        let mut a = vec![];
        for j in 0..cnt {
            let mut e = d.at(q);
            let (hash, flags, other, name, n) = (e.u32()?, e.u16()?, e.u16()?, e.u32()?, e.u32()?);
            a.push(Vernaux { name: cstr_at(strs, name as usize)?.to_vec(), hash, flags, other });
            if (n == 0) != (j + 1 == cnt) {
                return None;
            }
            q += n as usize;
        }
        out.push(Verneed { file: cstr_at(strs, file as usize)?.to_vec(), aux: a });
        if (next == 0) != (i + 1 == count) {
            return None;
        }
        p += next as usize;
    }
    Some(out)
}
/// Independent lookup in a SysV table; panics-free, `None` if the table is malformed.
pub fn sysv_find_all(be: bool, v: &[u8], name: &[u8], name_of: &dyn Fn(usize) -> Vec<u8>) -> Option<Vec<usize>> {
    let mut d = D::new(be, false, v);
    let (nb, nc) = (d.u32()? as usize, d.u32()? as usize);
    if v.len() != 8 + 4 * (nb + nc) {
        return None;
    }
    if nb == 0 {
        return Some(vec![]);
    }
    let mut i = d.at(8 + 4 * (sysv_hash(name) as usize % nb)).u32()? as usize;
    let mut out = vec![];
    let mut steps = 0;
    while i != 0 {
        if name_of(i) == name {
            out.push(i);
        }
        i = d.at(8 + 4 * (nb + i)).u32()? as usize;
        steps += 1;
        if steps > nc {
            return None;
        }
    }
    Some(out)
}
pub fn gnu_find_all(be: bool, is64: bool, v: &[u8], nsyms: usize, name: &[u8], name_of: &dyn Fn(usize) -> Vec<u8>) -> Option<Vec<usize>> {
    let mut d = D::new(be, is64, v);
    let (nb, base, bc, shift) = (d.u32()? as usize, d.u32()? as usize, d.u32()? as usize, d.u32()?);
    let w = if is64 { 8 } else { 4 };
    let nv = nsyms.checked_sub(base)?;
    if v.len() != 16 + w * bc + 4 * nb + 4 * nv {
        return None;
    }
    if bc == 0 || !bc.is_power_of_two() {
        return None;
    }
    let h = gnu_hash(name);
    let bits = 8 * w as u32;
    let f = d.at(16 + w * ((h / bits) as usize % bc)).w()?;
    if f >> (h % bits) & 1 == 0 || f >> ((h.checked_shr(shift).unwrap_or(0)) % bits) & 1 == 0 || nb == 0 {
        return Some(vec![]);
    }
    let mut i = d.at(16 + w * bc + 4 * (h as usize % nb)).u32()? as usize;
    let mut out = vec![];
    if i == 0 {
        return Some(out);
    }
    loop {
        let x = d.at(16 + w * bc + 4 * nb + 4 * i.checked_sub(base)?).u32()?;
        if x | 1 == h | 1 && name_of(i) == name {
            out.push(i);
        }
        if x & 1 != 0 {
            return Some(out);
        }
        i += 1;
    }
}
