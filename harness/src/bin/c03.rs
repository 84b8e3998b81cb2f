//! C03: byte cursors, plain-data views, string tables and LEB128 against index arithmetic.
use object::endian::*;
use object::pod::*;
use object::read::{Bytes, ReadCache, ReadRef, StringTable};
use vh::*;

/// An 8-byte aligned copy of `data` starting `shift` bytes into the allocation.
struct Buf {
    store: Vec<u64>,
    shift: usize,
    len: usize,
}
impl Buf {
    fn new(data: &[u8], shift: usize) -> Buf {
        let mut store = vec![0xa5a5_a5a5_a5a5_a5a5u64; (data.len() + shift) / 8 + 2];
        bytes_of_slice_mut(&mut store)[shift..shift + data.len()].copy_from_slice(data);
        Buf { store, shift, len: data.len() }
    }
    fn get(&self) -> &[u8] {
        let b: &[u8] = unsafe { std::slice::from_raw_parts(self.store.as_ptr().cast(), self.store.len() * 8) };
        &b[self.shift..self.shift + self.len]
    }
    fn get_mut(&mut self) -> &mut [u8] {
        let b: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(self.store.as_mut_ptr().cast(), self.store.len() * 8) };
        &mut b[self.shift..self.shift + self.len]
    }
}

/// Offset or count near the interesting boundaries of `n`.
fn pos(g: &mut Gen, n: usize) -> usize {
    match g.upto(9) {
        0..=5 => g.range(0, n),
        6 => n + g.range(0, 3),
        7 => n.wrapping_sub(g.range(0, 3)),
        8 => usize::MAX - g.range(0, 17),
        _ => g.u64() as usize,
    }
}

fn data(g: &mut Gen) -> Vec<u8> {
    let n = g.len(40);
    (0..n)
        .map(|_| match g.upto(3) {
            0 => 0,
            1 => 1 + g.upto(3) as u8,
            _ => g.bits(8) as u8,
        })
        .collect()
}

trait Val: Pod + PartialEq + std::fmt::Debug {
    const SIZE: usize;
    const ALIGN: usize;
    fn bytes(&self) -> Vec<u8>;
}
macro_rules! val { ($t:ty, $s:expr, $a:expr, |$x:ident| $e:expr) => { impl Val for $t { const SIZE: usize = $s; const ALIGN: usize = $a; fn bytes(&self) -> Vec<u8> { let $x = self; $e } } }; }
val!(u8, 1, 1, |x| vec![*x]);
val!(u16, 2, 2, |x| x.to_ne_bytes().to_vec());
val!(u32, 4, 4, |x| x.to_ne_bytes().to_vec());
val!(u64, 8, 8, |x| x.to_ne_bytes().to_vec());
val!([u8; 3], 3, 1, |x| x.to_vec());
val!([u16; 3], 6, 2, |x| x.iter().flat_map(|y| y.to_ne_bytes()).collect());
val!(U32<LittleEndian>, 4, 1, |x| x.get(LittleEndian).to_le_bytes().to_vec());
val!(U64<BigEndian>, 8, 1, |x| x.get(BigEndian).to_be_bytes().to_vec());
val!(I16<Endianness>, 2, 1, |x| x.get(Endianness::Big).to_be_bytes().to_vec());

fn pod_for<T: Val>(g: &mut Gen, b: &mut Buf) -> R {
    let len = b.len;
    let addr = b.get().as_ptr() as usize;
    let aligned = addr % T::ALIGN == 0;
    let orig = b.get().to_vec();
    // single value
    let ok = len >= T::SIZE && aligned;
    match from_bytes::<T>(b.get()) {
        Ok((v, tail)) => {
            ensure!(ok, "from_bytes succeeded: len {len} aligned {aligned}");
            ensure_eq!(v.bytes(), orig[..T::SIZE].to_vec(), "from_bytes value");
            ensure!(v as *const T as usize == addr, "from_bytes is not in place");
            ensure_eq!(tail, &orig[T::SIZE..], "from_bytes tail");
            ensure_eq!(bytes_of(v), &orig[..T::SIZE], "bytes_of");
        }
        Err(()) => ensure!(!ok, "from_bytes failed: len {len} aligned {aligned} size {}", T::SIZE),
    }
    let count = pos(g, len / T::SIZE);
    let need = (count as u128) * T::SIZE as u128;
    let ok = need <= len as u128 && aligned;
    match slice_from_bytes::<T>(b.get(), count) {
        Ok((v, tail)) => {
            ensure!(ok, "slice_from_bytes succeeded: len {len} count {count} aligned {aligned}");
            ensure_eq!(v.len(), count, "slice_from_bytes count");
            let got: Vec<u8> = v.iter().flat_map(|x| x.bytes()).collect();
            ensure_eq!(got, orig[..need as usize].to_vec(), "slice_from_bytes values");
            ensure_eq!(tail, &orig[need as usize..], "slice_from_bytes tail");
            ensure_eq!(bytes_of_slice(v), &orig[..need as usize], "bytes_of_slice");
        }
        Err(()) => ensure!(!ok, "slice_from_bytes failed: len {len} count {count} size {}", T::SIZE),
    }
    let ok = len % T::SIZE == 0 && aligned;
    match slice_from_all_bytes::<T>(b.get()) {
        Ok(v) => {
            ensure!(ok, "slice_from_all_bytes succeeded: len {len}");
            ensure_eq!(bytes_of_slice(v), &orig[..], "slice_from_all_bytes");
        }
        Err(()) => ensure!(!ok, "slice_from_all_bytes failed: len {len}"),
    }
    // mutable forms: writing through the view changes exactly the viewed bytes
    let fill = g.bits(8) as u8;
    let ok = len >= T::SIZE && aligned;
    let r = match from_bytes_mut::<T>(b.get_mut()) {
        Ok((v, tail)) => {
            ensure_eq!(tail.len(), len - T::SIZE, "from_bytes_mut tail");
            bytes_of_mut(v).fill(fill);
            true
        }
        Err(()) => false,
    };
    ensure_eq!(r, ok, "from_bytes_mut");
    let mut want = orig.clone();
    if ok {
        want[..T::SIZE].fill(fill);
    }
    ensure_eq!(b.get(), &want[..], "after from_bytes_mut write");
    b.get_mut().copy_from_slice(&orig);
    let ok = need <= len as u128 && aligned;
    let r = match slice_from_bytes_mut::<T>(b.get_mut(), count) {
        Ok((v, tail)) => {
            ensure_eq!(tail.len(), len - need as usize, "slice_from_bytes_mut tail");
            ensure_eq!(v.len(), count, "slice_from_bytes_mut count");
            bytes_of_slice_mut(v).fill(fill);
            true
        }
        Err(()) => false,
    };
    ensure_eq!(r, ok, "slice_from_bytes_mut");
    let mut want = orig.clone();
    if ok {
        want[..need as usize].fill(fill);
    }
    ensure_eq!(b.get(), &want[..], "after slice_from_bytes_mut write");
    b.get_mut().copy_from_slice(&orig);
    let ok = len % T::SIZE == 0 && aligned;
    let r = match slice_from_all_bytes_mut::<T>(b.get_mut()) {
        Ok(v) => {
            ensure_eq!(v.len() * T::SIZE, len, "slice_from_all_bytes_mut len");
            bytes_of_slice_mut(v).fill(fill);
            true
        }
        Err(()) => false,
    };
    ensure_eq!(r, ok, "slice_from_all_bytes_mut");
    if ok {
        ensure!(b.get().iter().all(|x| *x == fill), "slice_from_all_bytes_mut did not cover the slice");
    }
    // no writes outside the slice
    let st: &[u8] = bytes_of_slice(&b.store);
    ensure!(st[..b.shift].iter().chain(&st[b.shift + len..]).all(|x| *x == 0xa5), "write outside the slice");
    b.get_mut().copy_from_slice(&orig);
    Ok(())
}

fn pod_views(g: &mut Gen) -> R {
    let d = data(g);
    let shift = g.range(0, 9);
    let mut b = Buf::new(&d, shift);
    g.nontrivial_if(d.len() >= 2);
    g.sample(|| format!("{} bytes at alignment offset {shift}", d.len()));
    match g.upto(8) {
        0 => pod_for::<u8>(g, &mut b),
        1 => pod_for::<u16>(g, &mut b),
        2 => pod_for::<u32>(g, &mut b),
        3 => pod_for::<u64>(g, &mut b),
        4 => pod_for::<[u8; 3]>(g, &mut b),
        5 => pod_for::<[u16; 3]>(g, &mut b),
        6 => pod_for::<U32<LittleEndian>>(g, &mut b),
        7 => pod_for::<U64<BigEndian>>(g, &mut b),
        _ => pod_for::<I16<Endianness>>(g, &mut b),
    }
}

// ---------------------------------------------------------------- cursor

fn uleb_model(d: &[u8]) -> Option<(Option<u128>, usize)> {
    // None: unterminated. Some((None, _)): value needs more than 10 bytes (not judged exactly).
    let mut v: u128 = 0;
    for (i, b) in d.iter().enumerate() {
        if i >= 10 {
            return Some((None, 0));
        }
        v |= ((b & 0x7f) as u128) << (7 * i);
        if b & 0x80 == 0 {
            return Some((Some(v), i + 1));
        }
    }
    None
}
fn sleb_model(d: &[u8]) -> Option<(Option<i128>, usize)> {
    let mut v: i128 = 0;
    for (i, b) in d.iter().enumerate() {
        if i >= 10 {
            return Some((None, 0));
        }
        v |= ((b & 0x7f) as i128) << (7 * i);
        if b & 0x80 == 0 {
            if b & 0x40 != 0 {
                v |= -1i128 << (7 * (i + 1));
            }
            return Some((Some(v), i + 1));
        }
    }
    None
}

fn cursor_read<T: Val>(cur: &mut Bytes, d: &[u8], p: &mut usize, dead: &mut bool) -> R {
    let rem = &d[*p..];
    let ok = rem.len() >= T::SIZE && (rem.as_ptr() as usize) % T::ALIGN == 0;
    match cur.read::<T>() {
        Ok(v) => {
            ensure!(ok, "read at {p} succeeded with {} bytes left", rem.len());
            ensure_eq!(v.bytes(), rem[..T::SIZE].to_vec(), "read value at {p}");
            *p += T::SIZE;
        }
        Err(()) => {
            ensure!(!ok, "read at {p} failed with {} bytes left", rem.len());
            *dead = true;
        }
    }
    Ok(())
}
fn cursor_slice<T: Val>(cur: &mut Bytes, d: &[u8], p: &mut usize, dead: &mut bool, n: usize) -> R {
    let rem = &d[*p..];
    let need = n as u128 * T::SIZE as u128;
    let ok = need <= rem.len() as u128 && (rem.as_ptr() as usize) % T::ALIGN == 0;
    match cur.read_slice::<T>(n) {
        Ok(v) => {
            ensure!(ok, "read_slice {n} at {p} succeeded with {} bytes left", rem.len());
            ensure_eq!(v.iter().flat_map(|x| x.bytes()).collect::<Vec<_>>(), rem[..need as usize].to_vec(), "read_slice at {p}");
            *p += need as usize;
        }
        Err(()) => {
            ensure!(!ok, "read_slice {n} at {p} failed with {} bytes left", rem.len());
            *dead = true;
        }
    }
    Ok(())
}

fn cursor(g: &mut Gen) -> R {
    let d0 = data(g);
    let shift = g.range(0, 7);
    let b = Buf::new(&d0, shift);
    let d = b.get();
    let mut cur = Bytes(d);
    let mut p = 0usize; // the model: cursor position
    let steps = g.range(1, 8);
    let mut log = String::new();
    let mut done = 0;
    for _ in 0..steps {
        let rem = &d[p..];
        ensure_eq!(cur.0, rem, "remaining bytes at position {p}");
        ensure!(cur.0.as_ptr() == rem.as_ptr() || rem.is_empty(), "cursor not in place");
        ensure_eq!(cur.len(), rem.len(), "len");
        ensure_eq!(cur.is_empty(), rem.is_empty(), "is_empty");
        let mut dead = false;
        let op = g.upto(12);
        log.push_str(&format!("{op} "));
        match op {
            0 => {
                let n = pos(g, rem.len());
                let r = cur.skip(n);
                ensure_eq!(r.is_ok(), n <= rem.len(), "skip {n} of {}", rem.len());
                if r.is_ok() { p += n } else { dead = true }
            }
            1 => {
                let n = pos(g, rem.len());
                match cur.read_bytes(n) {
                    Ok(x) => {
                        ensure!(n <= rem.len(), "read_bytes {n} of {}", rem.len());
                        ensure_eq!(x.0, &rem[..n], "read_bytes");
                        p += n;
                    }
                    Err(()) => {
                        ensure!(n > rem.len(), "read_bytes {n} of {} failed", rem.len());
                        dead = true;
                    }
                }
            }
            2 => {
                let (o, n) = (pos(g, rem.len()), pos(g, rem.len()));
                let want = rem.get(o..).and_then(|x| x.get(..n));
                ensure_eq!(cur.read_bytes_at(o, n).ok().map(|x| x.0), want, "read_bytes_at {o} {n}");
            }
            3 => cursor_read::<u8>(&mut cur, d, &mut p, &mut dead)?,
            4 => cursor_read::<u32>(&mut cur, d, &mut p, &mut dead)?,
            5 => cursor_read::<U64<BigEndian>>(&mut cur, d, &mut p, &mut dead)?,
            6 => {
                let n = pos(g, rem.len() / 2);
                if g.bool() { cursor_slice::<u16>(&mut cur, d, &mut p, &mut dead, n)? } else { cursor_slice::<[u8; 3]>(&mut cur, d, &mut p, &mut dead, n)? }
            }
            7 => {
                let o = pos(g, rem.len());
                let want = rem.get(o..).filter(|x| x.len() >= 4).map(|x| &x[..4]);
                ensure_eq!(cur.read_at::<U32<LittleEndian>>(o).ok().map(|x| x.bytes()), want.map(|x| x.to_vec()), "read_at {o}");
                let n = pos(g, rem.len() / 2);
                let want = rem.get(o..).filter(|x| n as u128 * 2 <= x.len() as u128).map(|x| x[..2 * n].to_vec());
                ensure_eq!(cur.read_slice_at::<I16<Endianness>>(o, n).ok().map(|x| bytes_of_slice(x).to_vec()), want, "read_slice_at {o} {n}");
            }
            8 => {
                let want = rem.iter().position(|x| *x == 0);
                match (cur.read_string(), want) {
                    (Ok(s), Some(n)) => {
                        ensure_eq!(s, &rem[..n], "read_string");
                        p += n + 1;
                    }
                    (Err(()), None) => dead = true,
                    (a, w) => fail!("read_string got {a:?}, terminator at {w:?}"),
                }
            }
            9 => {
                let o = pos(g, rem.len());
                let want = rem.get(o..).and_then(|x| x.iter().position(|y| *y == 0).map(|n| &x[..n]));
                ensure_eq!(cur.read_string_at(o).ok(), want, "read_string_at {o}");
            }
            10 => match (cur.read_uleb128(), uleb_model(rem)) {
                (Ok(v), Some((Some(w), n))) => {
                    ensure!(v as u128 == w, "uleb got {v} expected {w} from {rem:02x?}");
                    p += n;
                }
                (Err(()), Some((Some(w), _))) => {
                    ensure!(w > u64::MAX as u128, "uleb {w} rejected from {rem:02x?}");
                    break;
                }
                (Err(()), None) | (Err(()), Some((None, _))) => break,
                (Ok(v), Some((None, _))) => fail!("over-long uleb accepted as {v}: {rem:02x?}"),
                (Ok(v), None) => fail!("unterminated uleb accepted as {v}: {rem:02x?}"),
            },
            11 => match (cur.read_sleb128(), sleb_model(rem)) {
                (Ok(v), Some((Some(w), n))) => {
                    ensure!(v as i128 == w, "sleb got {v} expected {w} from {rem:02x?}");
                    p += n;
                }
                (Err(()), Some((Some(w), _))) => {
                    ensure!(i64::try_from(w).is_err(), "sleb {w} rejected from {rem:02x?}");
                    break;
                }
                (Err(()), None) | (Err(()), Some((None, _))) => break,
                (Ok(v), Some((None, _))) => fail!("over-long sleb accepted as {v}: {rem:02x?}"),
                (Ok(v), None) => fail!("unterminated sleb accepted as {v}: {rem:02x?}"),
            },
            _ => cursor_read::<[u16; 3]>(&mut cur, d, &mut p, &mut dead)?,
        }
        done += 1;
        if dead {
            // A failed sequential read leaves nothing to read.
            ensure!(cur.is_empty(), "cursor not empty after a failed read");
            break;
        }
    }
    g.nontrivial_if(done >= 2 && p > 0);
    g.sample(|| format!("{} bytes, ops {log}, final position {p}", d.len()));
    // Whatever happened, the cursor still only exposes a suffix of the input.
    let end = d.as_ptr() as usize + d.len();
    ensure!(cur.is_empty() || (cur.0.as_ptr() as usize >= d.as_ptr() as usize && cur.0.as_ptr() as usize + cur.len() == end), "cursor is not a suffix of the input");
    Ok(())
}

fn leb(g: &mut Gen) -> R {
    // Encode a value, canonical or padded, and decode it back with trailing data.
    let signed = g.bool();
    let uv = g.u64();
    let mut enc = vec![];
    let pad = g.chance(1, 3);
    let over = g.chance(1, 6);
    if signed {
        let mut v: i128 = uv as i64 as i128;
        if over {
            v += if v < 0 { -(1i128 << 64) } else { 1i128 << 64 };
        }
        let val = v;
        let mut x = v;
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            let done = (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0);
            enc.push(if done { b } else { b | 0x80 });
            if done { break }
        }
        if pad && enc.len() < 10 {
            let n = g.range(1, 10 - enc.len());
            let f = if v < 0 { 0x7f } else { 0 };
            *enc.last_mut().unwrap() |= 0x80;
            for i in 0..n { enc.push(if i + 1 == n { f } else { f | 0x80 }) }
        }
        let n = enc.len();
        enc.extend_from_slice(&[0x81, 0x01][..g.range(0, 2)]);
        let mut b = Bytes(&enc);
        let r = b.read_sleb128();
        g.sample(|| format!("sleb {val} {enc:02x?}"));
        if n <= 10 && i64::try_from(val).is_ok() {
            ensure_eq!(r, Ok(val as i64), "sleb of {enc:02x?}");
            ensure_eq!(b.len(), enc.len() - n, "sleb consumed bytes of {enc:02x?}");
        } else {
            ensure!(r.is_err(), "sleb overflow accepted: {enc:02x?}");
        }
    } else {
        let v: u128 = uv as u128 + if over { 1u128 << 64 } else { 0 };
        let mut x = v;
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            enc.push(if x == 0 { b } else { b | 0x80 });
            if x == 0 { break }
        }
        if pad && enc.len() < 10 {
            let n = g.range(1, 10 - enc.len());
            *enc.last_mut().unwrap() |= 0x80;
            for i in 0..n { enc.push(if i + 1 == n { 0 } else { 0x80 }) }
        }
        let n = enc.len();
        enc.extend_from_slice(&[0x81, 0x01][..g.range(0, 2)]);
        let mut b = Bytes(&enc);
        let r = b.read_uleb128();
        g.sample(|| format!("uleb {v} {enc:02x?}"));
        if n <= 10 && v <= u64::MAX as u128 {
            ensure_eq!(r, Ok(v as u64), "uleb of {enc:02x?}");
            ensure_eq!(b.len(), enc.len() - n, "uleb consumed bytes of {enc:02x?}");
        } else {
            ensure!(r.is_err(), "uleb overflow accepted: {enc:02x?}");
        }
    }
    g.nontrivial_if(enc.len() > 1);
    g.label_if(over, "overflow");
    g.label_if(enc.len() >= 10, "ten bytes");
    Ok(())
}

// ---------------------------------------------------------------- ReadRef on slices, string tables

fn readref<'a, S: ReadRef<'a>>(g: &mut Gen, r: S, d: &[u8]) -> R {
    let n = d.len();
    ensure_eq!(r.len(), Ok(n as u64), "len");
    let (o, c) = (pos(g, n), pos(g, n));
    let want = |o: usize, c: usize| d.get(o..).and_then(|x| x.get(..c));
    let w = if c == 0 { Some(&[][..]) } else { want(o, c) };
    ensure_eq!(r.read_bytes_at(o as u64, c as u64).ok(), w, "read_bytes_at {o} {c} of {n}");
    let mut off = o as u64;
    let got = r.read_bytes(&mut off, c as u64).ok();
    ensure_eq!(got, w, "read_bytes {o} {c} of {n}");
    if w.is_some() {
        ensure_eq!(off, (o as u64).wrapping_add(c as u64), "offset after read_bytes");
    }
    let delim = g.upto(3) as u8;
    let (s, e) = (pos(g, n), pos(g, n));
    let w = if s <= e && e <= n { d[s..e].iter().position(|x| *x == delim).map(|k| &d[s..s + k]) } else { None };
    ensure_eq!(r.read_bytes_at_until(s as u64..e as u64, delim).ok(), w, "read_bytes_at_until {s}..{e} {delim} of {n}");
    let mut off = o as u64;
    let got = r.read::<U32<LittleEndian>>(&mut off).ok().map(|x| x.bytes());
    ensure_eq!(got, want(o, 4).map(|x| x.to_vec()), "read {o} of {n}");
    if got.is_some() {
        ensure_eq!(off, o as u64 + 4, "offset after read");
    }
    ensure_eq!(r.read_at::<U64<BigEndian>>(o as u64).ok().map(|x| x.bytes()), want(o, 8).map(|x| x.to_vec()), "read_at {o}");
    let cnt = pos(g, n / 2);
    let w = if cnt == 0 { Some(vec![]) } else { cnt.checked_mul(2).and_then(|c| want(o, c)).map(|x| x.to_vec()) };
    let mut off = o as u64;
    let got = r.read_slice::<I16<LittleEndian>>(&mut off, cnt).ok().map(|x| bytes_of_slice(x).to_vec());
    ensure_eq!(got, w, "read_slice {o} {cnt} of {n}");
    if got.is_some() {
        ensure_eq!(off, (o as u64).wrapping_add(2 * cnt as u64), "offset after read_slice");
    }
    ensure_eq!(r.read_slice_at::<I16<LittleEndian>>(o as u64, cnt).ok().map(|x| bytes_of_slice(x).to_vec()), w, "read_slice_at {o} {cnt}");
    // string table over a sub-range
    let (s, e) = (pos(g, n) as u64, pos(g, n) as u64);
    let t = StringTable::new(r, s, e);
    let off = pos(g, n) as u32;
    let w = s.checked_add(off as u64).and_then(|a| {
        if a <= e && e <= n as u64 { d[a as usize..e as usize].iter().position(|x| *x == 0).map(|k| &d[a as usize..a as usize + k]) } else { None }
    });
    ensure_eq!(t.get(off).ok(), w, "StringTable({s}..{e}).get({off}) of {n}");
    let z: StringTable<S> = StringTable::default();
    ensure!(z.get(off).is_err(), "empty string table returned a string");
    g.nontrivial_if(n >= 4);
    g.label_if(w.is_some(), "string found");
    g.sample(|| format!("{n} bytes, string table {s}..{e} offset {off}"));
    Ok(())
}
fn slices(g: &mut Gen) -> R {
    let d = data(g);
    readref(g, &d[..], &d)
}
fn cached(g: &mut Gen) -> R {
    // The same single-call contract through a fresh cache (histories are C02's).
    let d = data(g);
    let c = ReadCache::new(std::io::Cursor::new(d.clone()));
    let n = d.len();
    let (o, k) = (pos(g, n), pos(g, n));
    let w = if k == 0 { Some(&[][..]) } else { d.get(o..).and_then(|x| x.get(..k)) };
    ensure_eq!((&c).read_bytes_at(o as u64, k as u64).ok(), w, "ReadCache read_bytes_at {o} {k} of {n}");
    g.nontrivial_if(w.is_some_and(|x| !x.is_empty()));
    g.sample(|| format!("cache of {n} bytes, read {o}+{k}"));
    Ok(())
}

fn main() {
    run(
        "C03",
        "buffers of 0..40 bytes at every alignment, with offsets and counts drawn around the boundaries; non-trivial = at least two successful cursor operations, a multi-byte LEB128, or a buffer large enough for a view",
        &["64-bit host"],
        &[
            sub("pod", 300_000, 6_000_000, pod_views),
            sub("cursor", 400_000, 8_000_000, cursor),
            sub("leb", 400_000, 8_000_000, leb),
            sub("slices", 400_000, 8_000_000, slices),
            sub("cached", 30_000, 600_000, cached),
        ],
    )
}
