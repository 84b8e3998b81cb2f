//! C02: reading through a stream cache equals reading from memory.
use object::endian::*;
use object::pod::*;
use object::read::{ReadCache, ReadCacheRange, ReadRef};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::ops::Range;
use std::rc::Rc;
use vh::*;

#[path = "../images.rs"]
mod images;

/// A stream whose individual reads are short according to a script, and which fails on command.
struct Stream {
    data: Vec<u8>,
    pos: u64,
    chunks: Vec<usize>,
    next: usize,
    ctl: Rc<RefCell<Ctl>>,
}
#[derive(Default)]
struct Ctl {
    /// Operations until a fault; None = never.
    fail_in: Option<u64>,
    kind: u8,
    fired: bool,
    ops: u64,
}
impl Stream {
    fn fault(&mut self) -> io::Result<bool> {
        let mut c = self.ctl.borrow_mut();
        c.ops += 1;
        if let Some(n) = c.fail_in {
            if n == 0 {
                c.fail_in = None;
                c.fired = true;
                if c.kind == 0 {
                    return Err(io::Error::other("injected"));
                }
                return Ok(true); // premature end of stream
            }
            c.fail_in = Some(n - 1);
        }
        Ok(false)
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fault()? {
            return Ok(0);
        }
        let avail = self.data.len().saturating_sub(self.pos as usize);
        let mut n = buf.len().min(avail);
        if !self.chunks.is_empty() && n > 0 {
            n = n.min(self.chunks[self.next % self.chunks.len()].max(1));
            self.next += 1;
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        // A reader may use the whole buffer as scratch space.
        for b in buf[n..].iter_mut().take(64) {
            *b = 0;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Stream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if self.fault()? {
            return Err(io::Error::other("injected seek failure"));
        }
        let n = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(io::Error::other("bad seek"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

fn pos(g: &mut Gen, n: u64, hot: &[u64]) -> u64 {
    match g.upto(9) {
        0..=3 => g.range64(0, n),
        4..=6 if !hot.is_empty() => hot[g.below(hot.len())].saturating_add(g.upto(3)).saturating_sub(1),
        7 => n.wrapping_add(g.upto(3)).wrapping_sub(1),
        8 => u64::MAX - g.upto(9),
        _ => g.u64(),
    }
}

fn content(g: &mut Gen) -> Vec<u8> {
    match g.upto(7) {
        0 => vec![],
        1..=4 => {
            let n = g.range(1, 60);
            (0..n).map(|_| if g.chance(1, 4) { 0 } else { 1 + g.upto(5) as u8 }).collect()
        }
        5 => {
            let n = g.range(200, 900);
            let mut v: Vec<u8> = (0..n).map(|i| (1 + i % 250) as u8).collect();
            for _ in 0..g.upto(4) {
                let p = g.below(n);
                v[p] = 0;
            }
            v
        }
        _ => {
            // around the 256 byte steps and the 4096 byte limit of delimited reads
            let k = g.pickc(&[255usize, 256, 257, 511, 512, 513, 4094, 4095, 4096, 4097, 4098, 5000]);
            let pre = g.range(0, 3);
            let mut v = vec![b'x'; pre + k];
            for (i, b) in v.iter_mut().enumerate() {
                *b = 1 + (i % 251) as u8;
            }
            v.push(0);
            let tail = g.range(0, 300);
            v.extend(std::iter::repeat_n(7, tail));
            v
        }
    }
}

struct Held<'a> {
    got: &'a [u8],
    copy: Vec<u8>,
    what: String,
}

/// A view: the whole cache, or a sub-range of it.
#[derive(Clone, Copy)]
enum View<'a> {
    All(&'a ReadCache<Stream>),
    Sub(ReadCacheRange<'a, Stream>),
}
impl<'a> View<'a> {
    fn len(self) -> Result<u64, ()> {
        match self {
            View::All(r) => r.len(),
            View::Sub(r) => r.len(),
        }
    }
    fn at(self, o: u64, n: u64) -> Result<&'a [u8], ()> {
        match self {
            View::All(r) => r.read_bytes_at(o, n),
            View::Sub(r) => r.read_bytes_at(o, n),
        }
    }
    fn until(self, r: Range<u64>, d: u8) -> Result<&'a [u8], ()> {
        match self {
            View::All(c) => c.read_bytes_at_until(r, d),
            View::Sub(c) => c.read_bytes_at_until(r, d),
        }
    }
    fn slice(self, o: u64, n: usize) -> Result<&'a [U16<LittleEndian>], ()> {
        match self {
            View::All(r) => r.read_slice_at(o, n),
            View::Sub(r) => r.read_slice_at(o, n),
        }
    }
    fn pod(self, o: u64) -> Result<&'a U32<BigEndian>, ()> {
        match self {
            View::All(r) => r.read_at(o),
            View::Sub(r) => r.read_at(o),
        }
    }
}

fn history(g: &mut Gen) -> R {
    go(g, false)
}
fn faults(g: &mut Gen) -> R {
    go(g, true)
}

fn go(g: &mut Gen, faults: bool) -> R {
    let data = content(g);
    let n = data.len() as u64;
    let nc = g.len(4);
    let chunks: Vec<usize> = (0..nc).map(|_| g.pickc(&[1usize, 2, 3, 7, 100, 255, 256, 300, 4096])).collect();
    let ctl = Rc::new(RefCell::new(Ctl::default()));
    let stream = Stream { data: data.clone(), pos: g.upto(5), chunks: chunks.clone(), next: 0, ctl: ctl.clone() };
    let mut cache = ReadCache::new(stream);
    let rounds = if g.chance(1, 8) { 2 } else { 1 };
    let mut hot: Vec<u64> = data.iter().enumerate().filter(|x| *x.1 == 0).map(|x| x.0 as u64).take(6).collect();
    let mut steps = 0;
    let mut shared = 0;
    let mut starts: Vec<(u64, u8)> = vec![];
    let mut log = String::new();
    for round in 0..rounds {
        let mut held: Vec<Held> = vec![];
        // views: (offset, size)
        let mut views: Vec<(u64, u64, View)> = vec![(0, n, View::All(&cache))];
        for _ in 0..g.upto(2) {
            let o = if g.chance(1, 10) { g.u64() } else { g.range64(0, n) };
            let s = if g.chance(1, 8) { g.u64() } else { g.range64(0, n.saturating_sub(o)) };
            views.push((o, s, View::Sub(cache.range(o, s))));
        }
        let k = g.range(2, 12);
        for _ in 0..k {
            let vi = g.below(views.len());
            let (vo, vs, v) = views[vi];
            let whole = vi == 0;
            // The bytes this view can see.
            let vis: &[u8] = if vo <= n { &data[vo as usize..vo.saturating_add(vs).min(n) as usize] } else { &[] };
            let get = |o: u64, c: u64| -> Option<&[u8]> {
                if c == 0 {
                    return Some(&[]);
                }
                let e = o.checked_add(c)?;
                if e > vs || e > vis.len() as u64 { None } else { Some(&vis[o as usize..e as usize]) }
            };
            if faults && g.chance(1, 2) {
                let mut c = ctl.borrow_mut();
                c.fail_in = Some(g.upto(3));
                c.kind = g.upto(1) as u8;
            }
            ctl.borrow_mut().fired = false;
            steps += 1;
            let local: Vec<u64> = hot.iter().filter(|h| **h >= vo).map(|h| h - vo).collect();
            // Result and model; `lim` marks the documented string length exception.
            let (what, got, want, lim): (String, Result<Option<&[u8]>, ()>, Option<&[u8]>, bool) = match g.upto(6) {
                0 => {
                    let r = v.len();
                    let fired = ctl.borrow().fired;
                    ensure!(r == Ok(vs) || (whole && fired && r.is_err()), "len of view {vo}+{vs}: {r:?}");
                    continue;
                }
                1 | 2 => {
                    let o = pos(g, vs.min(n), &local);
                    let c = if g.bool() { g.upto(8) } else { pos(g, vs.min(n), &local) };
                    hot.push(vo.wrapping_add(o));
                    (format!("view {vo}+{vs} read_bytes_at {o} {c}"), v.at(o, c).map(Some), get(o, c), false)
                }
                3 => {
                    let o = pos(g, vs.min(n), &local);
                    (format!("view {vo}+{vs} read_at {o}"), v.pod(o).map(|x| Some(bytes_of(x))), get(o, 4), false)
                }
                4 => {
                    let o = pos(g, vs.min(n), &local);
                    let c = pos(g, vs.min(n) / 2, &[]);
                    let want = c.checked_mul(2).and_then(|c| get(o, c));
                    (format!("view {vo}+{vs} read_slice_at {o} {c}"), v.slice(o, c as usize).map(|x| Some(bytes_of_slice(x))), want, false)
                }
                _ => {
                    let reuse = !starts.is_empty() && g.chance(1, 2);
                    let (s, d) = if reuse {
                        let (s, d) = starts[g.below(starts.len())];
                        (s.wrapping_sub(vo), d)
                    } else {
                        (pos(g, vs.min(n), &local), if g.chance(3, 4) { 0 } else { g.upto(6) as u8 })
                    };
                    let e = if g.chance(1, 3) { vs } else { pos(g, vs.min(n), &local) };
                    if s <= n && starts.iter().any(|x| *x == (vo.wrapping_add(s), d)) {
                        shared += 1;
                    }
                    starts.push((vo.wrapping_add(s), d));
                    let ok = s <= e && e <= vs && e <= vis.len() as u64;
                    let w = if ok { vis[s as usize..e as usize].iter().position(|x| *x == d).map(|p| &vis[s as usize..s as usize + p]) } else { None };
                    let lim = w.is_some_and(|w| w.len() >= 4096);
                    (format!("view {vo}+{vs} read_bytes_at_until {s}..{e} {d}"), v.until(s..e, d).map(Some), w, lim)
                }
            };
            log.push_str(&what);
            log.push_str("; ");
            let fired = ctl.borrow().fired;
            g.label_if(fired, "fault hit");
            match (got, want) {
                (Ok(Some(a)), Some(b)) => {
                    ensure!(a == b, "{what}: got {} expected {}", dbg(&a), dbg(&b));
                    held.push(Held { got: a, copy: b.to_vec(), what });
                }
                (Ok(a), w) => fail!("{what} of {n} bytes: got {} expected {}", dbg(&a), dbg(&w)),
                (Err(()), None) => {}
                (Err(()), Some(w)) => ensure!(fired || lim, "{what} of {n} bytes: got an error, expected {}", dbg(&w)),
            }
            if !fired {
                ctl.borrow_mut().fail_in = None;
            }
        }
        // Everything handed out is still intact.
        for h in &held {
            ensure!(h.got == &h.copy[..], "{}: data changed after later reads: {}", h.what, dbg(&h.got));
        }
        g.label_if(held.len() >= 3, "three or more live references");
        drop(held);
        if round + 1 < rounds {
            cache.clear();
            g.label("cleared");
        }
    }
    ensure_eq!(cache.into_inner().data, data, "stream contents");
    g.label_if(shared > 0, "delimited read at a cached start");
    g.nontrivial_if(steps >= 3 && n > 0);
    g.sample(|| format!("{n} bytes, chunks {chunks:?}: {log}"));
    Ok(())
}

/// Whole files give the same results through a cache, a range of one, and memory.
fn files(g: &mut Gen) -> R {
    let archive = g.chance(1, 8);
    let mut v = if archive { g.capture(images::archives).into_iter().next().unwrap_or_default() } else { images::object(g) };
    if v.len() < 4000 && g.chance(1, 3) {
        let k = g.range(1, 3);
        images::mutate(g, &mut v, k);
        g.label("damaged");
    }
    let nc = g.len(4);
    let chunks: Vec<usize> = (0..nc).map(|_| g.pickc(&[1usize, 2, 3, 7, 100, 255, 256, 300, 4096])).collect();
    let (pre, post) = (g.pickc(&[0usize, 1, 8, 37, 256]), g.upto(20) as usize);
    let mut data = g.bytes(pre);
    data.extend(&v);
    let x = g.bytes(post);
    data.extend(x);
    let stream = |data: Vec<u8>| Stream { data, pos: 0, chunks: chunks.clone(), next: 0, ctl: Rc::default() };
    let (a, b) = (ReadCache::new(stream(v.clone())), ReadCache::new(stream(data)));
    let r = b.range(pre as u64, v.len() as u64);
    fn show<'d, T: ReadRef<'d>>(archive: bool, t: T) -> Option<Vec<String>> {
        if !archive {
            return object::File::parse(t).ok().map(|f| dump::dump(&f));
        }
        let f = object::read::archive::ArchiveFile::parse(t).ok()?;
        let mut out = vec![format!("{:?} {}", f.kind(), f.is_thin())];
        for m in f.members().take(50) {
            out.push(match m {
                Ok(m) => format!("{:x?} {:?} {:?} {:?} {:?} {:?} {:x?} {:x?}", m.name(), m.date(), m.uid(), m.gid(), m.mode(), m.file_range(), m.data(t).ok(), m.is_thin()),
                Err(_) => "error".into(),
            });
        }
        match f.symbols() {
            Ok(Some(s)) => {
                for y in s.take(50) {
                    out.push(match y {
                        Ok(y) => format!("{:x?} {:?} {:?}", y.name(), y.offset(), f.member(y.offset()).ok().map(|m| m.name().to_vec())),
                        Err(_) => "error".into(),
                    });
                }
            }
            Ok(None) => {}
            Err(_) => out.push("symbols error".into()),
        }
        Some(out)
    }
    let want = show(archive, &v[..]);
    g.nontrivial_if(want.is_some());
    g.sample(|| format!("{} bytes, chunks {chunks:?}", v.len()));
    for (what, got) in [("cache", show(archive, &a)), ("range", show(archive, r))] {
        match (&got, &want) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                if let Some(d) = dump::differ(a, b) {
                    fail!("file read through a {what}: {d}");
                }
            }
            _ => fail!("{what} parses: {}, memory parses: {}", got.is_some(), want.is_some()),
        }
    }
    Ok(())
}

fn main() {
    run(
        "C02",
        "histories of 2..24 reads through a cache and sub-range views of it, over 0..5400 byte streams with scripted short reads, with and without injected stream failures; and whole files of every format; non-trivial = at least three reads of a non-empty stream, or a file that parses",
        &["a delimited string of 4096 bytes or more may fail (documented limit)", "with an injected fault a read may fail but must not return other data"],
        &[sub("history", 250_000, 5_000_000, history), sub("faults", 120_000, 2_000_000, faults), sub("files", 60_000, 6_000_000, files)],
    )
}
