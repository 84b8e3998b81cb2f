//! C25: every output sink receives the same complete, pre-announced bytes.
use object::write::{CountingBuffer, StreamingBuffer, WritableBuffer, WritableBufferExt};
use object::{BigEndian, LittleEndian};
use std::io;
use vh::sink::*;
use vh::wobj::W;
use vh::*;

#[allow(dead_code)]
#[path = "c21.rs"]
mod c21;
#[allow(dead_code)]
#[path = "c22.rs"]
mod c22;
#[allow(dead_code)]
#[path = "c23.rs"]
mod c23;
#[allow(dead_code)]
#[path = "c24.rs"]
mod c24;

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::UnexpectedEof];

fn fault(g: &mut Gen, n: usize) -> Fault {
    let at = match g.upto(3) {
        0 => 0,
        1 => n as u64 - 1,
        _ => g.upto(n as u64 - 1),
    };
    match g.upto(5) {
        0 => Fault::Flush,
        1 => Fault::Zero(at),
        _ => Fault::Error(at, g.pickc(KINDS)),
    }
}

/// What a stream was given by `write`, with or without a fault.
fn streams(g: &mut Gen, v: &[u8], write: &dyn Fn(&mut Stream) -> Result<(), Option<io::ErrorKind>>) -> R {
    let mut s = Stream::new(g, Fault::None);
    if let Err(e) = write(&mut s) {
        fail!("writing to a stream: {e:?}");
    }
    ensure!(s.data == v, "a stream receives other bytes than the vector");
    ensure!(s.dirty == 0 && s.flushes > 0, "the stream is not flushed at the end");
    if v.is_empty() {
        return Ok(());
    }
    let f = fault(g, v.len());
    let mut s = Stream::new(g, f);
    let r = write(&mut s);
    ensure!(s.failed, "the stream was not written to the end");
    match (f, r) {
        (_, Ok(())) => fail!("a failing stream is not reported: {f:?} of {}", v.len()),
        (Fault::Error(_, k), Err(e)) => ensure_eq!(e, Some(k), "error reported for {f:?}"),
        (Fault::Zero(_), Err(e)) => ensure_eq!(e, Some(io::ErrorKind::WriteZero), "error reported for {f:?}"),
        (_, Err(e)) => ensure_eq!(e, Some(io::ErrorKind::Other), "error reported for {f:?}"),
    }
    let want = match f {
        Fault::Error(at, _) | Fault::Zero(at) => at as usize,
        _ => v.len(),
    };
    ensure!(s.data == v[..want], "a failing stream received {} bytes: {f:?} of {}", s.data.len(), v.len());
    ensure_eq!(s.after_failure, 0, "writes after the failure");
    g.label(match f {
        Fault::Flush => "flush fails",
        Fault::Zero(_) => "stream full",
        _ => "write fails",
    });
    Ok(())
}
fn kind_of(e: Box<dyn std::error::Error>) -> Option<io::ErrorKind> {
    e.downcast_ref::<io::Error>().map(|e| e.kind())
}

fn random(g: &mut Gen) -> R<W> {
    let n = g.pickc(&[4usize, 12, 40]);
    match g.upto(3) {
        0 => c21::random(g, n),
        1 => c22::random(g, n),
        2 => c23::random(g, n),
        _ => c24::random(g, n),
    }
}

/// Every sink for one object.
fn objects(g: &mut Gen) -> R {
    let w = random(g)?;
    let o = &w.obj;
    let r = o.write();
    g.sample(|| format!("{:?} {:?} is64={} be={}: {:?} bytes", w.fmt, w.arch, w.is64, w.be, r.as_ref().map(|v| v.len())));
    let emit = |b: &mut dyn WritableBuffer| o.emit(b).map_err(|e| e.to_string());
    let Ok(v) = r else {
        let e = r.unwrap_err().to_string();
        let mut b = vec![];
        ensure_eq!(emit(&mut b), Err(e.clone()), "error from another vector");
        let mut b = Recorder::new();
        ensure_eq!(emit(&mut b), Err(e.clone()), "error from another buffer");
        let mut s = Stream::new(g, Fault::None);
        match o.write_stream(&mut s) {
            Ok(()) => fail!("write_stream succeeded where write failed with {e}"),
            Err(e2) => ensure_eq!(e2.to_string(), e, "error from a stream"),
        }
        g.label("error");
        return Ok(());
    };
    let mut b = vec![];
    ensure_eq!(emit(&mut b), Ok(()), "emit to a vector");
    ensure!(b == v, "a repeated write differs");
    recorded(g, &v, &emit)?;
    slices(g, &v, &emit)?;
    streams(g, &v, &|s| o.write_stream(s).map_err(kind_of))?;
    // A buffered stream.
    let cap = g.pickc(&[1usize, 16, 100, 8192]);
    streams(g, &v, &|s| o.write_stream(io::BufWriter::with_capacity(cap, Unbuffered(s))).map_err(kind_of))?;
    streams(g, &v, &|s| {
        let mut b = StreamingBuffer::new(s);
        let r = o.emit(&mut b).map_err(|_| None);
        let f = b.flush().map_err(|e| Some(e.kind()));
        // The error is reported once.
        if f.is_err() && b.result().is_err() {
            return Ok(());
        }
        r.and(f)
    })?;
    // A counting buffer in between.
    let mut c = CountingBuffer::new(Recorder::new());
    ensure_eq!(emit(&mut c), Ok(()), "emit to a counting buffer");
    ensure_eq!(c.count(), v.len() as u64, "count");
    let r = c.into_inner();
    r.check()?;
    ensure!(r.data == v, "a counted buffer receives other bytes");
    ensure_eq!(o.write().ok().as_ref() == Some(&v), true, "the last write equals the first");
    g.nontrivial_if(!w.secs.is_empty() && !w.syms.is_empty());
    Ok(())
}
/// `BufWriter` retries what it holds when it is dropped; that is not the crate's doing.
struct Unbuffered<'a>(&'a mut Stream);
impl io::Write for Unbuffered<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0.failed {
            return Err(io::ErrorKind::Other.into());
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

/// Histories of the buffer operations.
fn run_ops(g: &mut Gen, b: &mut dyn WritableBuffer, room: usize) -> R<Vec<u8>> {
    let mut c = CountingBuffer::new(b);
    let mut m: Vec<u8> = vec![];
    for _ in 0..g.len(14) {
        let before = m.len();
        match g.upto(10) {
            0 | 1 => {
                let d = g.blob(60);
                m.extend_from_slice(&d);
                if m.len() <= room {
                    c.write_bytes(&d);
                }
            }
            2 | 3 => {
                let n = if g.bool() { g.upto(20) } else { g.pickc(&[1023u64, 1024, 1025, 2048, 3000, 2047]) };
                m.resize(m.len() + n as usize, 0);
                if m.len() <= room {
                    c.write_zeros(n);
                }
            }
            4 => {
                let n = m.len() + if g.bool() { g.upto(30) as usize } else { g.upto(3000) as usize };
                m.resize(n, 0);
                if n <= room {
                    c.resize(n as u64);
                }
            }
            5 => {
                let a = 1u64 << g.upto(12);
                m.resize(m.len().next_multiple_of(a as usize), 0);
                if m.len() <= room {
                    c.write_align(a);
                }
            }
            6 => {
                let x = g.u16();
                let be = g.bool();
                m.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
                if m.len() <= room {
                    if be { c.write_u16(BigEndian, x) } else { c.write_u16(LittleEndian, x) }
                }
            }
            7 => {
                let x = g.u32();
                let be = g.bool();
                m.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
                if m.len() <= room {
                    c.write_u32(if be { object::Endianness::Big } else { object::Endianness::Little }, x)
                }
            }
            8 => {
                let x = g.u64();
                let be = g.bool();
                m.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
                if m.len() <= room {
                    c.write_u64(if be { object::Endianness::Big } else { object::Endianness::Little }, x)
                }
            }
            9 => {
                let x = object::U32::new(BigEndian, g.u32());
                m.extend_from_slice(&x.get(BigEndian).to_be_bytes());
                if m.len() <= room {
                    c.write_pod(&x);
                }
            }
            _ => {
                let n = g.len(5);
                let x: Vec<_> = (0..n).map(|_| object::U16::new(LittleEndian, g.u16())).collect();
                for y in &x {
                    m.extend_from_slice(&y.get(LittleEndian).to_le_bytes());
                }
                if m.len() <= room {
                    c.write_pod_slice(&x);
                }
            }
        }
        if m.len() > room {
            // Beyond a fixed buffer: a precondition.
            m.truncate(before);
        }
        ensure_eq!(c.count(), m.len() as u64, "count");
    }
    Ok(m)
}
/// Counts what it is given.
#[derive(Default)]
struct Null(u64, u64);
impl WritableBuffer for Null {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.1 = size;
        if size >> 63 == 0 { Ok(()) } else { Err(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.0 += val.len() as u64;
    }
    fn write_zeros(&mut self, n: u64) {
        self.0 += n;
    }
}

/// Counts beyond what fits in memory.
fn counting(g: &mut Gen) -> R {
    let mut c = CountingBuffer::new(Null::default());
    let mut m = 0u64;
    for _ in 0..g.range(1, 8) {
        match g.upto(4) {
            0 => {
                let n = g.uint(50);
                c.write_zeros(n);
                m += n;
            }
            1 => {
                m += g.uint(50);
                c.resize(m);
            }
            2 => {
                let a = 1u64 << g.upto(50);
                c.write_align(a);
                m = (m + (a - 1)) & !(a - 1);
            }
            3 => {
                let n = g.uint(64);
                ensure_eq!(WritableBuffer::reserve(&mut c, n).is_ok(), n >> 63 == 0, "reserve {n:#x}");
            }
            _ => {
                let d = g.blob(40);
                c.write_bytes(&d);
                m += d.len() as u64;
            }
        }
        ensure_eq!(c.count(), m, "count");
    }
    let n = c.into_inner();
    ensure_eq!(n.0, m, "bytes that arrived");
    g.label_if(m >> 32 != 0, "beyond 4 GiB");
    g.nontrivial_if(m > 100);
    g.sample(|| format!("{m:#x} bytes"));
    Ok(())
}

fn buffers(g: &mut Gen) -> R {
    if g.chance(1, 8) {
        return counting(g);
    }
    let m = match g.upto(3) {
        0 => {
            let mut v = vec![];
            let m = run_ops(g, &mut v, usize::MAX)?;
            ensure!(v == m, "vector contents");
            m
        }
        1 => {
            let n = g.uint(13) as usize;
            let mut d = vec![0xa5; n];
            let mut s = &mut d[..];
            let ask = match g.upto(3) {
                0 | 1 => n as u64,
                2 => g.uint(14),
                _ => g.uint(64),
            };
            let r = WritableBuffer::reserve(&mut s, ask);
            ensure_eq!(r.is_ok(), ask <= n as u64, "reserve {ask} of {n}");
            let m = run_ops(g, &mut s, n)?;
            ensure_eq!(s.len(), n - m.len(), "rest of the slice");
            ensure!(d[..m.len()] == m[..] && d[m.len()..].iter().all(|&b| b == 0xa5), "slice contents");
            m
        }
        2 => {
            let mut r = Recorder { default_zeros: g.bool(), ..Recorder::new() };
            let m = run_ops(g, &mut &mut r, usize::MAX)?;
            ensure!(r.data == m, "buffer contents");
            ensure!(r.reserves.is_empty(), "unrequested announcement");
            m
        }
        _ => {
            let at = g.uint(12);
            let f = g.pickc(&[Fault::None, Fault::Error(at, io::ErrorKind::Other), Fault::Zero(at), Fault::Flush]);
            let mut s = Stream::new(g, f);
            let mut b = StreamingBuffer::new(&mut s);
            let m = run_ops(g, &mut b, usize::MAX)?;
            let (r, fl) = (b.result(), b.flush());
            let n = match f {
                Fault::Error(..) | Fault::Zero(_) => (at as usize).min(m.len()),
                _ => m.len(),
            };
            ensure!(s.data == m[..n], "stream contents: {} bytes, {f:?} of {}", s.data.len(), m.len());
            ensure_eq!(r.is_err(), n < m.len(), "result for {f:?} of {}", m.len());
            ensure_eq!(fl.is_err(), f == Fault::Flush, "flush after the result was taken");
            ensure_eq!(s.after_failure, 0, "writes after the failure");
            m
        }
    };
    g.nontrivial_if(m.len() > 8);
    g.sample(|| format!("{} bytes", m.len()));
    Ok(())
}

/// Every sink for the builders, and the rewriter's stream.
fn builders(g: &mut Gen) -> R {
    let macho = g.bool();
    let image = if macho {
        let object = g.bool();
        let m = vh::machomodel::gen_model(g, object);
        let page = if object { 0 } else { g.pickc(&[0x10, 0x1000]) };
        m.encode(g, page)
    } else {
        vh::elfmodel::gen_model(g).encode(g)
    };
    g.file(&image)?;
    let emit = |b: &mut dyn WritableBuffer| -> Result<(), String> {
        if macho {
            object::build::macho::Builder::read(&*image).map_err(|e| e.to_string())?.write(b).map_err(|e| e.to_string())
        } else {
            object::build::elf::Builder::read(&*image).map_err(|e| e.to_string())?.write(b).map_err(|e| e.to_string())
        }
    };
    let mut v = vec![];
    if emit(&mut v).is_err() {
        let mut b = Recorder::new();
        ensure!(emit(&mut b).is_err(), "only a vector is refused");
        ensure!(b.data.is_empty(), "{} bytes written before an error", b.data.len());
        return Ok(());
    }
    recorded(g, &v, &emit)?;
    slices(g, &v, &emit)?;
    streams(g, &v, &|s| {
        let mut b = StreamingBuffer::new(s);
        let r = emit(&mut b).map_err(|_| None);
        let f = b.flush().map_err(|e| Some(e.kind()));
        if f.is_err() && b.result().is_err() {
            return Ok(());
        }
        r.and(f)
    })?;
    let rewrite = |w: &mut dyn io::Write| match object_rewrite::Rewriter::read(&image).and_then(|r| r.write(w)) {
        Ok(()) => Ok(()),
        Err(e) => match e.kind() {
            object_rewrite::ErrorKind::Io(k) => Err(Some(k)),
            _ => Err(None),
        },
    };
    streams(g, &v, &|s| rewrite(s))?;
    let cap = g.pickc(&[1usize, 16, 100, 8192]);
    streams(g, &v, &|s| rewrite(&mut io::BufWriter::with_capacity(cap, Unbuffered(s))))?;
    g.label(if macho { "Mach-O" } else { "ELF" });
    g.nontrivial_if(v.len() > 500);
    g.sample(|| format!("{} bytes in, {} bytes out", image.len(), v.len()));
    Ok(())
}

fn main() {
    run(
        "C25",
        "the object has sections and symbols; the rewritten file has more than 500 bytes; the history writes more than 8 bytes",
        &["a fixed-size buffer is only written within the announced size; objects follow the preconditions of C21 to C24"],
        &[sub("objects", 100000, 4000000, objects), sub("builders", 30000, 1500000, builders), sub("buffers", 200000, 6000000, buffers)],
    );
}
