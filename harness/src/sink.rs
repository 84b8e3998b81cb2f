//! Output sinks that record what they are given, or fail.
use crate::engine::*;
use crate::{ensure, ensure_eq};
use object::write::WritableBuffer;
use std::io;

/// Records the announcements and the bytes; refuses announcements above `limit`.
pub struct Recorder {
    pub data: Vec<u8>,
    /// (size announced, bytes written before)
    pub reserves: Vec<(u64, usize)>,
    pub limit: u64,
    /// Use the trait's own `write_zeros`.
    pub default_zeros: bool,
}
impl Recorder {
    pub fn new() -> Recorder {
        Recorder { data: vec![], reserves: vec![], limit: u64::MAX, default_zeros: true }
    }
    /// One announcement, before any bytes, of exactly the bytes written.
    pub fn check(&self) -> R {
        ensure_eq!(self.reserves, vec![(self.data.len() as u64, 0)], "(announced size, bytes written before) of {} bytes", self.data.len());
        Ok(())
    }
}
impl Default for Recorder {
    fn default() -> Self {
        Self::new()
    }
}
impl WritableBuffer for Recorder {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.reserves.push((size, self.data.len()));
        if size > self.limit { Err(()) } else { Ok(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.data.extend_from_slice(val);
    }
    fn write_zeros(&mut self, n: u64) {
        if self.default_zeros {
            let mut inner = Inner(&mut self.data);
            inner.write_zeros(n);
        } else {
            self.data.resize(self.data.len() + n as usize, 0);
        }
    }
}
struct Inner<'a>(&'a mut Vec<u8>);
impl WritableBuffer for Inner<'_> {
    fn reserve(&mut self, _: u64) -> Result<(), ()> {
        Ok(())
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.0.extend_from_slice(val);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// The write that would go beyond this many bytes fails.
    Error(u64, io::ErrorKind),
    /// ... or accepts nothing.
    Zero(u64),
    Flush,
}
/// A stream that accepts a few bytes at a time, is interrupted now and then, and fails.
pub struct Stream {
    pub data: Vec<u8>,
    pub fault: Fault,
    /// Bytes accepted per call, in turn; 0 is an interruption.
    pub steps: Vec<usize>,
    pub calls: usize,
    pub failed: bool,
    pub after_failure: usize,
    /// Bytes not flushed.
    pub dirty: usize,
    pub flushes: usize,
}
impl Stream {
    pub fn new(g: &mut Gen, fault: Fault) -> Stream {
        let mut steps = vec![];
        for _ in 0..g.upto(3) {
            let n = if g.chance(1, 4) { 0 } else { g.range(1, 700) };
            steps.push(n);
        }
        // Not interrupted for ever.
        steps.push(g.pickc(&[usize::MAX, 1 << 12, 37]));
        Stream { data: vec![], fault, steps, calls: 0, failed: false, after_failure: 0, dirty: 0, flushes: 0 }
    }
}
impl io::Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after_failure += 1;
        }
        let n = self.steps[self.calls % self.steps.len()];
        self.calls += 1;
        if n == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = n.min(buf.len());
        if let Fault::Error(at, _) | Fault::Zero(at) = self.fault {
            let room = at.saturating_sub(self.data.len() as u64);
            if room == 0 && !buf.is_empty() && !self.failed {
                self.failed = true;
                return match self.fault {
                    Fault::Error(_, k) => Err(io::Error::new(k, "injected")),
                    _ => Ok(0),
                };
            }
            if !self.failed {
                n = n.min(room as usize);
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        self.dirty += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.fault == Fault::Flush {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        self.dirty = 0;
        Ok(())
    }
}

/// Write to a fixed-size buffer of the right size, a larger one and a smaller one.
pub fn slices(g: &mut Gen, v: &[u8], emit: &dyn Fn(&mut dyn WritableBuffer) -> Result<(), String>) -> R {
    let extra = g.pickc(&[0usize, 1, 7]);
    let mut d = vec![0xa5u8; v.len() + extra];
    let mut s = &mut d[..];
    if let Err(e) = emit(&mut s) {
        crate::fail!("writing to a slice of {} bytes, {extra} more than needed: {e}", v.len() + extra);
    }
    ensure_eq!(s.len(), extra, "unused part of the slice");
    ensure!(d[..v.len()] == *v, "slice contents differ from the vector's");
    ensure!(d[v.len()..].iter().all(|&b| b == 0xa5), "slice modified beyond the end of the output");
    if !v.is_empty() {
        let n = g.below(v.len());
        let n = if g.bool() { v.len() - 1 } else { n };
        let mut d = vec![0xa5u8; n];
        let mut s = &mut d[..];
        ensure!(emit(&mut s).is_err(), "writing {} bytes to a slice of {n} succeeded", v.len());
        ensure!(d.iter().all(|&b| b == 0xa5), "slice that is too small was modified");
    }
    Ok(())
}

/// Announcements and refusal.
pub fn recorded(g: &mut Gen, v: &[u8], emit: &dyn Fn(&mut dyn WritableBuffer) -> Result<(), String>) -> R {
    let mut r = Recorder { default_zeros: g.bool(), ..Recorder::new() };
    if let Err(e) = emit(&mut r) {
        crate::fail!("writing to another buffer: {e}");
    }
    ensure!(r.data == v, "a caller's buffer receives other bytes than the vector");
    r.check()?;
    let mut r = Recorder { limit: (v.len() as u64).saturating_sub(1 + g.upto(20)), ..Recorder::new() };
    if (v.len() as u64) > r.limit {
        ensure!(emit(&mut r).is_err(), "a refused announcement is not reported");
        ensure!(r.data.is_empty(), "{} bytes written after the announcement was refused", r.data.len());
        ensure_eq!(r.reserves, vec![(v.len() as u64, 0)], "announcements");
    }
    Ok(())
}
