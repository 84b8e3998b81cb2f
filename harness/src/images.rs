//! Files generated by the format checks, and damage to them. Included by the checks that span formats.
#![allow(dead_code, unused)]
use vh::*;

#[path = "bin/c05.rs"]
mod c05;
#[path = "bin/c06.rs"]
mod c06;
#[path = "bin/c07.rs"]
mod c07;
#[path = "bin/c08.rs"]
mod c08;
#[path = "bin/c09.rs"]
mod c09;
#[path = "bin/c10.rs"]
mod c10;
#[path = "bin/c11.rs"]
mod c11;
#[path = "bin/c12.rs"]
mod c12;
#[path = "bin/c13.rs"]
mod c13;
#[path = "bin/c14.rs"]
mod c14;
#[path = "bin/c15.rs"]
mod c15;
#[path = "bin/c16.rs"]
mod c16;
#[path = "bin/c17.rs"]
mod c17;

/// What a generated file is.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Object,
    Import,
    Archive,
    Fat,
    Cache,
    Signature,
}

type Make = (&'static str, Kind, fn(&mut Gen) -> R);
pub const OBJECTS: &[Make] = &[
    ("elf", Kind::Object, c05::well_formed),
    ("elf relocations", Kind::Object, c06::lists),
    ("elf dynamic", Kind::Object, c07::tables),
    ("elf notes", Kind::Object, c08::files),
    ("elf compressed", Kind::Object, c09::elf_case),
    ("mach-o compressed", Kind::Object, c09::macho_case),
    ("coff", Kind::Object, c10::objects),
    ("pe", Kind::Object, c11::images),
    ("mach-o", Kind::Object, c12::files),
    ("mach-o linked", Kind::Object, c13::files),
    ("xcoff", Kind::Object, c15::files),
    ("wasm", Kind::Object, c16::modules),
];
pub const OTHERS: &[Make] = &[
    ("coff import", Kind::Import, c10::imports),
    ("archive", Kind::Archive, c17::good),
    ("fat", Kind::Fat, c14::fat),
    ("dyld cache", Kind::Cache, c14::cache),
    ("dyld cache images", Kind::Cache, c14::images),
    ("code signature", Kind::Signature, c14::sign),
];

/// Streams and tables outside of files: whether they are big endian, the table, and related data.
pub const STREAMS: &[(&str, fn(&mut Gen) -> R)] = &[
    ("rebase opcodes", c13::rebases),
    ("bind opcodes", c13::binds),
    ("chained fixups", c13::chained),
    ("exports trie", c13::trie),
    ("function starts", c13::starts),
    ("notes", c08::notes),
    ("attributes", c08::attributes),
];

pub fn object(g: &mut Gen) -> Vec<u8> {
    let m = *g.pick(OBJECTS);
    g.label(m.0);
    g.capture(m.2).into_iter().next().unwrap_or_default()
}
pub fn other(g: &mut Gen) -> (Kind, Vec<Vec<u8>>) {
    let m = *g.pick(OTHERS);
    g.label(m.0);
    (m.1, g.capture(m.2))
}

/// A value that is likely to matter.
pub fn value(g: &mut Gen, len: usize) -> u64 {
    match g.upto(9) {
        0 => 0,
        1 => g.upto(16),
        2 => u64::MAX >> g.upto(63),
        3 => (1u64 << g.upto(63)).wrapping_sub(g.upto(2)),
        4 => (len as u64).wrapping_add(g.upto(16)).wrapping_sub(8),
        5 => g.upto(len as u64),
        6 => 0u64.wrapping_sub(g.upto(64)),
        7 => (u32::MAX as u64).wrapping_sub(g.upto(64)),
        _ => g.u64(),
    }
}

/// Change some bytes.
pub fn mutate(g: &mut Gen, v: &mut Vec<u8>, times: usize) {
    for _ in 0..times {
        if v.is_empty() {
            return;
        }
        let n = v.len();
        // Positions near the start (headers) and aligned ones are more likely.
        let mut p = match g.upto(3) {
            0 => g.below(n.min(64)),
            1 => g.below(n.min(512)),
            _ => g.below(n),
        };
        match g.upto(9) {
            0 => v[p] ^= 1 << g.upto(7),
            1 => v[p] = g.u8(),
            2 => v[p] = g.pickc(&[0, 0xff, 0x7f, 0x80, 1]),
            3..=6 => {
                let w = g.pickc(&[2usize, 4, 4, 8]);
                p = p / w * w;
                let x = value(g, n);
                let be = g.bool();
                for i in 0..w {
                    if let Some(b) = v.get_mut(p + i) {
                        *b = (x >> (8 * if be { w - 1 - i } else { i })) as u8;
                    }
                }
            }
            7 => {
                // Copy a part over another.
                let (k, q) = (g.range(1, 16), g.below(n));
                let part: Vec<u8> = v[q..(q + k).min(n)].to_vec();
                for (i, b) in part.iter().enumerate() {
                    if let Some(x) = v.get_mut(p + i) {
                        *x = *b;
                    }
                }
            }
            8 => v.truncate(if g.bool() { g.below(n) } else { n - 1 - g.below(n.min(16)) }),
            _ => {
                let k = g.range(1, 8);
                for _ in 0..k {
                    v.insert(p, 0);
                }
            }
        }
    }
}
pub use c14::images as cache_images;
pub use c17::good as archives;
