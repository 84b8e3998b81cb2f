//! C34: constant newtypes, names and bit-field helpers.
#![allow(clippy::all)]
use object::{ConstantNames, FlagNames, Wrap};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;
use vh::engine::*;
use vh::*;

trait Prim: Copy + std::fmt::Debug + std::fmt::Display + std::fmt::LowerHex + std::fmt::UpperHex + Ord {
    const BITS: u32;
    const SIGNED: bool;
    fn raw(self) -> u64;
    fn of(v: u64) -> Self;
}
macro_rules! prim { ($($t:ident $s:expr),*) => { $(impl Prim for $t {
    const BITS: u32 = <$t>::BITS;
    const SIGNED: bool = $s;
    fn raw(self) -> u64 { (self as u64) & mask(<$t>::BITS) }
    fn of(v: u64) -> Self { v as $t }
})* } }
prim!(u8 false, u16 false, u32 false, u64 false, usize false, i16 true, i32 true, i64 true);

fn mask(bits: u32) -> u64 {
    if bits >= 64 { !0 } else { (1u64 << bits) - 1 }
}

/// One public constant.
struct K {
    module: &'static str,
    name: &'static str,
    ty: &'static str,
    bits: u32,
    raw: u64,
}

fn konst<T: Wrap>(module: &'static str, name: &'static str, v: T) -> K
where
    T::Inner: Prim,
{
    let ty = std::any::type_name::<T>().rsplit("::").next().unwrap();
    K { module, name, ty, bits: <T::Inner as Prim>::BITS, raw: v.into_inner().raw() }
}

type Op2 = fn(u64, u64) -> u64;

/// One newtype.
struct Ty {
    module: &'static str,
    name: &'static str,
    bits: u32,
    /// Whether Debug is: a name, a list of flags, a number in hex, a number, something else.
    kind: &'static str,
    roundtrip: fn(u64) -> (u64, u64),
    debug: fn(u64) -> String,
    debug_inner: fn(u64) -> String,
    lower: fn(u64) -> (String, String),
    upper: fn(u64) -> (String, String),
    /// Formatting with a width and the alternate flag
    alt: fn(u64) -> (String, String),
    display: Option<fn(u64) -> (String, String)>,
    cmp: fn(u64, u64) -> (std::cmp::Ordering, std::cmp::Ordering, bool, bool),
    default: fn() -> u64,
    name_of: Option<fn(u64) -> (Option<&'static str>, Option<&'static str>)>,
    set: Option<Set>,
    flags: Option<Flags>,
}

struct Set {
    ops: Vec<(&'static str, Op2, fn(u64, u64) -> u64)>,
    contains: fn(u64, u64) -> bool,
    intersects: fn(u64, u64) -> bool,
}

struct Flags {
    names: fn(u64) -> (Vec<(u64, &'static str)>, u64),
    bit_names: fn(u64) -> (Vec<(u64, &'static str)>, u64),
    name: fn(u64) -> Option<(u64, &'static str)>,
}

fn flags_names<T: Wrap>(f: &FlagNames<T>, v: u64) -> (Vec<(u64, &'static str)>, u64)
where
    T::Inner: Prim + std::ops::BitAnd<Output = T::Inner> + std::ops::Not<Output = T::Inner>,
{
    let mut out = Vec::new();
    let rest = f.names(T::from_inner(Prim::of(v)), |v, n| out.push((v.raw(), n)));
    (out, rest.raw())
}
fn flags_bits<T: Wrap>(f: &FlagNames<T>, v: u64) -> (Vec<(u64, &'static str)>, u64)
where
    T::Inner: Prim + std::ops::BitAnd<Output = T::Inner> + std::ops::Not<Output = T::Inner>,
{
    let mut out = Vec::new();
    let rest = f.bit_names(T::from_inner(Prim::of(v)), |v, n| out.push((v.raw(), n)));
    (out, rest.raw())
}
fn flags_first<T: Wrap>(f: &FlagNames<T>, v: u64) -> Option<(u64, &'static str)>
where
    T::Inner: Prim + std::ops::BitAnd<Output = T::Inner> + std::ops::Not<Output = T::Inner>,
{
    f.name(T::from_inner(Prim::of(v))).map(|(v, n)| (v.into_inner().raw(), n))
}

macro_rules! consts { ($($m:ident $n:ident,)*) => {
    fn all_consts() -> Vec<K> { vec![$(konst(stringify!($m), stringify!($n), object::$m::$n)),*] }
} }
macro_rules! op { ($m:ident $n:ident $p:ident, $name:expr, $op:expr, $want:expr) => {
    ($name, (|a, b| { let f: fn(object::$m::$n, object::$m::$n) -> object::$m::$n = $op; f(object::$m::$n(a as $p), object::$m::$n(b as $p)).0.raw() }) as Op2, $want as Op2)
} }
macro_rules! types { ($($m:ident $n:ident $p:ident $k:ident,)*) => {
    fn all_types() -> Vec<Ty> { vec![$(Ty {
        module: stringify!($m), name: stringify!($n), bits: <$p>::BITS, kind: stringify!($k),
        roundtrip: |v| (object::$m::$n::from_inner(v as $p).0.raw(), object::$m::$n(v as $p).into_inner().raw()),
        debug: |v| format!("{:?}", object::$m::$n(v as $p)),
        debug_inner: |v| format!("{:?}", v as $p),
        lower: |v| (format!("{:x}", object::$m::$n(v as $p)), format!("{:x}", v as $p)),
        upper: |v| (format!("{:X}", object::$m::$n(v as $p)), format!("{:X}", v as $p)),
        alt: |v| (format!("{:#020x}", object::$m::$n(v as $p)), format!("{:#020x}", v as $p)),
        display: types!(@display $k $m $n $p),
        cmp: |a, b| {
            let (x, y) = (object::$m::$n(a as $p), object::$m::$n(b as $p));
            let h = |v: object::$m::$n| { use std::hash::{Hash, Hasher}; let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() };
            (x.cmp(&y), (a as $p).cmp(&(b as $p)), x == y, h(x) == h(y))
        },
        default: || object::$m::$n::default().0.raw(),
        name_of: types!(@name_of $k $m $n $p),
        set: types!(@set $k $m $n $p),
        flags: types!(@flags $k $m $n $p),
    }),*] }
};
    (@display bare $m:ident $n:ident $p:ident) => { None };
    (@display $k:ident $m:ident $n:ident $p:ident) => { Some(|v| (format!("{} {0:>30}", object::$m::$n(v as $p)), format!("{} {0:>30}", v as $p))) };
    (@name_of names $m:ident $n:ident $p:ident) => { Some(|v| (object::$m::$n(v as $p).name(), object::$m::$n::NAMES.name(object::$m::$n(v as $p)))) };
    (@name_of $k:ident $m:ident $n:ident $p:ident) => { None };
    (@set flags $m:ident $n:ident $p:ident) => { types!(@ops $m $n $p) };
    (@set set $m:ident $n:ident $p:ident) => { types!(@ops $m $n $p) };
    (@set $k:ident $m:ident $n:ident $p:ident) => { None };
    (@ops $m:ident $n:ident $p:ident) => { Some(Set {
        ops: vec![
            op!($m $n $p, "&", |a, b| a & b, |a, b| a & b),
            op!($m $n $p, "|", |a, b| a | b, |a, b| a | b),
            op!($m $n $p, "^", |a, b| a ^ b, |a, b| a ^ b),
            op!($m $n $p, "&=", |mut a, b| { a &= b; a }, |a, b| a & b),
            op!($m $n $p, "|=", |mut a, b| { a |= b; a }, |a, b| a | b),
            op!($m $n $p, "^=", |mut a, b| { a ^= b; a }, |a, b| a ^ b),
            op!($m $n $p, "with", |a, b| a.with(b), |a, b| a | b),
            op!($m $n $p, "without", |a, b| a.without(b), |a, b| a & !b),
            op!($m $n $p, "insert", |mut a, b| { a.insert(b); a }, |a, b| a | b),
            op!($m $n $p, "remove", |mut a, b| { a.remove(b); a }, |a, b| a & !b),
        ],
        contains: |a, b| object::$m::$n(a as $p).contains(object::$m::$n(b as $p)),
        intersects: |a, b| object::$m::$n(a as $p).intersects(object::$m::$n(b as $p)),
    }) };
    (@flags flags $m:ident $n:ident $p:ident) => { Some(Flags {
        names: |v| flags_names(object::$m::$n::NAMES, v),
        bit_names: |v| flags_bits(object::$m::$n::NAMES, v),
        name: |v| flags_first(object::$m::$n::NAMES, v),
    }) };
    (@flags $k:ident $m:ident $n:ident $p:ident) => { None };
}
include!("../consts/table.rs");

struct Tables {
    consts: Vec<K>,
    types: Vec<Ty>,
    by_name: HashMap<&'static str, HashMap<&'static str, usize>>,
    /// Interesting raw values of each type
    values: BTreeMap<(&'static str, &'static str), Vec<u64>>,
    spec: Vec<(&'static str, &'static str, i64, &'static str)>,
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let consts = all_consts();
        let types = all_types();
        let mut by_name: HashMap<&'static str, HashMap<&'static str, usize>> = HashMap::new();
        let mut values: BTreeMap<_, Vec<u64>> = BTreeMap::new();
        for (i, k) in consts.iter().enumerate() {
            by_name.entry(k.module).or_default().insert(k.name, i);
            values.entry((k.module, k.ty)).or_default().push(k.raw);
        }
        let spec = include_str!("../consts/spec.txt")
            .lines()
            .filter(|l| !l.starts_with('#'))
            .map(|l| {
                let f: Vec<&'static str> = l.split(' ').collect();
                (f[0], f[1], f[2].parse().unwrap(), f[3])
            })
            .collect();
        Tables { consts, types, by_name, values, spec }
    })
}

impl Tables {
    fn get(&self, module: &str, name: &str) -> Option<&K> {
        self.by_name.get(module)?.get(name).map(|&i| &self.consts[i])
    }
    fn value(&self, g: &mut Gen, module: &'static str, ty: &'static str, bits: u32) -> u64 {
        let v = match g.weighted(&[3, 2, 1, 1]) {
            0 => match self.values.get(&(module, ty)) {
                Some(v) => v[g.below(v.len())],
                None => g.u64(),
            },
            1 => {
                // several constants together
                let mut x = 0;
                if let Some(v) = self.values.get(&(module, ty)) {
                    for _ in 0..1 + g.upto(4) {
                        x |= v[g.below(v.len())];
                    }
                }
                if g.chance(1, 3) {
                    x ^= 1 << g.upto(63);
                }
                x
            }
            2 => g.upto(300) as u64,
            _ => g.uint(64),
        };
        let v = match g.upto(9) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => !v,
            _ => v,
        };
        v & mask(bits)
    }
}

/// How far the value of a constant of one type is shifted in the flags it is part of.
fn shift(module: &str, ty: &str, into: &str) -> u32 {
    match (module, ty, into) {
        ("macho", "SymbolLibrary", "SymbolDesc") => 8,
        ("pe", "SymbolDerivedType", "SymbolType") => 4,
        ("pe", "ImportObjectNameType", "ImportObjectFlags") => 2,
        _ => 0,
    }
}

/// A name shown as part of a set of flags: the constant's bits in those flags.
fn part(t: &Tables, module: &str, ty: &str, name: &str) -> Option<u64> {
    let k = t.get(module, name)?;
    Some(k.raw << shift(module, k.ty, ty))
}

include!("../consts/fields.rs");

fn types_check(g: &mut Gen) -> R {
    let t = tables();
    let y = &t.types[g.below(t.types.len())];
    let (m, n) = (y.module, y.name);
    let v = t.value(g, m, n, y.bits);
    let w = t.value(g, m, n, y.bits);
    g.label(y.kind);
    g.nontrivial_if(v > 1);
    g.sample(|| format!("{m}::{n} {v:#x} {:?}", (y.debug)(v)));
    ensure_eq!((y.roundtrip)(v), (v, v), "{m}::{n} into and from the inner value");
    ensure_eq!((y.default)(), 0, "{m}::{n}::default()");
    for (what, (got, want)) in [("LowerHex", (y.lower)(v)), ("UpperHex", (y.upper)(v)), ("{:#020x}", (y.alt)(v))] {
        ensure_eq!(got, want, "{m}::{n} {v:#x} {what}");
    }
    if let Some(d) = y.display {
        let (got, want) = d(v);
        ensure_eq!(got, want, "{m}::{n} {v:#x} Display");
    }
    let (got, want, eq, hash) = (y.cmp)(v, w);
    ensure_eq!(got, want, "{m}::{n} order of {v:#x} and {w:#x}");
    ensure_eq!(eq, v == w, "{m}::{n} equality of {v:#x} and {w:#x}");
    ensure!(hash || v != w, "{m}::{n} hash of {v:#x}");
    let debug = (y.debug)(v);
    match y.kind {
        "names" => {
            let (a, b) = (y.name_of.unwrap())(v);
            ensure_eq!(a, b, "{m}::{n} {v:#x} name() and NAMES");
            match a {
                Some(name) => {
                    g.label("named");
                    ensure_eq!(debug.as_str(), name, "{m}::{n} {v:#x} Debug of a named value");
                    let k = must_some!(t.get(m, name), "{m}::{n} {v:#x} is shown as {name}, which is no constant");
                    ensure_eq!(k.raw, v, "{m}::{n} {v:#x} is shown as {name}");
                    ensure_eq!(k.ty, n, "{m}::{n} {v:#x} is shown as {name}, of another type");
                }
                None => {
                    g.label("unnamed");
                    ensure_eq!(debug, (y.debug_inner)(v), "{m}::{n} {v:#x} Debug of a value without a name");
                }
            }
        }
        "flags" => check_flags(g, t, m, n, v, &debug, y.flags.as_ref().unwrap())?,
        "set" => {
            let want = if v == 0 { "0".to_string() } else { format!("{v:#x}") };
            ensure_eq!(debug, want, "{m}::{n} {v:#x} Debug");
        }
        "plain" => ensure_eq!(debug, (y.debug_inner)(v), "{m}::{n} {v:#x} Debug"),
        _ => bare_debug(t, m, n, v, &debug)?,
    }
    if let Some(s) = &y.set {
        for (name, op, want) in &s.ops {
            ensure_eq!(op(v, w), want(v, w) & mask(y.bits), "{m}::{n} {v:#x} {name} {w:#x}");
        }
        ensure_eq!((s.contains)(v, w), v & w == w, "{m}::{n} {v:#x} contains {w:#x}");
        ensure_eq!((s.intersects)(v, w), v & w != 0, "{m}::{n} {v:#x} intersects {w:#x}");
        // Set laws that link the operations
        let with = s.ops[6].1(v, w);
        ensure!((s.contains)(with, w) && (s.contains)(with, v), "{m}::{n} {v:#x} with {w:#x} contains both");
        ensure!(!(s.intersects)(s.ops[7].1(v, w), w), "{m}::{n} {v:#x} without {w:#x} keeps some of it");
    }
    Ok(())
}

fn check_flags(g: &mut Gen, t: &Tables, m: &'static str, n: &'static str, v: u64, debug: &str, f: &Flags) -> R {
    let (names, rest) = (f.names)(v);
    let mut seen = 0u64;
    for (i, &(bits, name)) in names.iter().enumerate() {
        let want = must_some!(part(t, m, n, name), "{m}::{n} {v:#x}: {name} is no constant");
        ensure_eq!(bits, want, "{m}::{n} {v:#x}: bits given for {name}");
        ensure_eq!(bits & v, bits, "{m}::{n} {v:#x}: {name} has bits that are not set");
        ensure_eq!(bits & seen, 0, "{m}::{n} {v:#x}: {name} repeats bits");
        seen |= bits;
        if i == 0 {
            ensure_eq!((f.name)(v), Some((bits, name)), "{m}::{n} {v:#x}: name()");
        }
    }
    if names.is_empty() {
        ensure_eq!((f.name)(v), None, "{m}::{n} {v:#x}: name() without names");
    }
    ensure_eq!(seen & rest, 0, "{m}::{n} {v:#x}: unnamed bits overlap named ones");
    ensure_eq!(seen | rest, v, "{m}::{n} {v:#x}: named and unnamed bits together");
    let (bits, bits_rest) = (f.bit_names)(v);
    let mut all = 0;
    for &(b, name) in &bits {
        ensure_eq!(Some(b), part(t, m, n, name), "{m}::{n} {v:#x}: bit given for {name}");
        ensure_eq!(b & v, b, "{m}::{n} {v:#x}: bit {name} is not set");
        ensure_eq!(b & all, 0, "{m}::{n} {v:#x}: bit {name} repeats bits");
        all |= b;
    }
    ensure_eq!(all & bits_rest, 0, "{m}::{n} {v:#x}: unmatched bits overlap matched ones");
    ensure_eq!(all | bits_rest, v, "{m}::{n} {v:#x}: matched and unmatched bits together");
    g.label_if(rest != 0 && !names.is_empty(), "named and unnamed bits");
    g.label_if(names.len() > 1, "several names");
    let mut want: Vec<String> = names.iter().map(|x| x.1.to_string()).collect();
    if rest != 0 || want.is_empty() {
        want.push(if rest == 0 { "0".to_string() } else { format!("{rest:#x}") });
    }
    ensure_eq!(debug, want.join(" | "), "{m}::{n} {v:#x} Debug");
    Ok(())
}

/// Types whose Debug shows their fields.
fn bare_debug(t: &Tables, m: &str, n: &str, v: u64, debug: &str) -> R {
    let parts: Vec<&str> = debug.split(" | ").collect();
    let one = |s: &str| -> Option<u64> {
        if let Some(h) = s.strip_prefix("0x") { return u64::from_str_radix(h, 16).ok(); }
        s.parse().ok()
    };
    let get = |s: &str, shift: u32| -> Option<u64> { t.get(m, s).map(|k| k.raw).or_else(|| one(s)).map(|v| v << shift) };
    let got = match n {
        "SymbolInfo" => {
            ensure_eq!(parts.len(), 2, "{m}::{n} {v:#x} Debug {debug:?}");
            get(parts[0], 4).and_then(|a| Some(a | get(parts[1], 0)?))
        }
        "Version" => {
            let f: Vec<u64> = debug.split('.').filter_map(|x| x.parse().ok()).collect();
            if f.len() == 3 { Some(f[0] << 16 | f[1] << 8 | f[2]) } else { None }
        }
        "CpuSubtypeId" => one(debug),
        "CsectAuxSmtyp" => get(parts[0], 0).and_then(|a| Some(a | match parts.get(1) { Some(p) => one(p)? << 3, None => 0 })),
        "SectionFlags" => {
            // type flags, then the subtype in hex or by name
            let mut all = 0u64;
            for (i, p) in parts.iter().enumerate() {
                let x = match get(p, 0) {
                    Some(x) if t.get(m, p).is_some() || p.starts_with("0x") || i == 0 => Some(x),
                    _ => u64::from_str_radix(p, 16).ok(),
                };
                all |= must_some!(x, "{m}::{n} {v:#x} Debug {debug:?}: {p}");
            }
            Some(all)
        }
        _ => fail!("{m}::{n}: unknown type"),
    };
    ensure_eq!(got, Some(v), "{m}::{n} {v:#x} Debug {debug:?}");
    Ok(())
}

/// Values of constants in other implementations of the formats.
fn spec(g: &mut Gen) -> R {
    let t = tables();
    let (m, n, v, src) = t.spec[g.below(t.spec.len())];
    g.nontrivial();
    g.label(src);
    let k = must_some!(t.get(m, n), "constant {m}::{n}");
    g.sample(|| format!("{m}::{n} = {v:#x} in {src}"));
    if k.raw != v as u64 & mask(k.bits) {
        // Where the implementations disagree, either value will do.
        let other = t.spec.iter().any(|s| s.0 == m && s.1 == n && s.2 as u64 & mask(k.bits) == k.raw);
        g.label_if(other, "implementations disagree");
        if !other && !differs(m, n) {
            fail!("{m}::{n} is {:#x}, in {src} it is {v:#x}", k.raw);
        }
    }
    Ok(())
}

/// Constants are named by the name tables for their type or machine.
fn named(g: &mut Gen) -> R {
    let t = tables();
    let k = &t.consts[g.below(t.consts.len())];
    let Some(y) = t.types.iter().find(|y| y.module == k.module && y.name == k.ty) else { return Ok(()) };
    g.nontrivial();
    if let Some(em) = machine_of(k) {
        g.label("of a machine");
        if let Some(name) = machine_name(k, em) {
            let name = must_some!(name, "{}::{} has no name for {em:?}", k.module, k.name);
            ensure_eq!(t.get(k.module, name).map(|x| x.raw), Some(k.raw), "name of {}::{} for {em:?}", k.module, k.name);
        }
        return Ok(());
    }
    let Some(f) = y.name_of else { return Ok(()) };
    if unnamed(k) {
        g.label("exempt");
        return Ok(());
    }
    let name = must_some!(f(k.raw).0, "{}::{} has no name by type {}", k.module, k.name, k.ty);
    ensure_eq!(t.get(k.module, name).map(|x| x.raw), Some(k.raw), "name of {}::{}", k.module, k.name);
    Ok(())
}

fn main() {
    run(
        "C34",
        "a value above 1 for types, any constant, or a field value that is not zero",
        &[
            "values of constants are compared with the LLVM 18 BinaryFormat headers and glibc 2.39's elf.h where those define the same name",
            "the list of constants and types is the one of the unchanged tree",
        ],
        &[
            sub("types", 400_000, 8_000_000, types_check),
            sub("spec", 200_000, 2_000_000, spec),
            sub("named", 40_000, 400_000, named),
            sub("machines", 200_000, 4_000_000, machines),
            sub("fields", 400_000, 8_000_000, fields),
        ],
    );
}
