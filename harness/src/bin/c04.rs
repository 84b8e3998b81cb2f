//! C04: endian-aware integers convert exactly.
use object::endian::*;
use object::pod::{bytes_of, from_bytes};
use vh::*;

macro_rules! scalar {
    ($fname:ident, $ty:ident, $W:ident, $rd:ident, $wr:ident, $bits:expr) => {
        fn $fname(v: $ty, n: [u8; $bits / 8]) -> R {
            fn one<E: Endian>(e: E, big: bool, v: $ty, n: [u8; $bits / 8]) -> R {
                let want = if big { v.to_be_bytes() } else { v.to_le_bytes() };
                let nv = if big { <$ty>::from_be_bytes(n) } else { <$ty>::from_le_bytes(n) };
                ensure_eq!(e.is_big_endian(), big, "is_big_endian {:?}", e);
                ensure_eq!(e.is_little_endian(), !big, "is_little_endian {:?}", e);
                ensure_eq!(e.$wr(v), want, "{} {:?} {:#x}", stringify!($wr), e, v);
                ensure_eq!(e.$rd(want), v, "{} {:?} {:02x?}", stringify!($rd), e, want);
                ensure_eq!(e.$rd(n), nv, "{} {:?} {:02x?}", stringify!($rd), e, n);
                let w = $W::<E>::new(e, v);
                ensure_eq!(std::mem::size_of_val(&w), $bits / 8, "size");
                ensure_eq!(std::mem::align_of_val(&w), 1, "align");
                ensure_eq!(bytes_of(&w), &want[..], "bytes of {}::new({:?})", stringify!($W), e);
                ensure_eq!(w.get(e), v, "{}::get({:?})", stringify!($W), e);
                let mut w2 = $W::<E>::from_bytes(n);
                ensure_eq!(bytes_of(&w2), &n[..], "from_bytes");
                ensure_eq!(w2.get(e), nv, "get of from_bytes {:?}", e);
                ensure_eq!(w2 == w, n == want, "eq is byte equality");
                w2.set(e, v);
                ensure_eq!(bytes_of(&w2), &want[..], "bytes after set {:?}", e);
                ensure!(w2 == w, "eq after set");
                // unaligned placement
                let mut buf = vec![0u8; 1 + $bits / 8];
                buf[1..].copy_from_slice(&n);
                let (p, tail) = match from_bytes::<$W<E>>(&buf[1..]) { Ok(x) => x, Err(()) => fail!("from_bytes failed on unaligned data") };
                ensure_eq!(p.get(e), nv, "unaligned get");
                ensure!(tail.is_empty(), "tail");
                Ok(())
            }
            fn fixed<E: FixedEndian>(big: bool, v: $ty) -> R {
                let want = if big { v.to_be_bytes() } else { v.to_le_bytes() };
                let w: $W<E> = v.into();
                ensure_eq!(bytes_of(&w), &want[..], "From for fixed endian");
                let b: $ty = w.into();
                ensure_eq!(b, v, "Into for fixed endian");
                Ok(())
            }
            one(LittleEndian, false, v, n)?;
            one(BigEndian, true, v, n)?;
            one(Endianness::Little, false, v, n)?;
            one(Endianness::Big, true, v, n)?;
            one(NativeEndian, cfg!(target_endian = "big"), v, n)?;
            fixed::<LittleEndian>(false, v)?;
            fixed::<BigEndian>(true, v)?;
            fixed::<NativeEndian>(cfg!(target_endian = "big"), v)
        }
    };
}
scalar!(c_u16, u16, U16, read_u16, write_u16, 16);
scalar!(c_u32, u32, U32, read_u32, write_u32, 32);
scalar!(c_u64, u64, U64, read_u64, write_u64, 64);
scalar!(c_i16, i16, I16, read_i16, write_i16, 16);
scalar!(c_i32, i32, I32, read_i32, write_i32, 32);
scalar!(c_i64, i64, I64, read_i64, write_i64, 64);

fn all16(g: &mut Gen) -> R {
    // Exhaustive over 16 bit values: one case per 256-value block.
    let hi = g.upto(255) as u16;
    g.nontrivial();
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        c_u16(v, v.swap_bytes().wrapping_mul(31).to_ne_bytes())?;
        c_i16(v as i16, v.to_ne_bytes())?;
    }
    Ok(())
}

fn scalars(g: &mut Gen) -> R {
    let (v, n) = (g.u64(), g.u64());
    g.nontrivial_if(v > 255);
    g.sample(|| format!("value {v:#x} bytes {:02x?}", n.to_ne_bytes()));
    c_u16(v as u16, (n as u16).to_ne_bytes())?;
    c_i16(v as i16, (n as u16).to_ne_bytes())?;
    c_u32(v as u32, (n as u32).to_ne_bytes())?;
    c_i32(v as i32, (n as u32).to_ne_bytes())?;
    c_u64(v, n.to_ne_bytes())?;
    c_i64(v as i64, n.to_ne_bytes())
}

/// 32 bit storage holding values of 64 bit types.
fn narrow(g: &mut Gen) -> R {
    let v = g.u64();
    let s = match g.upto(3) {
        0 => v as i32 as i64,
        1 => (v as u32) as i64,
        2 => -((v as u32) as i64),
        _ => v as i64,
    };
    g.label_if(v > u32::MAX as u64, "u64 does not fit");
    g.label_if(i32::try_from(s).is_err(), "i64 does not fit");
    g.nontrivial_if(v > 255);
    g.sample(|| format!("narrow {v:#x} {s}"));
    fn one<E: Endian>(e: E, v: u64, s: i64) -> R {
        let big = e.is_big_endian();
        let ub = |x: u32| if big { x.to_be_bytes() } else { x.to_le_bytes() };
        let init = 0x5aa5_1234u32;
        let mut w = U32::<E, u64>::new_u64_truncate(e, v);
        ensure_eq!(bytes_of(&w), &ub(v as u32)[..], "new_u64_truncate");
        ensure_eq!(w.get_u64(e), v as u32 as u64, "get_u64");
        w.set_u64_truncate(e, init as u64);
        ensure_eq!(bytes_of(&w), &ub(init)[..], "set_u64_truncate");
        match (u32::try_from(v), U32::<E, u64>::new_u64(e, v)) {
            (Ok(x), Ok(y)) => {
                ensure_eq!(bytes_of(&y), &ub(x)[..], "new_u64");
                ensure!(w.set_u64(e, v).is_ok(), "set_u64 fails on fitting value");
                ensure_eq!(bytes_of(&w), &ub(x)[..], "set_u64");
            }
            (Err(_), Err(_)) => {
                ensure!(w.set_u64(e, v).is_err(), "set_u64 succeeds on overflow");
                ensure_eq!(bytes_of(&w), &ub(init)[..], "value changed by failed set_u64");
            }
            (a, b) => fail!("new_u64 {v:#x}: model {a:?} got {}", b.is_ok()),
        }
        let mut w = I32::<E, i64>::new_i64_truncate(e, s);
        ensure_eq!(bytes_of(&w), &ub(s as u32)[..], "new_i64_truncate");
        ensure_eq!(w.get_i64(e), s as i32 as i64, "get_i64");
        w.set_i64_truncate(e, s.wrapping_mul(3));
        ensure_eq!(bytes_of(&w), &ub(s.wrapping_mul(3) as u32)[..], "set_i64_truncate");
        match (i32::try_from(s), I32::<E, i64>::new_i64(e, s)) {
            (Ok(x), Ok(y)) => {
                ensure_eq!(bytes_of(&y), &ub(x as u32)[..], "new_i64");
                ensure!(w.set_i64(e, s).is_ok(), "set_i64 fails on fitting value");
                ensure_eq!(bytes_of(&w), &ub(x as u32)[..], "set_i64");
            }
            (Err(_), Err(_)) => {
                ensure!(w.set_i64(e, s).is_err(), "set_i64 succeeds on overflow");
                ensure_eq!(bytes_of(&w), &ub(s.wrapping_mul(3) as u32)[..], "value changed by failed set_i64");
            }
            (a, b) => fail!("new_i64 {s}: model {a:?} got {}", b.is_ok()),
        }
        Ok(())
    }
    one(LittleEndian, v, s)?;
    one(BigEndian, v, s)?;
    one(Endianness::Little, v, s)?;
    one(Endianness::Big, v, s)
}

fn select(g: &mut Gen) -> R {
    let big = g.bool();
    g.nontrivial();
    ensure_eq!(Endianness::from_big_endian(big), Some(if big { Endianness::Big } else { Endianness::Little }), "Endianness::from_big_endian");
    ensure_eq!(Endianness::from_little_endian(big), Some(if big { Endianness::Little } else { Endianness::Big }), "Endianness::from_little_endian");
    ensure_eq!(LittleEndian::from_big_endian(big), if big { None } else { Some(LittleEndian) }, "LittleEndian");
    ensure_eq!(LittleEndian::from_little_endian(big), if big { Some(LittleEndian) } else { None }, "LittleEndian le");
    ensure_eq!(BigEndian::from_big_endian(big), if big { Some(BigEndian) } else { None }, "BigEndian");
    ensure_eq!(BigEndian::from_little_endian(big), if big { None } else { Some(BigEndian) }, "BigEndian le");
    ensure_eq!(Endianness::default().is_big_endian(), cfg!(target_endian = "big"), "default is native");
    ensure_eq!(<LittleEndian as FixedEndian>::FIXED, LittleEndian, "fixed");
    ensure_eq!(<BigEndian as FixedEndian>::FIXED, BigEndian, "fixed");
    Ok(())
}

fn main() {
    run(
        "C04",
        "cases draw a value and a byte pattern per width (boundary-biased); all 16 bit blocks are drawn many times over; non-trivial = value wider than 8 bits or a whole 16 bit block",
        &["host is little-endian x86-64; the big-endian-host configuration is not run"],
        &[sub("all16", 6000, 60000, all16), sub("scalars", 400_000, 8_000_000, scalars), sub("narrow", 400_000, 8_000_000, narrow), sub("select", 64, 64, select)],
    )
}
