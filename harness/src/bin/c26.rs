//! C26: string tables place every string at its reported offset.
use object::write::{StringId, StringTable};
use std::collections::HashMap;
use vh::*;

fn strings(g: &mut Gen, nul: bool) -> Vec<Vec<u8>> {
    let n = g.len(24);
    let alpha = g.range(1, 4) as u64;
    let wide = g.chance(1, 6);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let s = match g.upto(9) {
            0..=3 => {
                let l = g.len(9);
                (0..l).map(|_| if wide { 1 + g.upto(254) as u8 } else { b'a' + g.upto(alpha - 1) as u8 }).collect()
            }
            // suffix of an earlier string
            4 | 5 if !v.is_empty() => {
                let s = &v[g.below(v.len())];
                let k = g.range(0, s.len());
                s[k..].to_vec()
            }
            // extension of an earlier string to the left
            6 | 7 if !v.is_empty() => {
                let s = v[g.below(v.len())].clone();
                let l = g.range(0, 3);
                let mut x: Vec<u8> = (0..l).map(|_| b'a' + g.upto(alpha - 1) as u8).collect();
                x.extend(s);
                x
            }
            // duplicate
            8 if !v.is_empty() => v[g.below(v.len())].clone(),
            _ => {
                let l = g.len(200);
                vec![b'a' + g.upto(alpha - 1) as u8; l]
            }
        };
        v.push(s);
    }
    if nul && !v.is_empty() {
        let i = g.below(v.len());
        let p = g.range(0, v[i].len());
        v[i].insert(p, 0);
    }
    v
}

struct Added<'a> {
    table: StringTable<'a>,
    distinct: Vec<&'a [u8]>,
    ids: HashMap<&'a [u8], StringId>,
}

fn add_all<'a>(mut table: StringTable<'a>, v: &'a [Vec<u8>]) -> R<Added<'a>> {
    ensure!(table.is_empty(), "new table is not empty");
    let mut distinct: Vec<&[u8]> = vec![];
    let mut ids: HashMap<&[u8], StringId> = HashMap::new();
    for s in v {
        let id = table.add(s);
        match ids.get(&s[..]) {
            Some(old) => ensure_eq!(id, *old, "id of duplicate {:?}", s),
            None => {
                ensure!(ids.values().all(|x| *x != id), "id {id:?} reused for {s:?}");
                ids.insert(s, id);
                distinct.push(s);
            }
        }
        ensure!(!table.is_empty(), "table is empty after add");
        for (s, id) in &ids {
            ensure_eq!(table.get_id(s), *id, "get_id");
            ensure_eq!(table.get_string(*id), *s, "get_string");
        }
    }
    Ok(Added { table, distinct, ids })
}

fn check_placed(file: &[u8], table: &StringTable, ids: &HashMap<&[u8], StringId>) -> R {
    for (s, id) in ids {
        let off = table.get_offset(*id) as usize;
        ensure_eq!(table.maybe_get_offset(Some(*id)) as usize, off, "maybe_get_offset");
        let got = file.get(off..).unwrap_or(&[]);
        ensure!(got.len() > s.len() && &got[..s.len()] == *s && got[s.len()] == 0, "string {:?} is not at reported offset {off} of {}", s, dbg(&file));
    }
    Ok(())
}

fn merged(g: &mut Gen) -> R {
    let v = strings(g, false);
    let base = g.pickc(&[1u32, 1, 0, 4, 5]);
    let Added { mut table, distinct, ids } = add_all(StringTable::new(), &v)?;
    // The caller supplies the first `base` bytes; a non-zero filler for base > 1 is a size field.
    let mut file = if base == 1 { vec![0] } else { vec![0x7f; base as usize] };
    let size = must!(table.write(&mut file, base), "write");
    ensure_eq!(size as usize, file.len(), "returned size");
    check_placed(&file, &table, &ids)?;
    // Merging: only strings that are not a suffix of another string take space.
    let own: usize = distinct
        .iter()
        .filter(|s| !distinct.iter().any(|t| t != *s && t.ends_with(s)) && !(base == 1 && s.is_empty()))
        .map(|s| s.len() + 1)
        .sum();
    ensure!(file.len() - base as usize <= distinct.iter().map(|s| s.len() + 1).sum::<usize>(), "table larger than the distinct strings");
    let slack = usize::from(base == 1 && distinct.len() == 1 && distinct[0].is_empty());
    let used = file.len() - base as usize;
    ensure!(used == own || used == own + slack, "merged size {used}, distinct suffix-free strings need {own}: {}", dbg(&distinct));
    ensure_eq!(table.maybe_get_offset(None), 0, "maybe_get_offset(None)");
    // A second write is an error and changes nothing (once anything was written).
    if !distinct.is_empty() {
        let before = file.clone();
        ensure!(table.write(&mut file, base).is_err(), "second write succeeded");
        ensure_eq!(file, before, "second write changed the buffer");
        check_placed(&file, &table, &ids)?;
    }
    let dup = v.len() > distinct.len();
    let suf = distinct.iter().any(|s| distinct.iter().any(|t| t != s && t.ends_with(s)));
    g.label_if(dup, "duplicates");
    g.label_if(suf, "suffixes");
    g.label_if(distinct.iter().any(|s| s.is_empty()), "empty string");
    g.nontrivial_if(suf && distinct.len() >= 3);
    g.sample(|| format!("base {base} {}", dbg(&v.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>())));
    Ok(())
}

fn ordered(g: &mut Gen) -> R {
    let v = strings(g, false);
    let base = g.pickc(&[1u32, 0, 4, 100]);
    let Added { mut table, distinct, ids } = add_all(StringTable::new_in_order(base), &v)?;
    let mut want = vec![0x7f; base as usize];
    for s in &distinct {
        // offsets are available before writing
        ensure_eq!(table.get_offset(ids[s]) as usize, want.len(), "offset before write");
        want.extend_from_slice(s);
        want.push(0);
    }
    let mut file = vec![0x7f; base as usize];
    let size = must!(table.write(&mut file, base), "write");
    ensure_eq!(file, want, "in-order table");
    ensure_eq!(size as usize, file.len(), "returned size");
    check_placed(&file, &table, &ids)?;
    g.nontrivial_if(distinct.len() >= 2);
    g.sample(|| format!("in order, base {base}: {}", dbg(&distinct)));
    Ok(())
}

fn nul(g: &mut Gen) -> R {
    let v = strings(g, true);
    if v.is_empty() {
        return Ok(());
    }
    let in_order = g.bool();
    let mut table = if in_order { StringTable::new_in_order(1) } else { StringTable::new() };
    for s in &v {
        table.add(s);
    }
    let mut file = vec![0];
    ensure!(table.write(&mut file, 1).is_err(), "table with a null byte in {} was written", dbg(&v));
    g.nontrivial();
    g.sample(|| format!("in_order {in_order} {}", dbg(&v)));
    Ok(())
}

/// A sink that only counts, so that tables beyond 4 GiB cost no memory.
#[derive(Default)]
struct Count(u64);
impl object::write::WritableBuffer for Count {
    fn reserve(&mut self, _: u64) -> Result<(), ()> {
        Ok(())
    }
    fn write_bytes(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
}

fn huge(g: &mut Gen) -> R {
    // Slices of one large buffer: `n` distinct strings whose total length crosses 4 GiB.
    static BIG: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    const L: usize = 1 << 20;
    let big = BIG.get_or_init(|| {
        let mut v = vec![b'a'; L + 8192];
        v[L..].iter_mut().enumerate().for_each(|(i, b)| *b = b"bcdefghij"[(i * 7 + i / 9) % 9]);
        v
    });
    let in_order = g.bool();
    let base = g.upto(4) as u32;
    let mut t = if in_order { StringTable::new_in_order(base) } else { StringTable::new() };
    // Number of strings and their end points; every string ends differently so nothing merges.
    let n = 4086 + g.upto(5);
    let mut total = base as u64;
    let mut maximal: Vec<&[u8]> = vec![];
    let extra = g.upto(2000) as usize;
    for i in 0..n as usize {
        let s = &big[if i == 0 { extra } else { 0 }..L + i + 1];
        t.add(s);
        maximal.push(s);
        total += s.len() as u64 + 1;
    }
    let _ = &maximal;
    let r = t.write(&mut Count::default(), base);
    let fits = total <= u32::MAX as u64;
    match r {
        Ok(x) => {
            ensure!(x as u64 <= total, "size {x} larger than the strings {total}");
            if in_order {
                ensure!(fits, "in-order table of {total} bytes accepted");
                ensure_eq!(x as u64, total, "size");
            }
        }
        Err(_) => ensure!(!fits, "table of {total} bytes rejected"),
    }
    g.label_if(!fits, "over 4 GiB");
    g.label_if(fits, "below 4 GiB");
    g.nontrivial();
    g.sample(|| format!("{n} strings, {total} bytes, in_order {in_order}"));
    Ok(())
}

fn main() {
    run(
        "C26",
        "multisets of 0..24 byte strings over small alphabets built to share suffixes, several bases and both modes; non-trivial = at least three distinct strings one of which is a suffix of another (or two strings in order mode)",
        &["with base 1 the caller has written the leading null byte, as documented"],
        &[sub("merged", 250_000, 5_000_000, merged), sub("ordered", 100_000, 2_000_000, ordered), sub("nul", 50_000, 500_000, nul), sub("huge", 16, 24, huge)],
    )
}
