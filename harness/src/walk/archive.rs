//! Archives.
use super::*;
use object::read::archive::*;

pub fn file<'d>(w: &mut W<'d>, d: &'d [u8]) {
    let max = w.max();
    let Some(a) = w.ok("archive", ArchiveFile::parse(d)) else { return };
    u((a.kind(), a.is_thin()));
    let mut objects = vec![];
    let member = |w: &mut W<'d>, m: &ArchiveMember<'d>, objects: &mut Vec<&'d [u8]>| {
        u((m.header().is_some(), m.aix_header().is_some(), m.date(), m.uid(), m.gid(), m.mode(), m.size(), m.file_range(), m.is_thin()));
        w.inside("member name", m.name());
        if let Some(x) = w.ok("member data", m.data(d)) {
            w.inside("member data", x);
            if objects.len() < 4 && x.len() < d.len() {
                objects.push(x);
            }
        }
    };
    w.results("member", max, a.members(), |w, m| {
        if let Some(m) = w.ok("archive member", m) {
            member(w, &m, &mut objects);
        }
    });
    let it = w.some("archive symbols", a.symbols());
    if let Some(it) = it {
        w.each("archive symbol", max, it, |w, s| {
            if let Some(s) = w.ok("archive symbol", s) {
                w.inside("archive symbol name", s.name());
                if let Some(m) = w.ok("archive symbol member", a.member(s.offset())) {
                    member(w, &m, &mut objects);
                }
            }
        });
    }
    for o in [0, 1, 8, 60, d.len() as u64 / 2, d.len() as u64, u64::MAX - 60, u64::MAX] {
        if let Ok(m) = a.member(ArchiveOffset(o)) {
            member(w, &m, &mut objects);
        }
    }
    if w.left > 20_000 {
        for x in objects {
            if object::read::FileKind::parse(x).is_ok_and(|k| k != object::read::FileKind::Archive) {
                super::all(w, x);
            }
        }
    }
}
