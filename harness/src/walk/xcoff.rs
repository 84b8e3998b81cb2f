//! The low-level XCOFF interface.
use super::*;
use object::read::xcoff::*;
use object::read::{SectionIndex, SymbolIndex};

type D<'d> = &'d [u8];

pub fn file<'d, H: FileHeader>(w: &mut W<'d>, d: D<'d>) {
    let max = w.max();
    let mut o = 0;
    let Some(h) = w.ok("xcoff header", H::parse(d, &mut o)) else { return };
    u((h.is_type_64(), h.f_magic(), h.f_nscns(), h.f_timdat(), h.f_nsyms(), h.f_opthdr(), h.f_flags(), h.is_supported()));
    let aux = h.aux_header(d, &mut o);
    if let Some(a) = w.some("xcoff aux header", aux) {
        u((a.o_mflag(), a.o_vstamp(), a.o_tsize().into(), a.o_entry().into(), a.o_toc().into(), a.o_snentry(), a.o_modtype(), a.o_x64flags(), a.o_algntext(), a.o_cputype()));
    }
    for o in [o, 0, d.len() as u64, u64::MAX] {
        let mut o = o;
        let Some(s) = w.ok("xcoff sections", h.sections(d, &mut o)) else { continue };
        u((s.is_empty(), s.len()));
        for i in [0, 1, s.len(), s.len() + 1, usize::MAX] {
            u(s.section(SectionIndex(i)).is_ok());
        }
        w.each("xcoff section", max, s.iter(), |w, s| {
            u((s.s_paddr().into(), s.s_vaddr().into(), s.s_size().into(), s.s_scnptr().into(), s.s_relptr().into(), s.s_lnnoptr().into(), s.s_nreloc().into(), s.s_nlnno().into(), s.s_flags()));
            w.inside("xcoff section name", s.name());
            u(s.file_range());
            w.bytes("xcoff section data", s.data(d));
            if let Some(r) = w.ok("xcoff relocations", s.relocations(d)) {
                w.array("xcoff relocations", r);
                w.each("xcoff relocation", max, r.iter(), |_, r| u((r.r_vaddr().into(), r.r_symndx(), r.r_rsize(), r.r_rtype(), r.symbol())));
            }
        });
    }
    if let Some(t) = w.ok("xcoff symbols", h.symbols(d)) {
        u((t.is_empty(), t.len()));
        strings(w, t.strings());
        w.each("xcoff symbol", max, t.iter(), |w, (i, s)| {
            u((s.n_value().into(), s.n_scnum(), s.n_type(), s.n_sclass(), s.n_numaux(), s.name_offset(), s.section(), s.is_null(), s.is_undefined(), s.has_debug_name()));
            w.bytes("xcoff symbol name", s.name(t.strings()));
            for k in 0..s.n_numaux() as usize + 2 {
                if s.has_aux_file() {
                    if let Some(a) = w.ok("xcoff aux file", t.aux_file(i, k)) {
                        u((a.x_fname(), a.x_ftype(), a.x_auxtype(), a.name_offset()));
                        w.bytes("xcoff file name", a.fname(t.strings()));
                    }
                }
                if s.has_aux_csect() {
                    if let Some(a) = w.ok("xcoff aux csect", t.aux_csect(i, k)) {
                        u((a.x_scnlen(), a.x_parmhash(), a.x_snhash(), a.x_smtyp(), a.x_smclas(), a.x_stab(), a.x_snstab(), a.x_auxtype(), a.alignment(), a.sym_type()));
                    }
                }
            }
        });
        for i in [0, 1, t.len(), t.len() + 1, u32::MAX as usize, usize::MAX - 1, usize::MAX] {
            u(t.symbol(SymbolIndex(i)).is_ok());
            for o in [0, 1, 255, usize::MAX] {
                u(t.get::<[u8; 18]>(SymbolIndex(i), o).is_ok());
            }
        }
    }
    if let Ok(f) = XcoffFile::<H>::parse(d) {
        w.saw("xcoff file");
        u((f.xcoff_header().f_flags(), f.xcoff_aux_header().is_some(), f.xcoff_section_table().len(), f.xcoff_symbol_table().len()));
        use object::read::Object;
        w.each("xcoff sections", max, f.sections(), |w, s| {
            u(s.xcoff_section().s_flags());
            if let Ok(r) = s.xcoff_relocations() {
                w.array("xcoff relocations", r);
            }
        });
        w.each("xcoff symbols", max, f.symbols(), |_, s| u(s.xcoff_symbol().n_scnum()));
    }
}
