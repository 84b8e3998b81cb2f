CHECKS = {}
NA = {}
def c(id, technique, note, level="exploration"):
    CHECKS[id] = dict(technique=technique, note=note, level=level)
c("C01", "fuzzing: generated well-formed files of every format, damaged by mutation, truncation and splicing, plus noise and raw tables, are walked through every public accessor with overflow checks, item bounds, and a watchdog for endless loops and memory",
  "Random exploration; release-mode arithmetic is not run separately; caller-chosen arguments are varied only where the API expects values taken from a file.")
c("C03", "property-based testing against an index-arithmetic reference model",
  "Random exploration of cursor histories, views, string tables and LEB128 encodings; trusts the model in harness/src/bin/c03.rs.")
c("C04", "property-based testing against the standard library byte-order conversions; 16 bit values exhaustively",
  "Random exploration for 32/64 bit values; big-endian hosts are not run.")
c("C02", "stateful property-based testing: read histories through the cache and its sub-ranges against the in-memory slice, with short reads and injected stream faults",
  "Random exploration of histories over small streams.")
c("C23", "property-based testing (stateful): random operation histories on write::Object run in lock step with a model; the file is decoded by an independent strict Mach-O parser and compared, and inexpressible content must be rejected",
  "Random exploration of histories of up to 60 operations over 8 CPU types; the meaning of relocation entries comes from the check's own table.")
c("C26", "property-based testing of string multisets against a direct reading of the written table",
  "Random exploration; the 32-bit limit is reached only by synthetic offsets.")
c("C05", "property-based testing: an independent ELF encoder generates images, every reader answer is compared with the encoded model",
  "Random exploration of images with up to about 20 sections and segments plus images above the 16-bit numbering limits; trusts the encoder in harness/src/elf.rs.")
c("C06", "property-based testing: generated relocation lists are encoded as REL/RELA/RELR/CREL by an independent encoder and compared entry by entry; types below 512 of every machine swept",
  "Random exploration of lists up to 12 entries; relocation meanings are trusted from the table in harness/src/elfrel.rs.")
c("C07", "property-based testing: generated dynamic symbol, hash and version tables; lookups compared with a linear scan, entries with the encoded model",
  "Random exploration of tables with up to 16 symbols; SysV tables with 64-bit words (Alpha, s390x) are not generated.")
c("C08", "property-based testing: generated notes, properties, attributes, groups and links, plus mutated and truncated ones, compared with independent reference decoders",
  "Random exploration; entries whose final padding is missing are left open.")
c("C09", "property-based testing: contents compressed at every level, then truncated, flipped or mis-sized; decompression compared with the original",
  "Random exploration of contents up to 40 KB; zstd streams without checksum may decode to other data when corrupt.")

c("C10", "property-based testing: an independent COFF/bigobj/import encoder generates files, every reader answer is compared with the encoded model",
  "Random exploration of objects with up to about 10 sections and symbols plus counts above the 16-bit limits; trusts the encoder in harness/src/coff.rs.")

c("C11", "property-based testing: an independent PE encoder generates images with all directories, every reader answer and address translation is compared with the encoded model",
  "Random exploration of images with up to 6 sections; trusts the encoder in harness/src/pe.rs. Layouts the reader documents as unsupported (import names over several sections, non-RVA delay descriptors) are not generated.")

c("C12", "property-based testing: an independent Mach-O encoder generates files, every reader answer is compared with the encoded model; truncated and damaged variants must give errors",
  "Random exploration of files with up to 6 segments; trusts the encoder in harness/src/macho.rs. Scattered relocations are only compared as raw entries.")

c("C13", "property-based testing: opcode streams, fixup chains, tries and delta lists are generated from the locations they denote, and every decoded entry is compared; damaged ones must give errors",
  "Random exploration; trusts the encoders in harness/src/bin/c13.rs. Non-pointer values of 32-bit chains and tries with shared nodes are not generated.")

c("C14", "property-based testing: fat files, dyld caches with subcaches and slide information, and code signatures are generated by an independent encoder and every reader answer is compared; damaged ones must give errors and end",
  "Random exploration of fat files with up to 6 entries, caches with up to 5 files and signatures with up to 6 blobs; trusts the encoders in harness/src/bin/c14.rs.")

c("C15", "property-based testing: random XCOFF files from an independent encoder are read through the low-level and unified interfaces and compared with the model; ranges moved outside the file must give errors",
  "Random exploration of both widths, with auxiliary headers, overflow sections, debugger symbols and missing string tables; the loader section is not interpreted by the crate and not generated; is_common is not checked for XCOFF.")
c("C17", "property-based testing: an independent encoder generates archives in seven dialects, members and symbols are compared with the encoded ones; damaged headers, names and symbol tables must give errors",
  "Random exploration of archives with up to 6 members and 8 symbols; AIX and z/OS symbol tables are not decoded by the crate and not checked.")

c("C21", "property-based testing (stateful): random operation histories on write::Object run in lock step with a model; the file is decoded by an independent strict ELF parser and compared, and inexpressible content must be rejected",
  "Random exploration of histories of up to 60 operations over 34 architectures, both byte orders; up to 65313 sections in a few cases; the meaning of relocation types comes from harness/src/elfrel.rs.")

c("C22", "property-based testing (stateful): random operation histories on write::Object run in lock step with a model; the file is decoded by an independent strict COFF parser and compared, and inexpressible content must be rejected",
  "Random exploration of histories of up to 60 operations over 8 machine types; counts above the 16-bit limits in a few cases; the meaning of relocation types comes from harness/src/coff.rs.")

c("C24", "property-based testing (stateful): random operation histories on write::Object run in lock step with a model; the file is decoded by an independent strict XCOFF parser and compared, and inexpressible content must be rejected",
  "Random exploration of histories of up to 60 operations in both widths; counts above the 16-bit limits in a few cases; common and undefined symbols are taken as the crate writes them (no section, csect kind from the symbol kind).")
c("C25", "property-based testing with fault injection: random objects of the four formats are written to vectors, slices, recording buffers and streams that accept little, are interrupted or fail at a random byte; buffer operation histories against a model",
  "Random exploration; the failure point is drawn uniformly, at the first and at the last byte.")

c("C16", "property-based testing: random Wasm modules (imports, globals, exports, bodies, name, linking and reloc sections in non-minimal LEB encodings) from an independent encoder are read through WasmFile and File and every view is compared with the model; truncated and foreign files must be rejected",
  "Random exploration; compact imports and components are not generated.")
c("C18", "property-based testing (differential): generated and damaged files of every format go through the unified interface and the reader of the format (and its fixed-endian forms), and full descriptions of both are compared; file kinds are predicted from the magic numbers",
  "Random exploration over the encoders of the format checks, with up to four random changes per file; descriptions list at most 3000 items of an iteration.")
c("C19", "property-based testing (invariants): every lookup, range and iteration of generated and damaged files is compared with a linear scan of the iteration and with the bytes of the file",
  "Random exploration over the encoders of the format checks, with up to four random changes per file.")
c("C33", "stateful model-based testing: generated ELF and Mach-O files are rewritten with random modifications, through the options or call by call, and decoded by an independent strict parser; the result is compared with a model to which the same modifications were applied, and the segments with where the sections are",
  "Random exploration of files with up to about 20 sections and 10 segments and up to 4 modifications in two rounds. The command-line front end is C35.")
c("C34", "property-based testing: random values of every constant type, flag type and composite field against set algebra, masks and shifts taken from the specifications, the constants' own values for displayed names, and the values in LLVM's and glibc's headers",
  "Every constant and newtype of the four format modules; values are random combinations of constants, small numbers and arbitrary bits.")

c("C20", "property-based testing: symbol maps, Mach-O object maps and relocation maps over generated entries and files, compared with linear scans of the same entries, symbols and relocations",
  "Random exploration; for formats other than ELF the map is compared with the symbols the reader lists, which C10-C16 check.")

c("C27", "property-based testing (stateful): random reserve and write sequences of the two-phase and single-phase ELF writers, each encoder call and the attributes writer, compared byte by byte with an independent encoding of the requested values",
  "Random exploration of files with up to about 20 tables, with more than 65279 sections or segments in a few cases; string placement is checked through the reported offsets; in two-phase mode the named tables have section headers, as debug assertions demand.")

c("C28", "property-based testing (stateful): random reserve and write sequences of the COFF and PE writers compared byte by byte with an independent encoding of the requested values, and every returned offset, range and length with independent arithmetic",
  "Random exploration of files with up to 5 COFF sections and 8 symbols or about 8 PE sections; relocation counts above 65535 and string tables above 10 MB in a few cases.")

c("C29", "property-based testing: every encoder call with random values in both widths and byte orders is compared with an independent encoding and the advertised size, and the encoded structures convert back to the same values",
  "Random exploration of all fields; all code directory versions up to CS_SUPPORTSEXECSEG.")

c("C30", "property-based testing: generated relocatable and linked files are read into the builder and written, decoded by an independent strict parser and compared with the generating model, twice over; files with one unsupported feature must be rejected; damaged files must be rejected or give something readable; section numbers around the 16-bit limit",
  "Random exploration of files with up to about 25 sections, 6 segments, 12 symbols of each kind and 8 relocations per section.")

c("C31", "stateful model-based testing: random edit sequences are applied in lock step to a builder and an independent model, written, decoded by an independent strict parser and compared with the edited model, up to two read-edit-write rounds; building from nothing; segment layout helpers against interval invariants",
  "Random exploration of up to 10 edits per round on files of the size of C30; a write must fail exactly when the model says why.")

c("C32", "stateful model-based testing: generated relocatable files and linked images are read into the builder, edited in lock step with an independent model, written, decoded by an independent strict parser and compared with the model; building from nothing; inconsistent, unsupported and damaged files",
  "Random exploration of files with up to 6 sections, 8 symbols and 10 commands and up to 7 edits in two rounds.")

c("C35", "property-based testing (differential): random command lines over generated files are run with the command built from the tree and compared with the library given the same modifications: output bytes, printed lines, permissions, exit status, and what is left after a failure",
  "Random exploration of all options with ELF, Mach-O and other inputs; the library itself is checked by C33.")

c("C36", "property-based testing (differential): a small program is built with eight selections of features; all are given the same generated files, object descriptions and ELF files, and their descriptions and written bytes compared",
  "Random exploration over single formats, all formats without std, and nearly all features; other combinations are not built.")
