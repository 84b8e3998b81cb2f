"""Single source of truth for properties.jsonl and MANIFEST.json (see gen.py)."""
ALL_READ = ["src/read"]
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None,
         bin=None, level="exploration", note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=state or [], hook=hook, bin=bin, level=level,
                  note=note, technique=technique))

M = lambda name, where: {"name": name, "where": where}

prop("C01", "Any bytes parse to a value or an error, never a panic",
 "For every byte sequence, every public parsing entry point and every accessor and iterator reachable from a successfully parsed object file, archive, cache or table returns a value or an error: it never panics, never overflows arithmetic, and never reads outside the input. Every iterator ends, including after it has yielded an error, and the number of items is bounded by the size of the input or by a 16-bit count in it, except where the format itself is a compressed encoding (repeat counts, bitmaps, chains and tries with shared nodes), where it is still finite.",
 ["inputs"], "all byte strings, given to every parser (ELF, COFF, PE, Mach-O, XCOFF, Wasm, archives, dyld caches, fat binaries, and the sub-tables of each)",
 "Unit tests parse a few well-formed files and a handful of hand-written malformed tables; the testfiles corpus is absent here. The claim ranges over every malformed input.",
 ["src/read"], [M("checked arithmetic and bounds-checked ReadRef/Bytes reads; fallible iterators that clear their state on error", "src/read/**")],
 ["object::File::parse and all format specific parse functions"])

prop("C02", "Reading through a stream cache equals reading from memory",
 "For every sequence of reads, a stream-backed cache or a sub-range view of one returns the same bytes and the same success or failure for each read as the corresponding in-memory slice, whatever reads came before it and however short the underlying stream's individual reads are; the one documented exception is a delimited string longer than the cache's 4096 byte string limit, which may fail. Consequently parsing a file through the cache gives exactly the results of parsing it from memory, and references handed out stay valid and unchanged while later reads extend the cache.",
 ["histories", "inputs", "fault_sequences"], "all sequences of (offset, size) and (range, delimiter) reads, over all contents, sub-ranges and chunkings of the underlying stream, including streams that fail",
 "One test parses the test binary itself through the cache. Cached entries interact across a history of overlapping reads, which no test generates.",
 ["src/read/read_cache.rs", "src/read/read_ref.rs"], [M("entries keyed by read position, never removed", "src/read/read_cache.rs ReadCacheInternal")],
 ["ReadRef for &[u8], &ReadCache, ReadCacheRange"])

prop("C03", "Byte-slice primitives agree with a direct model",
 "Bounds-checked byte cursors, plain-data views, null-terminated string tables and LEB128 decoding return exactly the bytes or values at the requested position and advance by exactly what they consumed, and fail exactly when the request leaves the available bytes, is unterminated, is misaligned for the target type, or encodes an integer that does not fit in 64 bits. A failed read never exposes bytes outside the input.",
 ["inputs", "histories"], "all byte slices, offsets, counts and sequences of cursor operations",
 "Unit tests check a dozen fixed offsets on two small buffers; no generated offsets, no LEB128 values beyond a few.",
 ["src/read/util.rs", "src/pod.rs", "src/read/read_ref.rs"], [M("size and alignment checks before pointer casts", "src/pod.rs"), M("Bytes methods", "src/read/util.rs")],
 ["object::pod, object::read::Bytes, object::read::StringTable, object::ReadRef"])

prop("C04", "Endian-aware integers convert exactly",
 "For every integer value and both byte orders, storing a value through an endian-aware type or endianness converter and reading it back yields the value, and the stored bytes are exactly the big- or little-endian two's complement encoding of that width, independent of the host; compile-time and run-time endianness selections agree. Endian-aware types have alignment 1 and exactly the width of their integer.",
 ["inputs"], "all u16/u32/u64/i16/i32/i64 values, both endiannesses, all wrapper types",
 "There are no tests for the endian conversions; they are used indirectly on little-endian samples.",
 ["src/endian.rs"], [M("Endian trait read/write methods and U16/U32/U64/I16/I32/I64 wrappers", "src/endian.rs")],
 ["object::endian"])

prop("C05", "ELF headers, segments, sections and symbols are read exactly",
 "For every ELF image laid out according to the specification, in either class and byte order and including extended section, segment and string-table numbering and extended symbol section indices, the low-level and unified readers report exactly the encoded file header, program headers, section headers, names, contents, file ranges and symbols, with section and symbol kinds, scopes, flags, architecture and file kind following from the encoded fields. A table, string or range that lies outside the file is reported as an error and never as different data.",
 ["inputs"], "all combinations of class, endianness, header field values, section/segment/symbol tables and table placements",
 "Tests read back a few little-endian 64-bit files produced by the crate's own writer, so a mirrored mistake in reader and writer, 32-bit or big-endian handling, and numbering overflow paths are not settled.",
 ["src/read/elf/file.rs", "src/read/elf/section.rs", "src/read/elf/segment.rs", "src/read/elf/symbol.rs", "src/elf.rs"],
 [M("FileHeader/SectionHeader/ProgramHeader/Sym accessors", "src/read/elf"), M("raw struct layouts", "src/elf.rs")],
 ["object::read::elf::ElfFile and low level traits"])

prop("C06", "ELF relocations are read exactly in every encoding",
 "For every ELF relocation section (REL, RELA, RELR, compact CREL, and the little-endian 64-bit MIPS layout), in section-associated or dynamic form, iteration yields exactly the encoded sequence of offsets, symbols, types and addends, associated with the section it applies to. The architecture-independent kind, encoding, size and implicit-addend indication are the ones defined for that machine's relocation type, and unknown types are reported as unknown with their raw type preserved.",
 ["inputs"], "all relocation lists and encodings for every class, endianness and machine",
 "Round-trip tests cover one relocation per architecture via the crate's writer; RELR/CREL decoding has only overflow unit tests.",
 ["src/read/elf/relocation.rs", "src/read/elf/section.rs"], [M("parse_relocation, RelrIterator, CrelIterator, RelocationSections", "src/read/elf/relocation.rs")],
 ["ObjectSection::relocations, Object::dynamic_relocations, SectionHeader::{rel,rela,relr,crel}"])

prop("C07", "ELF dynamic-linking tables give the linker's answers",
 "For every well-formed dynamic symbol table with its SysV hash, GNU hash and GNU version tables, hash lookup of a name and version finds a symbol exactly when a linear scan of the hashed defined symbols does, the symbol count derived from a hash table matches the table, and version lookup reports exactly the definition or requirement each symbol's version index refers to. Dynamic entries, needed libraries, imports and exports reported by the unified interface are exactly those encoded, with their library, version, weakness and target.",
 ["inputs"], "all dynamic symbol sets, bucket/bloom configurations, version definitions/requirements and lookup keys",
 "Unit tests cover only degenerate hash tables (zero buckets); lookups of present and absent names over arbitrary tables are untested.",
 ["src/read/elf/hash.rs", "src/read/elf/version.rs", "src/read/elf/dynamic.rs", "src/read/elf/import.rs", "src/read/elf/export.rs"],
 [M("HashTable/GnuHashTable::find", "src/read/elf/hash.rs"), M("VersionTable::parse", "src/read/elf/version.rs")],
 ["read::elf::{HashTable, GnuHashTable, VersionTable, DynamicTable}, Object::{imports, exports, import_libraries}"])

prop("C08", "ELF notes, properties, attributes, groups and links are read exactly",
 "For every well-formed ELF note segment or section (4 and 8 byte alignment), GNU property note, build-attributes section, section group, build-id, debug link and alternate debug link, parsing yields exactly the encoded entries in order with their names, types, descriptors, scopes, tags, values, members and checksums, and stops cleanly at the end. A truncated or inconsistent entry yields an error and then the end of the iteration, not a fabricated entry.",
 ["inputs"], "all sequences of notes/properties/attributes/group members in either class and endianness",
 "Tests contain one GNU property note, one simple note and one attribute section, all little-endian.",
 ["src/read/elf/note.rs", "src/read/elf/attributes.rs", "src/read/elf/comdat.rs", "src/read/elf/file.rs"],
 [M("NoteIterator, GnuPropertyIterator, AttributesSection iterators, ElfComdat", "src/read/elf")],
 ["SectionHeader::{notes, group, attributes}, Object::{build_id, gnu_debuglink, gnu_debugaltlink, comdats}"])

prop("C09", "Compressed sections decompress to the original or fail",
 "For every section stored with standard ELF compression (zlib or zstd, either class and byte order) or GNU-style compressed debug naming (ELF and Mach-O), the reported format, file range and sizes describe the stored stream, and decompression returns exactly the original bytes. Decompression never returns data whose length differs from the recorded uncompressed size, and returns an error for truncated, corrupt or unsupported streams; sections that are not compressed are returned unchanged.",
 ["inputs"], "all contents, compression levels, header placements, truncations and corruptions",
 "Two tests round-trip one zlib-compressed section each.",
 ["src/read/elf/compression.rs", "src/read/gnu_compression.rs", "src/read/mod.rs", "src/read/elf/section.rs", "src/read/macho/section.rs"],
 [M("CompressedData::decompress size check", "src/read/mod.rs")], ["ObjectSection::{compressed_file_range, compressed_data, uncompressed_data}"])

prop("C10", "COFF objects and short import files are read exactly",
 "For every COFF object laid out according to the specification, regular or big-object form, the reader reports exactly the encoded header, sections with long names, contents, characteristics and alignment, symbols with auxiliary records, COMDAT selections, and relocations including counts that overflow 16 bits. Short import files report exactly their machine, symbol, library, type and import name.",
 ["inputs"], "all section/symbol/auxiliary/relocation tables, name lengths and encodings, machines",
 "Tests round-trip a few x86-64 objects through the crate's own writer; big objects and import files are only covered by the absent testfiles.",
 ["src/read/coff", "src/pe.rs"], [M("CoffHeader/SectionTable/SymbolTable/relocation parsing", "src/read/coff")],
 ["read::coff::{CoffFile, CoffBigFile, ImportFile}, unified API"])

prop("C11", "PE images and their data directories are read exactly",
 "For every PE32 or PE32+ image laid out according to the specification, headers, data directories and sections are reported as encoded, address-to-data translation returns exactly the file bytes mapped at that address, and import, delay-import, export, base-relocation, resource, debug (PDB) and rich-header parsing yields exactly the encoded entries. An address that is not backed by file data is an error, never other data.",
 ["inputs"], "all section layouts, directory placements and table contents for 32- and 64-bit images",
 "No test in the stable suite parses a PE directory; the testfiles corpus that does is absent and fixed.",
 ["src/read/pe", "src/pe.rs"], [M("DataDirectories, SectionTable::pe_data_at, ImportTable, ExportTable, RelocationBlockIterator, ResourceDirectory, RichHeaderInfo", "src/read/pe")],
 ["read::pe::PeFile and sub-parsers, unified API"])

prop("C12", "Mach-O commands, sections, symbols and relocations are read exactly",
 "For every Mach-O file laid out according to the specification, in either width and byte order, load command iteration yields exactly the encoded commands, and segments, sections, symbols (including STAB, common, indirect-table and library-ordinal information) and relocations, including paired and scattered ones, are reported exactly as encoded with the kinds, scopes and flags that follow from them. Entry point, UUID, build version and dylib information equal what the load commands encode.",
 ["inputs"], "all load command sequences, segment/section/symbol/relocation tables in both widths and byte orders",
 "Tests round-trip a few x86-64 relocatable files through the crate's own writer.",
 ["src/read/macho/file.rs", "src/read/macho/load_command.rs", "src/read/macho/segment.rs", "src/read/macho/section.rs", "src/read/macho/symbol.rs", "src/read/macho/relocation.rs", "src/macho.rs"],
 [M("LoadCommandIterator, Segment/Section/Nlist traits", "src/read/macho")], ["read::macho::MachOFile, LoadCommandData, unified API"])

prop("C13", "Mach-O dynamic-linker tables decode to the encoded fixups and symbols",
 "For every well-formed rebase, bind, weak-bind and lazy-bind opcode stream, chained-fixup table in every supported pointer format, exports trie and function-starts list, decoding yields exactly the addresses, pointer types, ordinals, symbols, addends, flags and export targets that the encoding denotes, in encoding order and exactly once each. The unified imports and exports agree with those tables.",
 ["inputs"], "all opcode programs, pointer chains, tries and delta lists",
 "Only three tiny export tries and no opcode or chain programs are tested.",
 ["src/read/macho/dyld_info.rs", "src/read/macho/fixup.rs", "src/read/macho/exports_trie.rs", "src/read/macho/function_starts.rs", "src/read/macho/import.rs", "src/read/macho/export.rs"],
 [M("opcode interpreters, chain iterators, trie walk with cycle detection", "src/read/macho")], ["read::macho dyld info, chained fixups, exports trie APIs; Object::{imports, exports}"])

prop("C14", "Mach-O fat files, dyld caches and code signatures are read exactly",
 "For every well-formed fat binary (32- and 64-bit), dyld shared cache with its mappings, images, sub-caches and slide information, and embedded code signature, parsing reports exactly the encoded architectures, ranges, images, addresses, relocations, blobs, identifiers and hash slots. Address translation in a cache returns the data of the mapping containing the address, and ranges outside the file are errors.",
 ["inputs"], "all fat headers, cache layouts and slide formats, signature blob sets and code directory versions",
 "Tests have one code-signature encoding pair; fat files and caches are untested here.",
 ["src/read/macho/fat.rs", "src/read/macho/dyld_cache.rs", "src/read/macho/codesign.rs"],
 [M("MachOFatFile::parse, DyldCache::parse, slide iterators, CodeDirectory", "src/read/macho")], ["read::macho::{MachOFatFile, DyldCache, CodeSignature, CodeDirectory}"])

prop("C15", "XCOFF files are read exactly",
 "For every XCOFF file laid out according to the specification, 32- or 64-bit, headers, sections, overflow relocation counts, symbols with file, csect and other auxiliary entries, and relocations are reported exactly as encoded, with symbol sizes, kinds, scopes and containing sections derived from their auxiliary entries.",
 ["inputs"], "all section, symbol, auxiliary and relocation tables in both widths",
 "One test round-trips one file per width through the crate's own writer.",
 ["src/read/xcoff", "src/xcoff.rs"], [M("FileHeader, SectionTable, SymbolTable, CsectAux parsing", "src/read/xcoff")],
 ["read::xcoff::XcoffFile and low level traits, unified API"])

prop("C16", "Wasm modules are read exactly",
 "For every well-formed WebAssembly module, the reader reports exactly its sections in order with their names, ranges and contents, the relocations of its reloc sections for the section each one targets, and the symbols of its linking section or, without one, of its imports, exports and function names, with names, scopes, sizes and addresses following from the encoded flags, indices, code ranges and constant globals. The entry point is the address of the start function. Components, other versions and truncated modules are errors.",
 ["inputs"], "all section sequences and linking metadata",
 "No stable test parses a Wasm module.",
 ["src/read/wasm.rs"], [M("WasmFile::parse", "src/read/wasm.rs")], ["read::wasm::WasmFile, unified API"])

prop("C17", "Archives are read exactly in every dialect",
 "For every archive in GNU, GNU64, BSD, Darwin 64-bit, COFF/Windows, AIX big, z/OS or thin form, member iteration yields exactly the stored members in order with their full names, metadata and contents, and the symbol index (of the GNU, BSD and COFF dialects) yields exactly the encoded symbol names with offsets that resolve to the members defining them. Members whose size, name or header is inconsistent with the file yield errors, not other data.",
 ["inputs"], "all member lists, name lengths and encodings, symbol tables in every dialect",
 "Unit tests cover one or two fixed hand-written archives per dialect.",
 ["src/read/archive.rs", "src/archive.rs"], [M("ArchiveFile::parse, member and symbol iterators", "src/read/archive.rs")], ["read::archive::ArchiveFile"])

prop("C18", "File kind detection and unified dispatch agree with the format reader",
 "For every input, the detected file kind is the one its magic numbers define, and parsing through the unified interface succeeds exactly when the corresponding format-specific parser does and then reports identical results for every query. Inputs of an unrecognised or non-object kind are rejected with an error.",
 ["inputs"], "all inputs of every format, including truncated and mutated ones",
 "Tests exercise the unified interface on single sample files, not its agreement with the format readers.",
 ["src/read/any.rs", "src/read/mod.rs"], [M("FileKind::parse_at, with_inner dispatch", "src/read/any.rs")], ["object::FileKind, object::File vs format-specific files"])

prop("C19", "Lookups, ranges and iterations over one file are mutually consistent",
 "For every parsed file of any format, looking up a section or symbol by index returns the entity that iteration yields with that index, looking up by name returns the first iterated match under the format's documented naming conventions, and repeated iteration gives the same result. Section and segment contents equal the bytes at their reported file range, reading an address sub-range returns exactly the corresponding slice or nothing, and string accessors agree with their byte-string forms.",
 ["inputs"], "all parsed files of every format, all indices, names and address ranges",
 "Tests perform individual lookups on sample files.",
 ["src/read/traits.rs", "src/read/any.rs", "src/read/elf/file.rs", "src/read/macho/file.rs", "src/read/pe/file.rs", "src/read/coff/file.rs", "src/read/xcoff/file.rs", "src/read/wasm.rs"],
 [M("Object/ObjectSection/ObjectSymbol trait implementations", "src/read")], ["object::{Object, ObjectSection, ObjectSymbol, ObjectSegment}"])

prop("C20", "Address maps answer as a linear scan would",
 "For every set of symbols and every address, the address-sorted symbol map returns the nearest entry at or before the address, and returns it as containing the address exactly when its size is zero or reaches past the address, as a linear scan would, building it from a file keeps exactly the defined named text and data symbols with the documented tie-breaking and size guessing, and the Mach-O debug map gives exactly the functions and objects its STAB entries describe. Relocating values through a relocation map yields the symbol or section address plus the applicable addend for supported relocations and an error for unsupported or duplicate ones.",
 ["inputs"], "all symbol sets, sizes, overlaps, addresses and relocation lists",
 "No stable test checks symbol maps, object maps or relocation maps.",
 ["src/read/symbol_map.rs", "src/read/macho/file.rs", "src/read/mod.rs"], [M("SymbolMapBuilder::build, SymbolMap::{before,containing}, RelocationMap", "src/read")],
 ["Object::{symbol_map, object_map}, ObjectSection::relocation_map"])

prop("C21", "A written ELF object reads back as what was added",
 "For every sequence of sections, data, symbols, relocations and COMDAT groups added to a writable ELF object for any supported architecture, class and byte order, the file produced is a structurally valid ELF object containing exactly those sections (names, flags, alignment, contents), symbols (name, value, size, binding, type, visibility, section) and relocations (offset, symbol, type, addend). Content the format cannot express (unsupported kinds, flags, relocations or names) is rejected with an error rather than altered; numeric values are assumed to fit the fields they are for.",
 ["histories", "configurations"], "all operation sequences on the write API times architecture, class and endianness",
 "Round-trip tests build about ten fixed objects.",
 ["src/write/mod.rs", "src/write/elf"], [M("Object::emit two-phase layout", "src/write/elf/object.rs")], ["object::write::Object::write, decoded by an independent ELF parser and by object::File"])

prop("C22", "A written COFF object reads back as what was added",
 "For every sequence of sections, data, symbols, relocations and COMDAT sections added to a writable COFF object for any supported machine, the file produced is a structurally valid COFF object containing exactly those sections, symbols with their auxiliary records, COMDAT selections and relocations, with addends stored in the section contents, including names longer than eight bytes and relocation counts over 65535. Content the format cannot express (unsupported kinds, flags, relocations or names) is rejected with an error rather than altered; numeric values are assumed to fit the fields they are for.",
 ["histories", "configurations"], "all operation sequences on the write API times COFF machine",
 "Round-trip tests build about six fixed objects.",
 ["src/write/mod.rs", "src/write/coff"], [M("coff object and writer", "src/write/coff")], ["object::write::Object::write, decoded by an independent COFF parser and by object::File"])

prop("C23", "A written Mach-O object reads back as what was added",
 "For every sequence of sections, data, symbols (including common and thread-local ones), relocations with or without subtractors, build version and subsection settings added to a writable Mach-O object for any supported architecture, the file produced is a structurally valid Mach-O object containing exactly that content, with symbols ordered local, defined external, undefined and every symbol reference following the reordering. Content the format cannot express (unsupported kinds, flags, relocations or names) is rejected with an error rather than altered; numeric values are assumed to fit the fields they are for.",
 ["histories", "configurations"], "all operation sequences on the write API times Mach-O architecture",
 "Round-trip tests build about six fixed objects.",
 ["src/write/mod.rs", "src/write/macho"], [M("macho object writer and relocation translation", "src/write/macho/object.rs")], ["object::write::Object::write, decoded by an independent Mach-O parser and by object::File"])

prop("C24", "A written XCOFF object reads back as what was added",
 "For every sequence of sections, data, symbols and relocations added to a writable XCOFF object, 32- or 64-bit, the file produced is a structurally valid XCOFF object containing exactly those sections, symbols with their auxiliary csect and file entries, and relocations. Content the format cannot express (unsupported kinds, flags, relocations or names) is rejected with an error rather than altered; numeric values are assumed to fit the fields they are for.",
 ["histories", "configurations"], "all operation sequences on the write API for both XCOFF widths",
 "One test builds two fixed objects.",
 ["src/write/xcoff.rs"], [M("xcoff object writer", "src/write/xcoff.rs")], ["object::write::Object::write, decoded by an independent XCOFF parser and by object::File"])

prop("C25", "Every output sink receives the same complete, pre-announced bytes",
 "For every object, writing to a vector, to a caller-supplied buffer and to a stream produces identical bytes, repeating the write reproduces them, and a buffer receives exactly one size announcement, before any bytes, equal to the number of bytes then written. A failing stream or a refused announcement is always reported as an error and a fixed-size buffer is never written beyond the announced size.",
 ["histories", "fault_sequences"], "all objects of every writable format, all sink kinds and all points at which a sink fails",
 "One unit test covers the slice buffer; no test injects sink failures or compares sinks.",
 ["src/write/util.rs", "src/write/mod.rs"], [M("WritableBuffer contract, CountingBuffer, StreamingBuffer", "src/write/util.rs")], ["write::Object::{write, emit, write_stream}, WritableBuffer implementations"])

prop("C26", "String tables place every string at its reported offset",
 "For every set of strings, the written string table contains each added string, null-terminated, at the offset reported for it, never grows beyond storing the distinct strings separately, shares storage between a string and its suffixes when merging is enabled, and preserves insertion order when order is requested. Duplicate additions return the same identifier, the reported size is the written size, and strings containing null bytes, repeated writes or tables over the 32-bit limit are errors.",
 ["inputs", "histories"], "all multisets of byte strings, bases and modes",
 "Unit tests use four fixed strings.",
 ["src/write/string.rs"], [M("suffix-sorting multi-key quicksort", "src/write/string.rs")], ["write::StringTable"])

prop("C27", "Low-level ELF writing emits exactly what was requested where it was reserved",
 "For every sequence of headers, sections, symbols, dynamic entries, hash tables, version tables, relocations, groups and attributes written through the low-level ELF writers, in one-phase or two-phase use, any class and byte order, the bytes emitted have the reserved offsets and sizes and decode, by the specification, to exactly the values passed in, including extended numbering for large counts and indices.",
 ["histories", "configurations"], "all reserve/write sequences and table contents",
 "Tests cover empty tables, one symtab_shndx case, and a program header count overflow.",
 ["src/write/elf/writer.rs", "src/write/elf/encoder.rs"], [M("reserve/write phases, Encoder size and encode pairs", "src/write/elf")], ["write::elf::{Writer, Encoder, AttributesWriter}"])

prop("C28", "Low-level COFF and PE writing emits exactly what was requested",
 "For every sequence of headers, sections, symbols, relocations, base relocations and directories written through the low-level COFF and PE writers, reserved offsets, sizes and virtual addresses match the bytes emitted, section layout respects the file and section alignments without overlap, and the output decodes by the specification to exactly the values passed in, including long names and relocation count overflow, with consistent size totals and header fields.",
 ["histories", "configurations"], "all reserve/write sequences, alignments and table contents",
 "One relocation overflow test; the PE writer has no stable test.",
 ["src/write/coff/writer.rs", "src/write/pe.rs"], [M("reserve/write phases", "src/write/coff/writer.rs, src/write/pe.rs")], ["write::coff::Writer, write::pe::Writer"])

prop("C29", "Low-level Mach-O and code-signature encoding emits exactly what was requested",
 "For every header, load command, section, symbol, relocation, indirect symbol, string table, and code-signature blob passed to the low-level Mach-O encoders, in either width and byte order, the bytes emitted have exactly the advertised size and decode, by the specification, to exactly the values passed in; converting a raw structure to its writable form and encoding it reproduces the original bytes.",
 ["inputs", "configurations"], "all structure field values, widths, byte orders and code directory versions",
 "Two code-signature encoder tests with fixed values.",
 ["src/write/macho/encoder.rs"], [M("Encoder size and encode pairs", "src/write/macho/encoder.rs")], ["write::macho::{Encoder, CodeSignatureEncoder}"])

prop("C30", "Reading an ELF file into a builder and writing it preserves it",
 "For every well-formed ELF file, relocatable or linked, made of section types the builder supports and with its loaded contents in sections, reading it into the builder and writing it without changes succeeds and yields a file with the same header identity, segments, sections (names, types, flags, addresses, contents), symbols, dynamic symbols, hash tables, relocations, dynamic entries, notes and attributes, and the versions that its dynamic symbols use (unused ones are dropped). Writing that result again preserves it and reaches a fixed point. Loaded contents keep their addresses and their segment placement congruent with the file. A file with something the builder does not support is rejected with an error, and no damaged file makes reading or writing panic.",
 ["inputs"], "all well-formed ELF files of both classes and byte orders",
 "Tests cover a handful of small builders; rewriting real files is in the absent testfiles.",
 ["src/build/elf.rs"], [M("Builder::read / Builder::write", "src/build/elf.rs")], ["build::elf::Builder, decoded by an independent ELF parser"])

prop("C31", "Edits in the ELF builder change only what was edited",
 "For every sequence of additions, deletions and modifications of sections, segments, symbols, relocations, dynamic entries, versions and attributes in the ELF builder, the written file contains exactly the edited model: deleted items and everything that refers to them are gone, every surviving reference still denotes the same item after renumbering, and everything else is unchanged. Reported section and table sizes equal the sizes written.",
 ["histories"], "all edit sequences over all builder contents",
 "Tests perform at most one edit on a fixed builder.",
 ["src/build/elf.rs", "src/build/table.rs"], [M("Builder::write renumbering, delete_orphans, section_size", "src/build/elf.rs")], ["build::elf::Builder edits, decoded by an independent ELF parser"])

prop("C32", "The Mach-O builder preserves and edits files faithfully",
 "For every well-formed relocatable Mach-O file or linked Mach-O image of a supported kind, reading it into the builder and writing it yields a file with the same header, load commands, segments, sections, contents (mapped at the same addresses for images), symbols, indirect symbols and relocations, and for relocatable files a second pass is a fixed point; after deleting or adding items, the written file contains exactly the edited model with every surviving symbol and section reference denoting the same item. Unsupported or inconsistent input is rejected with an error.",
 ["inputs", "histories"], "all relocatable and linked Mach-O files and edit sequences",
 "There is no stable test of the Mach-O builder.",
 ["src/build/macho.rs"], [M("Builder::read / Builder::write renumbering", "src/build/macho.rs")], ["build::macho::Builder, decoded by an independent Mach-O parser"])

prop("C33", "The rewriter applies exactly the requested modifications",
 "For every well-formed ELF or Mach-O file and every combination of rewriting options (deleting or renaming sections and symbols; changing runpaths, needed libraries, the soname, the interpreter and DT_DEBUG), the output is a valid file in which exactly the requested modifications are visible and all unaffected sections, symbols and loaded contents are unchanged. Code and data that other parts of the program may refer to by address remain mapped at their original address, and anything that does move is moved together with everything that describes where it is. With no options the content is preserved.",
 ["inputs", "configurations"], "all input files times option combinations",
 "The rewrite tests depend on the absent testfiles; none is stable here.",
 ["crates/rewrite/src/elf.rs", "crates/rewrite/src/rewriter.rs"], [M("Rewriter::modify", "crates/rewrite/src/elf.rs")], ["object_rewrite::Rewriter"])

prop("C34", "Constant newtypes, names and bit-field helpers are lossless",
 "For every raw value, file-format constant newtypes preserve the value, flag types behave as sets of bits, composite fields (such as symbol binding and type, visibility, version index, relocation info and alignment) split and recombine to the same raw value, and a displayed constant name denotes a constant with exactly that value while values without a name are displayed numerically.",
 ["inputs"], "all raw values of all constant and flag types",
 "One unit test checks the defining macros on a toy type.",
 ["src/constants.rs", "src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs"], [M("constants macros and helper methods", "src/constants.rs")], ["object::{elf, macho, pe, xcoff} constant types"])

prop("C35", "The rewriting command does what its command line says",
 "For every input file and every command line of the object-rewrite command, the output (a file or standard output) holds exactly what the library gives for the modifications that the options name: every occurrence of a repeatable option counts, old=new is split at its first '=', lists of symbols are read line by line, and options can be in any order. Requested information is printed before modifying. The input is never changed, an output path that names the input is refused, and a new output file gets the permissions of the input and an existing one is replaced completely. When an argument is malformed, or reading, modifying or writing fails, the exit status is nonzero and no output file is created or left partial; inputs of unknown format are skipped only on request.",
 ["inputs", "configurations", "faults"], "all input files times command lines with UTF-8 arguments",
 "No test runs the command.",
 ["crates/rewrite/src/main.rs"], [M("main", "crates/rewrite/src/main.rs")], ["the object-rewrite command"])

prop("C36", "Crate features decide what is available, not what it does",
 "For every selection of the crate's features: a file whose format is enabled is described by the unified read API exactly as with all formats enabled, with or without std, and a file whose format is not enabled is an error; an object or ELF file is written to the same bytes with and without std and on every run. Compressed sections need the compression feature, and constants are displayed by name only with the names feature.",
 ["inputs", "configurations"], "all input files and object descriptions, times selections of features",
 "The tests run with one selection of features.",
 ["src/lib.rs", "src/read/mod.rs", "src/read/any.rs", "src/write/mod.rs", "src/write/string.rs", "src/build/elf.rs", "Cargo.toml"], [M("feature gates", "src/read/mod.rs, src/read/any.rs"), M("hash maps without std", "src/write/string.rs, src/write/mod.rs")], ["object::File::parse", "object::write::Object::write", "object::build::elf::Builder"])

