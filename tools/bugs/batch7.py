"""Planted bugs that need a selection of features (own demo script): python3 tools/bugs/batch7.py [ids]"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import plant
HEAD = '''#!/bin/bash
# Builds a program against the library in the current directory, with few features.
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
object = { path = "$repo", default-features = false, features = [FEATURES] }
E
cat > "$t/src/main.rs" <<'E'
DEMOE
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline
'''
BUGS = {
 "coff-only-bigobj": ([("src/read/mod.rs", '''            #[cfg(feature = "coff")]
            [0x00, 0x00, 0xff, 0xff, 0x02, 0x00, ..] if''', '''            #[cfg(feature = "pe")]
            [0x00, 0x00, 0xff, 0xff, 0x02, 0x00, ..] if''')], '"read_core", "coff"', '''use object::Object;
fn main() {
    let mut v = vec![0u8, 0, 0xff, 0xff, 2, 0, 0x64, 0x86, 0, 0, 0, 0];
    v.extend([0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
    v.resize(56, 0);
    let f = object::File::parse(&*v).unwrap();
    assert_eq!(f.architecture(), object::Architecture::X86_64);
}
''', "", "a build with the coff feature and without pe, reading a bigobj file", "bigobj files are an unknown format in such a build"),
 "dynamic-relocations-no-std": ([("src/read/any.rs", '''    #[cfg(feature = "elf")]
    fn dynamic_relocations(''', '''    #[cfg(all(feature = "elf", feature = "std"))]
    fn dynamic_relocations('''), ("src/read/any.rs", '''    #[cfg(not(feature = "elf"))]
    fn dynamic_relocations(''', '''    #[cfg(not(all(feature = "elf", feature = "std")))]
    fn dynamic_relocations(''')], '"read_core", "elf"', '''use object::Object;
fn main() {
    let v = std::fs::read("a.so").unwrap();
    let f = object::File::parse(&*v).unwrap();
    assert!(f.dynamic_relocations().unwrap().count() > 0);
}
''', '''printf 'int x; int *alpha(void) { return &x; }\\nint *p = &x;\\n' > "$t/a.c" && gcc -shared -fPIC "$t/a.c" -o "$t/a.so" || exit 2
''', "a build without std, reading dynamic relocations through the unified API", "there are none in such a build"),
}
def make(id):
    edits, features, demo, pre, needs, breaks = BUGS[id]
    plant.prepare()
    d = f"{plant.V}/seeded/{id}"
    for f, a, b in edits:
        s = open(f"{plant.W}/{f}").read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(f"{plant.W}/{f}", "w").write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(plant.sh(f"git -C {plant.W} diff").stdout)
    head, tail = HEAD.replace("FEATURES", features).replace("DEMO", demo).rsplit('cd "$t"', 1)
    open(f"{d}/demo.sh", "w").write(head + pre + 'cd "$t"' + tail)
    json.dump(dict(property="C36", needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    plant.prepare()
    plant.confirm(id)
for id in sys.argv[1:] or BUGS:
    make(id)
