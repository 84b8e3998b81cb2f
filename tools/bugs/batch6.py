"""Planted bugs in the rewriter's command (own demo script): python3 tools/bugs/batch6.py [ids]"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import plant
HEAD = '''#!/bin/bash
# Builds the command from the current directory and runs it in a scratch directory.
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cargo build -q --offline --manifest-path "$repo/Cargo.toml" --target-dir "$t/target" -p object-rewrite --bin object-rewrite --features cli,object/macho || exit 2
c="$t/target/debug/object-rewrite"
cd "$t" || exit 2
printf 'int alpha(void) { return 1; }\\nint beta(void) { return alpha(); }\\n' > a.c && gcc -c a.c -o a.o || exit 2
'''
F = "crates/rewrite/src/main.rs"
BUGS = {
 "cli-output-not-truncated": ([(F, "open_options.write(true).create(true).truncate(true);", "open_options.write(true).create(true);")],
  '''"$c" a.o want || exit 1
head -c 100000 /dev/zero > out || exit 2
"$c" a.o out || exit 1
cmp want out
''', "an output file that exists and is longer than the new one", "the end of the old file stays after the new contents"),
 "cli-rename-list-first-wins": ([(F, '''            line.clear();
        }''', '''            line.truncate(0);
        }'''), (F, '''            options
                .rename_symbols
                .insert(names[0].to_vec(), names[1].to_vec());
            line''', '''            let new = names[1].trim_ascii();
            options
                .rename_symbols
                .insert(names[0].to_vec(), new.to_vec());
            line''')],
  '''printf 'alpha  gamma delta \\n' > list
"$c" a.o out --rename-symbols list || exit 1
nm out | grep -c -F 'T  gamma delta ' | grep -qx 1
''', "a list of symbols with a new name that begins or ends with spaces", "the spaces of the new name are dropped"),
}
def make(id):
    edits, demo, needs, breaks = BUGS[id]
    plant.prepare()
    d = f"{plant.V}/seeded/{id}"
    for f, a, b in edits:
        s = open(f"{plant.W}/{f}").read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(f"{plant.W}/{f}", "w").write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(plant.sh(f"git -C {plant.W} diff").stdout)
    open(f"{d}/demo.sh", "w").write(HEAD + demo)
    json.dump(dict(property="C35", needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    plant.prepare()
    plant.confirm(id)
for id in sys.argv[1:] or BUGS:
    make(id)
