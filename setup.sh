#!/bin/bash
cd "$(dirname "$0")" || exit 3
. ./env.sh
dev=; rel=
for f in harness/src/bin/*.rs; do
    b=$(basename "$f" .rs)
    case " $REL " in *" $b "*) rel="$rel --bin $b";; *) dev="$dev --bin $b";; esac
done
b() { cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target" "$@"; }
[ -z "$dev" ] || b --profile dev $dev || exit 3
[ -z "$rel" ] || b --profile rel $rel || exit 3
# The command that C35 runs; its check builds it again from the current tree.
cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$PWD/target/cli" -p object-rewrite --bin object-rewrite --features cli,object/macho || exit 3
# The variants that C36 compares.
VERIF_ROOT="$PWD" "$PWD/target/debug/c36" build || exit 3
