#!/bin/bash
# bash check.sh <property id> <quick|thorough|replay> [replay file]
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
. ./env.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}
bin=$(echo "$id" | tr A-Z a-z)
prof=dev; dir=debug
case " $REL " in *" $bin "*) prof=rel; dir=rel;; esac
log=$(mktemp)
if ! cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target" --profile $prof --bin "$bin" >"$log" 2>&1; then
    tail -50 "$log"; rm -f "$log"
    echo "ERROR: build failed"; exit 3
fi
rm -f "$log"
exec "$PWD/target/$dir/$bin" "$tier" ${3:+"$3"}
