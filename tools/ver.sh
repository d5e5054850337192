#!/bin/bash
# ver.sh NAME: extract /verif/overlay/NAME.ov from /repo and run verus on it (development aid)
mkdir -p /verif/.build/ver; cd /verif/.build/ver || exit 9
/verif/.build/target/release/kvx ver /repo ${OV:-/verif/overlay}/$1.ov $1.rs | grep -v '^@fn'
timeout ${T:-120} verus --crate-type=lib $1.rs ${2:-} 2>&1 | grep -v '^$' | grep -v '^warning: Verus does not\|autoderive\|^   *|$' | head -${LINES_MAX:-80}
