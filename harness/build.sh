#!/bin/bash
# Builds the program under test and the check drivers from /repo's working tree into
# /verif/target (offline). Reuses the dependencies that /repo/rust/target already holds.
here="$(cd "$(dirname "$(readlink -f "$0")")" && pwd)"
T="$here/../target"
if [ ! -d "$T/debug/deps" ]; then
  mkdir -p "$T/debug"
  if [ -d /repo/rust/target/debug/deps ]; then
    cp -a /repo/rust/target/debug/.fingerprint /repo/rust/target/debug/build /repo/rust/target/debug/deps "$T/debug/"
  fi
fi
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
cd "$here" || exit 2
if [ ! "$T/shim.so" -nt shim.c ]; then gcc -O2 -shared -fPIC shim.c -o "$T/shim.so.tmp" -ldl -lpthread && mv "$T/shim.so.tmp" "$T/shim.so"; fi
# a locale that does not sort byte-wise, as most users have (C26); without localedef the scripts run with what there is
if [ ! -d "$T/locale/en_US.UTF-8" ]; then mkdir -p "$T/locale" && { localedef --no-archive -i en_US -f UTF-8 "$T/locale/en_US.tmp" >/dev/null 2>&1; [ -f "$T/locale/en_US.tmp/LC_COLLATE" ] && mv "$T/locale/en_US.tmp" "$T/locale/en_US.UTF-8"; }; fi
for b in rust pipe core num mats srch; do
  # the drivers are built one by one: if one of them no longer compiles, the checks of the others still run
  CARGO_TARGET_DIR="$T" cargo build --offline -q --bin $b >"$T/build-$b.log" 2>&1 || { rm -f "$T/debug/$b"; echo "build of $b failed:"; grep -m5 -A8 '^error' "$T/build-$b.log"; bad=1; }
done
[ -x "$T/debug/rust" ] || exit 2
exit 0
