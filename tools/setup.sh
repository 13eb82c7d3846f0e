#!/bin/bash
# Builds the MIR fact extractor and checks the third-party dependencies once
# into /verif/build (git-ignored). Offline; touches nothing of /repo.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build/facts"
SR=$(rustc +nightly --print sysroot)
if [ ! -x "$V/build/bkdriver" ] || [ "$V/driver/main.rs" -nt "$V/build/bkdriver" ]; then
  rustc +nightly --edition 2021 -O -Awarnings "$V/driver/main.rs" -o "$V/build/bkdriver.tmp" -C link-arg=-Wl,-rpath,"$SR/lib"
  mv "$V/build/bkdriver.tmp" "$V/build/bkdriver"
fi
python3 "$V/tools/facts.py" --warm
