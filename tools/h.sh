#!/bin/bash
# developer helper: build the harness and run it for the given properties (all without arguments)
cd /verif/harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/harness cargo build --offline 2>&1 | grep -E "^error" -A9 | head -${N:-40}
T=${T:-quick}
for p in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22}; do
  echo "C$p $( { time timeout 600 /verif/target/harness/debug/csv_harness C$p $T 2>&1 | cut -c1-1200; } 2>&1 | grep -v -E '^(user|sys|$)' | tr '\n' ' ')"
done
