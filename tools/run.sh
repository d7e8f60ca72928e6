#!/bin/bash
# dev: run a check and summarise failures per key
for p in "$@"; do timeout ${T:-600} /verif/harness/target/release/harness check $p ${TIER:-quick} > /tmp/out.$p 2>/tmp/err.$p; rc=$?
echo "== $p rc=$rc"; grep -E "^(VIOLATION|KNOWN)" /tmp/out.$p | head -3; cat /tmp/err.$p | head -60; done
