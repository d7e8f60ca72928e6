#!/bin/bash
# dev helper: build and run one check
cd /verif/harness && cargo build --release --offline --color never 2>&1 | grep -E '^error' -A12 | head -${L:-60}
