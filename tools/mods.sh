#!/bin/bash
# rewrite harness/src/props.rs from the contract modules present
cd "$(dirname "$0")/../harness/src" && { printf 'props!('; ls c[0-9][0-9].rs | sed 's/\.rs//' | awk '{printf "%s%s \"%s\"", (NR>1?", ":""), $1, $1}'; printf ');\n'; } > props.rs
