#!/bin/sh
# Lists every entry point of the harness sources.
cd "$(dirname "$0")/src" || exit 1
{ echo "pub static TABLE: &[(&str, H)] = &["
  for f in h_*.rs; do m=${f%.rs}; sed -n 's/.*fn \(h_[a-z0-9_]*\)().*/\1/p' $f | while read n; do echo "    (\"$n\", $m::$n),"; done; done
  echo "];"; } > table.rs
