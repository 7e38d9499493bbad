#!/bin/bash
# The normaliser's own examples: every function of an eq pair must compare equal (those named in `limits` excepted: known
# incompleteness, which can only cost a false alarm), every function of a ne pair must compare different.
cd "$(dirname "$0")/../analyzer/selftest" || exit 1
A=../target/release/analyzer; rc=0
for a in eq*_a.rs; do
  while read -r f r _; do n=${f%:}; if [ "$r" != same ] && ! grep -qx "$n" limits; then echo "$a $n: should be equal"; rc=1; fi; done < <($A eqfile "$a" "${a/_a/_b}" 2>&1 | grep -E '^[a-z0-9_]+: ')
done
for a in ne*_a.rs; do
  while read -r f r _; do if [ "$r" = same ]; then echo "$a ${f%:}: should differ"; rc=1; fi; done < <($A eqfile "$a" "${a/_a/_b}" 2>&1 | grep -E '^[a-z0-9_]+: ')
done
exit $rc
