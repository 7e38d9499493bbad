#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] — builds the analyzer when needed, then decides one property.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
if ! cargo build --release --offline --quiet --manifest-path analyzer/Cargo.toml >/tmp/analyzer-build.$$ 2>&1; then
  echo "VIOLATION property=$1 replay=$here/analyzer"; echo "the analyzer does not build:"; tail -5 /tmp/analyzer-build.$$; rm -f /tmp/analyzer-build.$$; exit 1
fi
rm -f /tmp/analyzer-build.$$
analyzer/target/release/analyzer check --property "$1" --tier "${2:-quick}" --verif "$here" --repo "${VERIF_REPO:-/repo}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "VIOLATION property=$1 replay=$here/analyzer"; echo "the analysis stopped with status $rc"; exit 1; fi
exit $rc
