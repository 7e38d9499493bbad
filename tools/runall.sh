#!/bin/bash
# run every claimed check (quick tier) and print the ones that are not quiet
cd "$(dirname "$0")/.."
ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null || python3 -c "import json;m=json.load(open('MANIFEST.json'));print(m.keys())")
out=$(mktemp -d)
printf '%s\n' $ids | xargs -P 8 -I{} sh -c "./check.sh {} ${1:-quick} >$out/{} 2>&1; echo \$? >$out/{}.rc"
for i in $ids; do rc=$(cat $out/$i.rc); if [ "$rc" != 0 ]; then echo "$i rc=$rc"; grep -E "VIOLATION|^  " $out/$i | cut -c1-${2:-240} | head -${3:-4}; fi; done
cat $out/* | grep -h "^KNOWN" | sort | uniq -c | cut -c1-120 | head -${4:-3}
grep -hoE "^[A-Z][0-9]+: .* [0-9.]+s$" $out/* | awk "{t=\$NF; sub(\"s\",\"\",t); if (t+0>60) print \"slow\", \$1, \$NF}"
rm -r "$out"
