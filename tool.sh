#!/bin/bash
# run bins and print a summary: tool.sh c01 c02 [-- args]
. /verif/env.sh
bins=(); args=(); sep=0
for a in "$@"; do if [ "$a" = "--" ]; then sep=1; elif [ $sep = 1 ]; then args+=("$a"); else bins+=("$a"); fi; done
for b in "${bins[@]}"; do (cd /verif/sym && cargo build --quiet --bin $b 2>&1 | grep -E "^error" -A12 | head -60)
 /verif/target/debug/$b --all "${args[@]}" > /tmp/$b.json; python3 - $b <<'P'
import json,sys
d=json.load(open('/tmp/%s.json'%sys.argv[1]))
from collections import Counter
print(sys.argv[1],round(d['wall_s'],1),len(d['cases']),dict(Counter(c['status'] for c in d['cases'])))
print('  ',{k:sum(c[k] for c in d['cases']) for k in ['paths','asserts','exact','concrete','weighted','nra','queries','nf_ok','raw_ok','raw_unknown','unknown']})
print('  ',[(c['case'],round(c['secs'],1),c['paths']) for c in sorted(d['cases'],key=lambda c:-c['secs'])[:4]])
print('  ',[c['case']+': '+c['note'] for c in d['cases'] if c['note'] and c['status']=='pass'][:3])
P
done
