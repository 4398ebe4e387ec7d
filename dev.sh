#!/bin/bash
# dev.sh <ID> <entry> [engine options]: run one entry of an already built check with tracing
b=$(cd "$(dirname "$0")" && pwd)/build; bin=$(echo $1 | tr A-Z a-z); id=$1; e=$2; shift 2
GLIBC_TUNABLES=glibc.malloc.hugetlb=1 $b/eusym $(ls -t $b/target/release/deps/$bin-*.bc | grep -v rcgu | head -1) --libs $b/$id.libs --preload libeucalypt --entry $e --time ${T:-100} --steps 100000000000 --out /tmp/o.json "$@" 2>&1 | cut -c1-${W:-400} | tail -${N:-60}
python3 - <<'P'
import json;d=json.load(open('/tmp/o.json'));
for e in d['entries']: print({k:v for k,v in e.items() if v not in (0,[],'')})
P
