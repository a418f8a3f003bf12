#!/bin/bash
# build and run the repository's tests in the copy $1, compare with the baseline
. /opt/vp/env.sh
cd "$1" || exit 1
cargo test --workspace --no-run --offline >/tmp/w/build.log 2>&1 || { echo BUILD FAIL; tail -30 /tmp/w/build.log; exit 1; }
rm -f target/nextest/vp/junit.xml
timeout -k 10 300 cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/w/nextest.log 2>&1
echo > /tmp/w/doc.log
python3 /opt/vp/results.py /tmp/w/out.json junit:target/nextest/vp/junit.xml cargo:/tmp/w/doc.log
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
bl=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests') or list(b)
ps=set(o.get('passed',[])) if isinstance(o,dict) else set(o)
miss=[t for t in bl if t not in ps]
print('baseline',len(bl),'missing',miss[:10])
sys.exit(1 if miss else 0)
P
