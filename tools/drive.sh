#!/bin/bash
# tools/drive.sh DRIVER TRACEMODULE [seed] [tier]: builds, runs one driver, validates its recording (development aid)
cd /verif/harness && CARGO_TARGET_DIR=/verif/build/target RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 cargo build --offline --quiet 2>&1 | head -60 || exit 1
o=/verif/build/run/dev-$1; mkdir -p $o; rm -f $o/trace.ndjson
time timeout 600 /verif/build/target/debug/vh $1 --out $o --seed ${3:-1} --tier ${4:-quick} ${BEH:+--beh $BEH} > $o/log 2>&1 || echo "rc $?"
wc -l $o/trace.ndjson
cd /verif; time python3 - $2 $o/trace.ndjson <<'PY'
import sys,json,collections
sys.path.insert(0,'/verif')
import check
d=check.validate(sys.argv[1],sys.argv[2])
print('done',d['done'],'bad',len(d['bad'])); c=collections.Counter(str(sorted(b['why'])) if isinstance(b.get('why'),list) else b.get('p','')+str(b.get('why','')) for b in d['bad']); print(c.most_common(12))
for b in d['bad'][:6]: print(str(b)[:600])
PY
