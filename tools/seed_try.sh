#!/bin/bash
# seed_try.sh ID [notest]: confirms a planted bug in scratch copies /tmp/seedrepo and /tmp/seedm.
ID=$1; D=/verif/seeded/$ID
[ -f "$D/demo.sh" ] || cp /verif/tools/demo.sh "$D/demo.sh"
chmod +x "$D/demo.sh"
[ -d /tmp/seedm ] || cp -a /opt/vp/mirror /tmp/seedm
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
cd /tmp/seedrepo || exit 2
git checkout -q -- . ; git clean -fdq; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD
bash "$D/demo.sh" > /tmp/seed.o 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$D/demo.sh" > /tmp/seed.p 2>&1; b=$?
echo "$ID demo: clean $a patched $b: $(tail -1 /tmp/seed.p | cut -c1-200)"
[ $a = 0 ] || tail -5 /tmp/seed.o
if [ "$2" != notest ]; then
  rsync -rlp --checksum --delete --exclude=/.git --exclude=/target --exclude=/Cargo.lock --exclude=/butane_cli/Cargo.toml --filter=':- .gitignore' /tmp/seedrepo/ /tmp/seedm/
  python3 - <<'P' > /tmp/seedt.sh
t=open('/opt/vp/test.sh').read()
t=t.replace('. /opt/vp/lib/env.sh','source <(sed "/sync.py/d;s,/opt/vp/mirror,/tmp/seedm," /opt/vp/lib/env.sh)')
print(t)
P
  bash /tmp/seedt.sh /tmp/seed.json > /tmp/seed.log 2>&1
  python3 - "$ID" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
base=b['stable']
miss=set(base)-set(r['passed'])
print(sys.argv[1],'tests: passed',len(r['passed']),'of the stable ones missing',len(miss),sorted(miss)[:5])
P
fi
git checkout -q -- .
