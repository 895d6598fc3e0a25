#!/bin/bash
# runseed.sh ID [PROP...]: run a property's check (or those given) against a copy of /repo with a planted bug, mounted over /repo
# in a private mount namespace, so that neither /repo nor /verif is touched and several can run at once.
# With PATCH=file, that patch is used instead of a planted bug.
id=$1; shift; s=/verif/seeded/$id
props=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
t=$(mktemp -d /tmp/runseed-XXXXXX)
cp -a /repo $t/repo; mkdir $t/evidence $t/replay
git -C $t/repo apply ${PATCH:-$s/patch.diff} || { rm -rf "$t"; exit 9; }
mkdir -p /verif/evidence /verif/replay
for p in $props; do
  out=$(unshare -Urm bash -c "mount --bind $t/repo /repo && mount --bind $t/evidence /verif/evidence && mount --bind $t/replay /verif/replay && cd /verif && PYTHONDONTWRITEBYTECODE=1 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p 2>&1"); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -E '^VIOLATION' | head -1)"
  python3 -c "
import json
try: print('   proof:', sorted({r['function'] for r in json.load(open('$t/replay/$p.json'))['failed_obligations']}), json.load(open('$t/evidence/$p.json'))['coverage'].get('undecided'))
except Exception as e: print('   ', e)"
  [ -n "$VERBOSE" ] && echo "$out" | head -${VERBOSE}
done
rm -rf "$t"
