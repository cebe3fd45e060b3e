#!/bin/bash
# seedtest.sh ID...: (development only) full verification of planted bugs in a scratch copy, then the check against /repo patched.
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$PWD/seeded/$id
  [ -f $d/demo.sh ] || cp tools/demo.sh $d/demo.sh
  rm -rf /tmp/wt; git -C /repo worktree prune; mkdir /tmp/wt; (cd /repo && tar c --exclude=./target .) | tar x -C /tmp/wt
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /tmp/wt && bash $d/demo.sh >/tmp/demo.out 2>&1); a=$?
  if ! git -C /tmp/wt apply $d/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  (cd /tmp/wt && bash $d/demo.sh >/tmp/demo2.out 2>&1); b=$?
  rm -rf /tmp/wt
  t=skipped
  git -C /repo apply $d/patch.diff
  if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || t=BUILDFAIL
    bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1
    [ $t = BUILDFAIL ] || t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/so.json'))
m=set(b['stable'])-set(o['passed']); print('ok' if not m else 'TESTFAIL:'+','.join(sorted(m)))")
  fi
  VERIF_SEED=1 bash check.sh $prop quick >/tmp/sc.$id.log 2>&1; c=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$prop" /tmp/sc.$id.log)
  echo "$id: demo clean=$a patched=$b tests=$t check=$c violations=$v $( [ $a = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $t = ok ] && [ $c = 1 ] && [ $v -ge 1 ] && echo CAUGHT || echo '*** NOT OK')"
done
[ -z "${NOTEST:-}" ] && bash /opt/vp/build.sh >/dev/null 2>&1
true
