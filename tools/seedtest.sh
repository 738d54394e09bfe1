#!/bin/bash
# seedtest.sh ID...: in a scratch copy of /repo, check that a planted change builds, passes the stable tests, and is exposed by its demo only when applied.
S=/tmp/seedtest; rm -rf /tmp/seedtest; mkdir -p $S
git -C /repo worktree list >/dev/null
mkdir -p $S/repo && git -C /repo archive HEAD | tar -x -C $S/repo
(cd $S/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base)
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > $S/build.sh
sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#g" /opt/vp/test.sh > $S/test.sh
bash $S/build.sh > $S/b.log 2>&1 || { tail $S/b.log; exit 1; }
for id in "$@"; do (cd $S/repo && cp -r /verif/seeded/$id $S/demo_$id && timeout 300 bash $S/demo_$id/demo.sh > $S/d.log 2>&1 && echo "$id clean demo ok" || { echo "$id clean demo FAILS"; tail -3 $S/d.log; }); done
for id in "$@"; do
  cd $S/repo && git apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  if bash $S/build.sh > $S/b.log 2>&1; then
    if timeout 300 bash $S/demo_$id/demo.sh > $S/d.log 2>&1; then echo "$id demo does NOT expose"; else echo "$id demo exposes: $(tail -1 $S/d.log)"; fi
    [ -n "$NOTESTS" ] || { bash $S/test.sh $S/t.json > $S/t.log 2>&1; tail -1 $S/t.log | sed "s/^/$id tests: /"; grep -E "FAILED tests" $S/t.log | sort -u | head -5; }
  else echo "$id does not build"; tail -5 $S/b.log; fi
  git checkout -q -- .
done
rm -rf /tmp/seedtest
