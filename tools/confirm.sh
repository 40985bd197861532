#!/bin/bash
# confirm.sh ID... : applies the patches together in /repo, builds, runs the stable tests, undoes them
for i in "$@"; do git -C /repo apply /verif/seeded/$i/patch.diff || echo "fail $i"; done
git -C /repo status --short
bash /opt/vp/build.sh > /tmp/confirm.b 2>&1; echo "build rc=$?"
timeout 600 bash /opt/vp/test.sh /tmp/confirm.json > /tmp/confirm.t 2>&1; tail -1 /tmp/confirm.t
sed -n '/tests FAILED:/,$p' /tmp/confirm.t | head -${N:-12}
git -C /repo checkout -- .
