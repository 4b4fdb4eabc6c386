#!/bin/bash
# run.sh [GROUP...]: all checks on a rewritten copy of the repository, in a private mount namespace; RF_SCRIPT names the rewriter.
D=$(mktemp -d /tmp/refac.XXXXXX); mkdir "$D/tmp"; cp -a /repo "$D/repo"
rsync -a --exclude .git --exclude evidence --exclude replays /verif/ "$D/verif/"
python3 "${RF_SCRIPT:-/verif/tools/refactor/all.py}" "$D/repo" "$@" || exit 2
unshare -m bash -c "mount --bind '$D/repo' /repo && mount --bind '$D/verif' /verif && mount --bind '$D/tmp' /tmp && cd /repo && . /opt/vp/env.sh && gofmt -l . ; bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
g=lambda x: set(x.get('passed') or x.get('passing') or x.get('stable') or [])
print('tests lost:', sorted(g(b)-g(t))[:10], len(g(b)))
P
export VERIF_SEED=1 VERIF_TIER=quick; cd /verif; for c in \${CHECKS:-\$(seq -f C%02g 1 33)}; do bin/check \$c > /tmp/o 2>&1; r=\$?; [ \$r = 0 ] && echo \"\$c ok\" || { echo \"\$c exit \$r\"; grep -v '^C.. *.*cases' /tmp/o | tail -8; }; done"
rm -rf "$D"
