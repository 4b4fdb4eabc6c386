#!/bin/bash
# nsseed.sh WORKERS SPEC.py [ID...]: mkseed.py for the bugs of a spec, spread over mount namespaces in which
# /repo, /verif and /tmp are private copies; new seeded/<id> directories are copied back, results go to stdout.
V=/verif; W=$1; SPEC=$2; shift 2
ids=("$@")
[ ${#ids[@]} -gt 0 ] || mapfile -t ids < <(python3 - "$SPEC" <<'P'
import sys
ROOT = "/verif"
def bug(id, *a, **k): print(id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
P
)
B=$(mktemp -d /tmp/nsseed.XXXXXX); : > "$B/start"
for ((w=0; w<W; w++)); do
  mine=(); for ((i=w; i<${#ids[@]}; i+=W)); do mine+=("${ids[i]}"); done
  [ ${#mine[@]} -gt 0 ] || continue
  D=$B/$w; mkdir -p "$D/tmp"
  cp -a /repo "$D/repo"; rsync -a --exclude .git --exclude evidence --exclude replays $V/ "$D/verif/" 2>/dev/null || cp -a $V "$D/verif"
  unshare -m bash -c "mount --bind '$D/repo' /repo && mount --bind '$D/verif' /verif && mount --bind '$D/tmp' /tmp && cd /verif && python3 tools/mkseed.py $SPEC ${mine[*]}" > "$D/log" 2>&1 &
done
wait
cat "$B"/*/log
for ((w=0; w<W; w++)); do for i in "${ids[@]}"; do
  [ $((w)) -ge 0 ] && [ -d "$B/$w/verif/seeded/$i" ] && [ "$B/$w/verif/seeded/$i/meta.json" -nt "$B/start" ] && cp -a "$B/$w/verif/seeded/$i" $V/seeded/
done; done
rm -rf "$B"
