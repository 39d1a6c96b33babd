#!/bin/bash
# Authoring aid (used by no check). tryseed.sh ID [check ids...]: in a scratch copy of /repo, run the demonstration without and with the
# planted bug, the repository's tests with it (FULL=1), and the named checks (default: the one of meta.json).
S=/verif/seeded/$1; ID=$1; shift
W=/tmp/seedt/$ID; rm -rf "/tmp/seedt/$ID"; mkdir -p /tmp/seedt; cp -a /repo "$W" || exit 1
CH="$*"; [ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$W" || exit 1
. /opt/vp/env.sh
build() { python3 /opt/vp/sync.py && "${MAKE[@]}" vp-build; }
build > b.log 2>&1
( bash $S/demo.sh ) > d0.log 2>&1; echo "$ID demo clean: $?"
git apply $S/patch.diff || exit 1
build > b.log 2>&1; echo "$ID build: $?"
( bash $S/demo.sh ) > d1.log 2>&1; echo "$ID demo patched: $?"; head -3 d1.log
if [ -n "$FULL" ]; then
  mkdir -p bin/tests bin/vp-reports
  find bin/tests \( -name '*.done' -o -name '*.kefir.o' -o -name '*.asmgen.output' -o -path '*/end2end/*.test' \) -type f -delete
  "${MAKE[@]}" -s vp-list-tests > bin/vp-reports/tests.txt
  timeout 1500 "${MAKE[@]}" -k test > bin/vp-reports/make.log 2>&1
  python3 /opt/vp/collect.py > bin/vp-reports/results.lines
  python3 /opt/vp/results.py t.json lines:bin/vp-reports/results.lines > /dev/null
  python3 -c "
import json;t=json.load(open('t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
p=set(t['passed']);m=[x for x in b if x not in p]
print('$ID tests missing:',len(m),m[:5])"
fi
for c in $CH; do KV_REPO=$W python3 /verif/check.py $c > c.log 2>&1; echo "$ID $c exit $?"; grep -v '^  rule\|^property' c.log | head -5 | cut -c1-260; done
cd /; rm -rf "/tmp/seedt/$ID"
