#!/bin/bash
# Validates the schedule reduction of the engine on the small programs of harness/self: DPOR (source sets and
# sleep sets) must produce exactly the outcomes of full enumeration where that is feasible, of DPOR without sleep
# sets, and of DPOR in another exploration order, and at least those of enumeration with at most two preemptions.
# Not part of the registered checks.
cd "$(dirname "$0")" && . /opt/vp/env.sh && go build -o bin/gosym . || exit 1
d=$(mktemp -d /tmp/selftest.XXXX); trap 'rm -rf "$d"' EXIT
run() { ./bin/gosym -verif /verif -repo /repo -prop SELF -noevidence -only "$1" -outcomes "$d/$2" "${@:3}" | tail -1; sort -o "$d/$2" "$d/$2"; }
bad=0
run HarnessThree dpor; run HarnessThree full -full 1000 -time 1500
cmp "$d/dpor" "$d/full" || bad=1
for h in HarnessTwo HarnessLocks HarnessRend HarnessMix; do
  run $h dpor; GOSYM_ORD=rand run $h rand; run $h nosleep -nosleep -time 1500; run $h pb -full 2 -time 900
  cmp "$d/dpor" "$d/rand" || bad=1
  cmp "$d/dpor" "$d/nosleep" || bad=1
  n=$(comm -13 "$d/dpor" "$d/pb" | wc -l); echo "$h: missing $n of $(wc -l < "$d/pb")"; [ $n = 0 ] || bad=1
done
[ $bad = 0 ] && echo "selftest ok" || { echo "selftest FAILED"; exit 1; }
