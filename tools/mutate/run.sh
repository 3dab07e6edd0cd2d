#!/bin/bash
# run.sh N WORK: mutant N of /repo against the stable tests, then all checks with
# a small number of runs; prints one line. Checks stop at the first alarm.
n=$1; work=${2:-/tmp/mut}; d=$work/m$n; mkdir -p $d/repo
trap 'rm -rf $d' EXIT
cp -a /repo/. $d/repo; /tmp/mutate $d/repo $n || exit
desc=$(sed -n "$((n+1))p" $work/list)
cd $d/repo
go build ./... >/dev/null 2>&1 || { echo "NOBUILD $desc"; exit; }
timeout 100 go test -vet=off -count=1 -timeout 60s ./... >$d/t 2>&1 || { echo "TESTS $desc"; exit; }
cd /verif
ZZSIM_REPO=$d/repo bash check.sh build $d/sim >/dev/null 2>&1 || { echo "NOSIM $desc"; exit; }
mkdir -p $d/v
for p in ${PROPS:-C22 C09 C14 C12 C18 C21 C16 C17 C15 C11 C10 C19 C13 C04 C01 C05 C06 C07 C08 C20 C02 C03}; do
  r=1500; case $p in C14|C18|C10) r=4000;; C20|C03) r=600;; C04) r=2500;; esac
  out=$(ZZSIM_MIN=0 ZZSIM_RUNS=$((r*${SCALE:-1})) VERIF_SEED=1 VERIF_TIER=quick VERIF_ROOT=$d/v ZZSIM_TMP=$d/sim ZZSIM_STATS=$d/sim/stats.json timeout 600 $d/sim/harness check $p 2>&1); rc=$?
  if [ $rc = 1 ]; then echo "KILLED $p $desc"; exit; fi
  [ $rc = 0 ] || { echo "TROUBLE $p rc=$rc $desc $(echo "$out" | head -2 | tr '\n' ' ' | cut -c1-200)"; exit; }
done
echo "SURVIVED $desc"
