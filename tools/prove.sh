#!/bin/bash
# checks the proofs in spec/proofs with tlapm, from scratch
cd "$(dirname "$0")/../spec/proofs" || exit 2
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp *.tla ../CacheMachine.tla "$t" && cd "$t" || exit 2
bad=0
for f in *Proof.tla; do
  r=$(timeout 600 tlapm --cleanfp "$f" 2>&1 | grep -o 'All [0-9]* obligations proved' || true)
  echo "${f%.tla}: ${r:-FAILED}"; [ -n "$r" ] || bad=1
done
exit $bad
