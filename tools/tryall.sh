#!/bin/bash
# tryall.sh SEED...: runs the check of each seed's property against it, 4 at a time.
one() { s=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])"); t0=$SECONDS
 out=$(/verif/tools/try.sh $s $p 2>&1); v=$(echo "$out" | grep VIOLATION); echo "$s $((SECONDS-t0))s ${v:-NOT CAUGHT} :: $(echo "$out" | grep undischarged | head -2 | cut -c1-160 | tr '\n' ';')"; }
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
