#!/bin/bash
# tryseed.sh ID...: for each seeded change, run its property's quick check against a copy of /repo with the change
# (PROP=Cxx overrides which check is run)
one() {
  id=$1
  W=$(mktemp -d /tmp/ts_XXXXXX)
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  cp -a /repo "$W/repo"
  mkdir "$W/verif"; tar -C /verif --exclude=.git --exclude=./out --exclude=./seeded --exclude=./evidence -cf - . | tar -C "$W/verif" -xf -
  sed -i "s#\"/repo#\"$W/repo#" "$W/verif/vlib/runner.py"
  if git -C "$W/repo" apply "/verif/seeded/$id/patch.diff"; then
    (cd "$W/verif" && timeout 900 bash run.sh "$prop" quick > /tmp/try_$id.log 2>&1; echo "rc=$?" >> /tmp/try_$id.log)
    v=$(grep -c "^VIOLATION property=$prop" /tmp/try_$id.log)
    echo "$id $prop $(grep '^rc=' /tmp/try_$id.log) violations=$v $(grep -o '^clause [^ ]*' /tmp/try_$id.log | sort -u | tr '\n' ' ') $(tail -2 /tmp/try_$id.log | head -1 | grep -o '[0-9.]* s;')"
  else echo "$id DOES NOT APPLY"; fi
  rm -rf "$W"
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
