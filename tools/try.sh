#!/bin/bash
# tools/try.sh ID [CHECK...]: in a scratch copy of /repo, does seeded/ID pass the tests, fail its demo, and is it caught?
id=$1; shift
s=/verif/seeded/$id; w=$(mktemp -d /tmp/try-XXXXXX); cp -a /repo "$w/repo"
run() { PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$w/repo timeout 300 "$@"; }
(cd "$w/repo" && run bash "$s/demo.sh" >/dev/null 2>&1); a=$?
(cd "$w/repo" && git apply "$s/patch.diff") || { echo "$id: patch does not apply"; exit 2; }
t=$(cd "$w/repo" && run /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1)
(cd "$w/repo" && run bash "$s/demo.sh" >/dev/null 2>&1); b=$?
echo "$id: demo unchanged=$a changed=$b; tests: $t"
for c in "${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}"; do
  o=$(cd /verif && SYMX_REPO=$w/repo ./check "$c" 2>&1); r=$?
  echo "  $c rc=$r $(echo "$o" | grep -c ^VIOLATION) violations; $(echo "$o" | grep -A1 -m1 -E '^  [a-z_]+: ' | head -c 300)"
done
rm -rf "$w"
