#!/bin/bash
# sweep.sh [ID...]: runs each planted bug's property check against it in a scratch copy. Development aid only.
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for id; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	echo "$id: $(W=${W:-120} tools/try.sh "$PWD/seeded/$id/patch.diff" $p | sed 's#^.*patch.diff ##')"
done
