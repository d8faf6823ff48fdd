#!/bin/bash
# Developer tool: run one check against a scratch copy of /repo with a seeded bug applied.
# usage: trybug.sh BUG [PROPERTY] [tier]
b="$1"; p="${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}"
rm -rf /tmp/trybug; git clone -q /repo /tmp/trybug && git -C /tmp/trybug apply /verif/seeded/$b/patch.diff || exit 9
RV_REPO=/tmp/trybug bash /verif/run.sh "$p" "${3:-quick}" 2>&1 | grep -v "^Loaded" | cut -c1-300 | tail -6
rm -rf /tmp/trybug
