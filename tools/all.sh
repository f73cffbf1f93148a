#!/bin/bash
# run checks one after another: all.sh C01 C02 ...  (no argument: all)
cd "$(dirname "$0")/.."
ids=${@:-$(python3 -c "import checks;print(*sorted(checks.PROPS))")}
for i in $ids; do setsid timeout -k 5 ${T:-400} python3 run.py $i 2>&1 | cut -c1-260 | tail -${N:-12}; pkill -x symx; done
true
