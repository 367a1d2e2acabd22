#!/bin/bash
# tools/show.sh C02 [args]: run a check, print the summary and the slowest jobs
c=$1; shift
(time ./check.py $c "$@") > /tmp/$c.log 2>&1
cut -c1-260 /tmp/$c.log|head -${LINES_:-30}
python3 -c "
import json
d=json.load(open('/verif/evidence/$c.json'))
for k,v in sorted(d['coverage']['jobs'].items(),key=lambda x:-x[1]['cpu_s'])[:${TOP_:-10}]: print(k,v['cpu_s'],v['paths'],v['status'],v['decided'])
"|cut -c1-250
