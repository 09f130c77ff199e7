#!/bin/bash
# developer helper: run a property, show the margins above 0.1
P=$1; shift
/opt/venv/bin/python /verif/run.py $P "$@" | cut -c1-330
/opt/venv/bin/python - <<PY
import json
c=json.load(open('/verif/evidence/$P.json'))['coverage']
for k,v in c['worst_error_over_tolerance'].items():
    if v[0]>float("${MM:-0.1}"): print('   %-40s %9.3g  %s  n=%d'%(k,v[0],v[1],c['monitor_events'].get(k,0)))
PY
