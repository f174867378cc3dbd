#!/bin/bash
# ev.sh PROP...: the interesting part of the evidence
cd "$(dirname "$0")/.."
for p in "$@"; do python3 -c "
import json;e=json.load(open('evidence/$p.json'));c=e['coverage']
for k in ('evaluations','nontrivial_runs','distinct_nontrivial','distinct_run_shapes','distinct_abstract_states','events','maxima','faults_injected','instrumented_edges','simulated_days','environment_calls_from_library'): print(k,c.get(k))
print('wall',e['wall_s'])"; done
