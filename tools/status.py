"""Runs the checks given (all claimed ones by default) and prints one line each, with every unit that is not proved."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
for c in man['checks']:
    p = c['property']
    if len(sys.argv) > 1 and p not in sys.argv[1:]:
        continue
    t = time.time()
    r = subprocess.run(c['quick_cmd'], shell=True, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode()
    cov = json.load(open(os.path.join(HERE, 'evidence', p + '.json')))['coverage']
    print('%s exit %d %.0fs obligations %s discharged %s functions %s' % (
        p, r.returncode, time.time() - t, cov.get('obligations'), cov.get('discharged'), cov.get("function_count")), flush=True)
    for l in out.splitlines():
        if not l.startswith('ok') and ('note' in l or 'VIOLATION' in l or 'Error' in l):
            print('    ' + l[:200])
