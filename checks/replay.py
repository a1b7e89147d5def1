#!/usr/bin/env python3
"""Run the scenarios of a replay file again:  checks/replay.py FILE.json"""
import json
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import core                                                  # noqa: E402

data = json.load(open(sys.argv[1]))
scen = [v['scenario'] for v in data['violations'] if v['scenario']]
for i, s in enumerate(scen):
    s['id'] = i + 1
work = tempfile.mkdtemp(prefix='nrwal_replay_')
try:
    traces, died = core.run_driver(scen, work)
    fails, _ = core.validate(traces, work)
    by = {t['id']: t for t in traces}
    for i, l, cl in fails:
        e = by[i]['ev'][l - 1]
        print('scenario {} event {}: {}'.format(i, l, cl))
        print('   ' + json.dumps({k: v for k, v in e.items()
                                  if k not in ('fp', 'ext')}))
    for s, rc in died:
        print('scenario {} ended the process: {}'.format(s['id'], rc))
    print('{} violations'.format(len(fails) + len(died)))
finally:
    shutil.rmtree(work, ignore_errors=True)
