#!/usr/bin/env python3
"""Decide one property:  checks/run.py C01

Scenarios for the property (generated behaviours of the specification's
interface) are run on the real code in /repo, the recorded traces are
validated by TLC against spec/NrwalSession.tla, and the design models of the
property are checked exhaustively by TLC.

exit 0  nothing violated       exit 1  VIOLATION line        exit 2  no verdict
"""
import collections
import copy
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True

import core                                                  # noqa: E402
import mc                                                    # noqa: E402
import props                                                 # noqa: E402
import plan                                                  # noqa: E402

SELF = 900000


def corrupt(traces, rng, k):
    """copies of recorded traces with one observation changed, TLC has to
    notice (this guards against a validation that accepts everything)"""
    out = []
    pool = [t for t in traces if t['ev']]
    rng.shuffle(pool)
    for t in pool:
        if len(out) >= k:
            break
        t = copy.deepcopy(t)
        order = list(range(len(t['ev'])))
        rng.shuffle(order)
        for i in order:
            o = t['ev'][i]['obs']
            done = True
            if o['t'] == 'err' and not t['ev'][i].get('a') \
                    and 'KeyError' not in o['mro']:
                t['ev'][i]['obs'] = {'t': 'ok'}
            elif o['t'] == 'err' and t['ev'][i]['op'] == 'get':
                t['ev'][i]['obs'] = {'t': 'ok'}
            elif o['t'] == 'q' and not o.get('np'):
                o['v'] = [o['v'][0] + o['v'][1], o['v'][1]]
                o['ap'] += 30000
                o['sc'], o['hp'] = [20000, 99], [0, 0]
            elif o['t'] == 'eq':
                o['vars'] = o['vars'] + ['bogus_name']
            elif o['t'] == 'cfg':
                o['req'] = o['req'] + ['bogus_name']
            elif o['t'] == 'outs':
                o['outs']['bogus_name'] = {'t': 'q', 'v': [1, 1],
                                           'ap': 30000, 'sc': [10000, -4],
                                           'np': False}
            elif o['t'] in ('grp', 'dir', 'vars', 'parts'):
                o['keys'] = o['keys'] + ['bogus_name']
                if o['t'] == 'vars':
                    o['defs']['bogus_name'] = {'t': 'q', 'v': [1, 1],
                                               'ap': 30000, 'sc': [10000, -4],
                                           'np': False}
            elif o['t'] == 'text':
                o['head'] = o['head'] + ['bogus']
            elif o['t'] == 'default':
                t['ev'][i]['obs'] = {'t': 'ok'}
            else:
                done = False
            if done:
                t['id'] = SELF + len(out)
                out.append(t)
                break
    return out


class Check:
    """one run of one check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.ev = collections.OrderedDict()
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'events': 0,
                    'calls': collections.Counter(),
                    'corrupted_traces': 0, 'corrupted_detected': 0,
                    'models': [], 'model_cases': [], 'samples': []}
        self.viol = []
        self.known = []
        self.work = tempfile.mkdtemp(prefix='nrwal_{}_'.format(pid))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # --------------------------------------------------------------- models
    def models(self):
        """check the design models, return their cases as scenarios"""
        scen, ran = [], {}
        for m in plan.models(self.pid, self.tier):
            key = (m['module'], m['cfg'])
            if key not in ran:
                r = core.model(m['module'], m['cfg'], self.work)
                ran[key] = r.pop('out')
                self.cov['models'].append(r)
                self.cov['states'] += r['states']
                self.cov['transitions'] += r['transitions']
                if not r['ok']:
                    # the specification contradicts itself, our own fault
                    raise core.Machinery('design model {} fails:\n{}'.format(
                        m['module'], ran[key][-3000:]))
            sc, total = mc.scenarios(m['adapt'], ran[key], self.seed,
                                     m['limit'])
            self.cov['model_cases'].append(
                {'module': m['module'], 'cfg': m['cfg'], 'cases': total,
                 'given_to_the_code_as': m['adapt'], 'scenarios': len(sc)})
            scen += sc
        return scen

    # ------------------------------------------------------------ scenarios
    def drive(self, scen):
        traces, died = core.run_driver(scen, self.work)
        again = [d[0] for d in died]
        again += [next(s for s in scen if s['id'] == t['id'])
                  for t in traces if t['ev']
                  and 'Timeout' in t['ev'][-1]['obs'].get('mro', ())]
        if again:
            # once more, alone and with more time: a busy machine is not a
            # violation
            ids = {s['id'] for s in again}
            traces = [t for t in traces if t['id'] not in ids]
            for s in again[:4]:
                tr, dd = core.run_driver([s], self.work, nproc=1,
                                         env={'NRWAL_DRIVER_TIMEOUT': '40'})
                traces += tr
                if dd and not tr:
                    self.violation(s, None, ['process-died rc={}'.format(
                        dd[0][1])])
        return traces

    def violation(self, scen, at, clauses, trace=None):
        self.viol.append({'scenario': scen, 'event': at, 'clauses': clauses,
                          'trace': trace})

    def batch(self, scen, self_test):
        if not scen:
            return
        by = {s['id']: copy.deepcopy(s) for s in scen}
        traces = self.drive(scen)
        if not traces and not self.viol:
            raise core.Machinery('no traces were recorded')
        bad = corrupt(traces, random.Random(str(self.seed)), self_test)
        fails, st = core.validate(traces + bad, self.work)
        found = {f[0] for f in fails if f[0] >= SELF}
        self.cov['corrupted_traces'] += len(bad)
        self.cov['corrupted_detected'] += len(found)
        self.cov['states'] += st['states']
        self.cov['transitions'] += st['transitions']
        self.cov['traces_validated_against_impl'] += len(traces)
        tr = {t['id']: t for t in traces}
        for t in traces:
            self.cov['events'] += len(t['ev'])
            for e in t['ev']:
                self.cov['calls'][e['op'] + ':' + e['obs']['t']] += 1
        if not self.cov['samples'] and traces:
            for t in traces[:2]:
                s = copy.deepcopy(t)
                for e in s['ev']:
                    e.pop('fp', None)
                    e.pop('ext', None)
                self.cov['samples'].append(json.loads(
                    json.dumps(s)) if len(json.dumps(s)) < 6000
                    else {'id': s['id'], 'calls': [e['op'] for e in s['ev']],
                          'last': s['ev'][-1]
                          if len(json.dumps(s['ev'][-1])) < 4000 else '...'})
        for i, l, cl in fails:
            if i >= SELF:
                continue
            if set(cl) <= {'known-constant-inlined'}:
                self.known.append((i, l, cl))
                continue
            self.violation(by.get(i), l, cl, tr[i]['ev'][l - 1])

    def replay_file(self):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '{}.json'.format(self.pid))
        vs = sorted(self.viol, key=lambda v: len(json.dumps(v['scenario'])))
        with open(fn, 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier,
                       'seed': self.seed, 'count': len(vs),
                       'violations': vs[:10]}, f, indent=1)
        return fn

    def run(self):
        p = plan.plan(self.pid, self.tier)
        n0 = 0

        def number(scen):
            nonlocal n0
            for s in scen:
                n0 += 1
                s['id'] = n0
            return scen
        modelled = number(self.models())
        for ch in mc.chunks(modelled, 2500):
            self.batch(ch, 0)
            if self.viol:
                return self.finish()
        for b in range(p['batches']):
            if b and self.left(p['budget']) < 0:
                break
            seed = self.seed if b == 0 else '{}.{}'.format(self.seed, b)
            scen = props.scenarios(self.pid, seed, p['n'])
            if b == 0:
                scen = plan.fixed(self.pid) + scen
            self.batch(number(scen), 16 if b == 0 else 0)
            if self.viol:
                break
        return self.finish()

    def finish(self):
        c = self.cov
        c['calls'] = dict(sorted(c['calls'].items()))
        c['exhaustive'] = False
        ev = {'property': self.pid, 'tier': self.tier,
              'seed': int(self.seed), 'level': 'model_checking',
              'coverage': c,
              'assumptions': plan.ASSUMPTIONS,
              'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence',
                               self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            fn = self.replay_file()
            seen = collections.Counter()
            for v in self.viol:
                seen[', '.join(v['clauses'])] += 1
            for k, m in seen.most_common(8):
                print('  {} x {}'.format(m, k))
            print('VIOLATION property={} replay={}'.format(self.pid, fn))
            return 1
        if 2 * c['corrupted_detected'] < c['corrupted_traces']:
            raise core.Machinery('only {} of {} corrupted traces were '
                                 'noticed'.format(c['corrupted_detected'],
                                                  c['corrupted_traces']))
        for line in plan.known_lines(self.pid, bool(self.known)):
            print(line)
        print('OK property={} traces={} events={} states={} wall={}s'.format(
            self.pid, c['traces_validated_against_impl'], c['events'],
            c['states'], ev['wall_s']))
        return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    c = Check(pid, tier, seed)
    try:
        rc = c.run()
    except core.Machinery as e:
        print('ERROR ' + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
