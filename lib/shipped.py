"""The libraries and configs that come with NRWAL, read from /repo's tree."""
import os
import re
from fractions import Fraction

import yaml

REPO = os.environ.get('NRWAL_REPO', '/repo')
LIB = os.path.join(REPO, 'NRWAL', 'analysis_library')
CFG = os.path.join(REPO, 'NRWAL', 'default_configs')


def number(x):
    return repr(x)


def items(data):
    out = []
    for k, v in data.items():
        it = {'key': str(k), 'items': [], 's': ''}
        if not isinstance(k, str):
            it['ik'] = True
        if isinstance(v, dict):
            it.update(t='g', items=items(v))
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            it.update(t='n', s=number(v))
        elif isinstance(v, str):
            it.update(t='e', s=v)
        else:
            it.update(t='x', raw=repr(v))
        out.append(it)
    return out


def tree(path):
    out = []
    for nm in sorted(os.listdir(path)):
        p = os.path.join(path, nm)
        if os.path.isdir(p):
            out.append({'name': nm, 't': 'd', 'items': tree(p)})
        elif nm.endswith(('.yaml', '.yml', '.json')):
            try:
                with open(p) as f:
                    data = yaml.safe_load(f)
                out.append({'name': nm, 't': 'f', 'items': items(data)})
            except Exception:
                out.append({'name': nm, 't': 'x', 'raw': ''})
        else:
            out.append({'name': nm, 't': 'x', 'raw': ''})
    return out


def entries(path):
    with open(path) as f:
        data = yaml.safe_load(f)
    out = []
    for k, v in data.items():
        e = {'key': str(k), 's': ''}
        if isinstance(v, bool):
            e.update(t='f', b=v)
        elif isinstance(v, (int, float)):
            e.update(t='n', s=number(v))
        elif isinstance(v, str):
            e.update(t='s', s=v)
        else:
            e.update(t='o', raw=repr(v))
        out.append(e)
    return out


def configs():
    """directory -> file -> entries"""
    out = {}
    for d in sorted(os.listdir(CFG)):
        p = os.path.join(CFG, d)
        if not os.path.isdir(p):
            continue
        out[d] = {f: entries(os.path.join(p, f))
                  for f in sorted(os.listdir(p))
                  if f.endswith(('.yaml', '.yml', '.json'))}
    return out


# ------------------------------------------------------------ C22 scenarios
NAME = re.compile(r'(?<![\w.:])[A-Za-z_]\w*(?![\w.:(])')
RANGES = {'depth': (8, 70), 'dist_p_to_s': (5, 200), 'dist_s_to_l': (5, 200),
          'turbine_capacity': (2, 16), 'num_turbines': (20, 120),
          'capacity': (10, 900), 'dist_op_to_s': (5, 100),
          'dist_a_to_s': (5, 100), 'fixed_downtime': None,
          'floating_downtime': None}


def q(n, d):
    f = Fraction(n, d)
    return {'t': 'q', 'v': [f.numerator, f.denominator]}


def value(g, name):
    if name in RANGES and RANGES[name]:
        return q(g.r.randint(*RANGES[name]), 1)
    if 'downtime' in name or 'factor' in name or 'rate' in name \
            or 'loss' in name:
        return q(g.r.randint(1, 40), 100)
    return q(g.r.randint(1, 60), g.pick([1, 1, 1, 2, 4]))


def array(g, name, n):
    return {'t': 'a', 'v': [value(g, name)['v'] for _ in range(n)]}


def texts(its):
    for it in its:
        if it['t'] == 'e':
            yield it['s']
        elif it['t'] in ('g', 'f', 'd'):
            yield from texts(it['items'])


def defaults(t):
    out = set()
    for e in t:
        if e['t'] == 'd':
            out |= defaults(e['items'])
        elif e['name'].startswith('variables.'):
            out |= {i['key'] for i in e['items']}
    return out


def names(its):
    out = set()
    for s in texts(its):
        out |= {x for x in NAME.findall(s) if x not in ('axis', 'np')}
    return out


def paths(t, pre=()):
    """all paths of equations"""
    for e in t:
        nm = e.get('name', e.get('key'))
        if e['t'] == 'd':
            yield from paths(e['items'], pre + (nm,))
        elif e['t'] == 'f':
            yield from paths(e['items'],
                             pre + (nm.rsplit('.', 1)[0],))
        elif e['t'] == 'g':
            yield from paths(e['items'], pre + (nm,))
        elif e['t'] in ('e', 'n'):
            yield pre + (nm,)


SIZE = re.compile(r'_(\d+)(MW|mw)$')
YEAR = re.compile(r'_(\d{4})$')


def near(g, p):
    """another size or year of the same equation"""
    last = p[-1]
    if SIZE.search(last):
        last = SIZE.sub('_{}MW'.format(g.r.randint(1, 25)), last)
    elif YEAR.search(last):
        last = YEAR.sub('_{}'.format(g.r.randint(2005, 2060)), last)
    else:
        last = last + g.pick(['_9MW', '_2018', 'x'])
    return p[:-1] + (last,)


def flags(g):
    return {k: g.chance(.5) for k in ('ip', 'np', 'iy', 'ny')}


def library(g, lib, d, whole=False):
    """retrieve equations of one directory and look at them"""
    t = lib if whole else d['items']
    fl = g.pick([{'ip': False, 'np': False, 'iy': False, 'ny': False},
                 flags(g)])
    if fl['ip'] and fl['np'] or fl['iy'] and fl['ny']:
        fl['np'] = fl['ny'] = False
    ev = [{'op': 'dir_new', 'h': 'd', 'tree': t, 'fl': fl,
           'repo': '' if whole else d['name']}]
    vs = sorted(names(t))
    ps = [p for p in paths(t) if p[-2] != 'variables']
    for _ in range(40):
        p = g.pick(ps)
        key = '::'.join(near(g, p) if g.chance(.3) else p)
        if g.chance(.12):
            key += g.pick([' + ', '*', '-', ' / ']) + '::'.join(g.pick(ps))
        pr = [{v: value(g, v) for v in vs} for _ in range(2)]
        if g.chance(.3):
            n = g.pick([2, 3])
            pr.append({v: array(g, v, n) for v in vs})
        ev.append({'op': 'get', 'a': 'd', 'key': key, 'probes': pr,
                   'dflt': False})
    ev.append({'op': 'parts', 'a': 'd'})
    ev.append({'op': 'text', 'a': 'd', 'n': g.pick([1, 3, 8])})
    return ev


def config(g, lib, d, files, name):
    ents = files[name]
    full = {d + '/' + k: v for k, v in files.items()}
    allt = ' '.join(e['s'] for es in files.values() for e in es)
    need = [e for e in lib if e['t'] == 'd' and e['name'] + '::' in allt]
    vs = names(need) | {x for e in ents if e['t'] == 's'
                        for x in NAME.findall(e['s'])} \
        | {x for e in files.get('standard_aggregation.yaml', ())
           if e['t'] == 's' for x in NAME.findall(e['s'])}
    keys = {e['key'] for e in ents}
    vs = sorted(vs - keys - {'axis', 'np', 'yaml'})
    dfl = defaults(need)
    ev = [{'op': 'cfg_new', 'h': 'c', 'tree': need, 'ents': ents,
           'via': 'yaml', 'main': d + '/' + name, 'files': full,
           'fl': {'ip': False, 'np': False, 'iy': False, 'ny': False},
           'repo': True}]

    def inp(arr):
        use = [v for v in vs if v not in dfl or g.chance(.3)]
        if g.chance(.15) and use:
            use.remove(g.pick(use))
        n = g.pick([2, 3])
        return {v: array(g, v, n) if arr and g.chance(.7) or
                v == 'rep_profiles_0' else value(g, v) for v in use}
    for k in range(3):
        how = g.pick(['dict', 'dict', 'df'])
        ev.append({'op': 'cfg_eval', 'a': 'c', 'inp': inp(k > 0),
                   'how': 'dict' if 'rep_profiles_0' in vs else how})
    ev.append({'op': 'cfg_look', 'a': 'c'})
    return ev


def family(g, n):
    lib = tree(LIB)
    dirs = [e for e in lib if e['t'] == 'd']
    out = [library(g, lib, None, True)]
    out += [library(g, lib, d) for d in dirs]
    cfg = configs()
    todo = [(d, f) for d in sorted(cfg) for f in cfg[d]
            if f != 'standard_aggregation.yaml']
    g.r.shuffle(todo)
    out += [config(g, lib, d, cfg[d], f) for d, f in todo[:n]]
    while len(out) < n:
        if g.chance(.5):
            out.append(library(g, lib, g.pick(dirs)))
        else:
            d, f = g.pick(todo)
            out.append(config(g, lib, d, cfg[d], f))
    return out
