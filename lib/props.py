"""Scenario families of each property."""
import json
import re
import shipped

from gen import (Gen, FL0, VARS, KEYS, FILES, DIRS, NUMS, NUMS0,
                 XNUMS, BIG, FINEN, KNUMS, q, a, J,
                 tree_paths, group_paths, eqpaths, stem, _dedupe)

MINI = [{'name': 'lib.yaml', 't': 'f', 'items': [
    {'key': 'one', 't': 'e', 's': 'x + 1', 'items': []}]}]


def fl(**kw):
    return dict(FL0, **kw)


def probes(g, names, k=2, part=True):
    """environments to evaluate an equation in: complete ones and partial
    ones (defaults, missing inputs)"""
    out = [g.env(names) for _ in range(k)]
    if part:
        out.append(g.env(names, 0.6))
        out.append({})
    return out


def is_num(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def ent(key, s):
    return {'key': key, 't': 's', 's': s}


def entn(key, s):
    return {'key': key, 't': 'n', 's': s}


# ------------------------------------------------------------ C01 arithmetic
def cfg_library(g, inputs, fam=0.0, **kw):
    tree = g.tree(inputs, depth=g.pick([0, 1, 1, 2]), fam=fam, **kw)
    return tree, [(J(p), k) for p, k in tree_paths(tree)]


def config_case(g, n=5, calls=0.08, collide=0.0, consts=0.25, depth=2,
                inputs=None, tree=None, groups=0.15, fam=0.0, deep=True,
                tops_too=0.0):
    """a random acyclic config; returns (tree, entries, inputs, info)"""
    inputs = inputs or g.some(VARS, 4)
    if tree is None:
        tree = g.tree(inputs, depth=g.pick([0, 1, 1, 2]) if deep else 0,
                      fam=fam)
    paths = [(J(p), k) for p, k in tree_paths(tree)]
    libeq = [p for p, k in paths if k in ('e', 'n')]
    if g.chance(0.12):
        # a variable of the library is a number
        libeq += [p for p, k in paths if k == 'q']
    libgr = [(p, k) for p, k in paths if k in ('f', 'g', 'd')]
    if n > 2 and g.chance(0.02):
        n = g.pick([14, 20])
    keys = g.some([k for k in KEYS if k not in inputs], n)
    for i in range(len(keys)):
        if g.chance(collide):
            free = [v for v in inputs if v not in keys]
            if free:
                keys[i] = g.pick(free)
    ents, done, cst, grp = [], [], [], []
    tops = {p[0] for p, _ in tree_paths(tree)}
    keys = [k for k in keys if k not in tops]
    if keys and g.chance(tops_too):
        # an entry with the name of a part of the library hides that part
        keys[g.pick(range(len(keys)))] = g.pick(
            [t for t in sorted(tops) if not is_num(t)] or keys)
        keys = list(dict.fromkeys(keys))
    if len(keys) > 1 and g.chance(0.2):
        # names that start or end with another name
        k = keys[0] + g.pick(['_2', 's', '1', '_cost', '_'])
        if k not in keys and k not in tops and k not in ('keys', 'items'):
            keys[-1] = k
    for k in keys:
        x = g.r.random()
        free = [v for v in inputs if v not in keys]
        if x < consts:
            if g.chance(0.08):
                s = g.pick(BIG + ['3e-9', '2.5e-10', '0.12345678', '1234567',
                                  '7e-8', '0.1234567891', '4e9'])
                ents.append((entn if g.chance(.5) else ent)(k, s))
            elif g.chance(0.7):
                ents.append(entn(k, g.const(NUMS0 + ['-4', '1.5'])))
            else:
                ents.append(ent(k, g.pick(XNUMS + ['-2', ' 3 '])))
            cst.append(k)
            done.append(k)
            continue
        if x < consts + groups and libgr:
            p, kind = g.pick(libgr)
            ents.append(ent(k, p))
            sub = [y[len(p) + 2:] for y, kk in paths
                   if y.startswith(p + '::') and kk in ('e', 'n')]
            grp += ['{}::{}'.format(k, s) for s in sub]
            continue
        pool = done * 3 + g.some(libeq, 4) + free + grp
        if not pool:
            pool = ['2']
        if x < consts + groups + 0.12:
            ents.append(ent(k, g.pick(pool)))
            done.append(k)
            continue
        plain = [y for y in done if '::' not in y] + free
        if calls and plain and g.chance(calls):
            t = g.call(lambda: g.pick(plain), free, False)
            if g.chance(0.5):
                t = t + [g.pick(['+', '-', '*', '/'])] + [g.pick(pool)]
            s = g.join(t).strip()
        else:
            s = g.join(g.expr(lambda: g.pick(pool), depth=depth, sign=True,
                              caret='both', nums=XNUMS,
                              sqpar=True)).strip()
            if not any(c in s for c in '+-*/^'):
                s = s.strip('() \t\n')
            if not any(v in s for v in pool) and not g.chance(0.3):
                s = g.pick(pool) + ' * ' + '(' + s + ')'
            bare = s.strip('()+- \t\n')
            if is_num(bare) and not is_num(s):
                s = '2 * ' + bare    # a bare literal in parentheses
        ents.append(ent(k, s))
        done.append(k)
    g.r.shuffle(ents)
    return tree, ents, inputs, {'const': cst, 'keys': keys}


def new_cfg(tree, ents, h='c', fl_=None, **kw):
    return dict({'op': 'cfg_new', 'h': h, 'tree': tree, 'ents': ents,
                 'fl': fl_ or FL0, 'via': 'dict'}, **kw)


def full_inputs(g, inputs, info, arr=False):
    """values for all input names that are not constants of the config"""
    d = g.env([v for v in inputs if v not in info['const']])
    if arr:
        n = g.pick([1, 2, 3])
        d = {k: (g.arr(n) if g.chance(0.6) else v) for k, v in d.items()}
    return d


def extremes(g):
    """constants of every size, named in arithmetic"""
    cs = g.some(['3e-9', '2.5e-10', '0.12345678', '1234567', '7e-8', '4e9',
                 '0.00000123', '98765.4321', '1e-12', '33333333',
                 '1.0000001', '0.99999', '2e-5', '1e10', '6.25e-7'], 3)
    ents = [(entn if g.chance(.6) else ent)('k{}'.format(j), s)
            for j, s in enumerate(cs)]
    for j, s in enumerate(g.some(
            ['x * k0', 'k0 * k1', 'x / k1', 'k0 / k2 * x', '(x + 1) * k2',
             'k1 * k1 / k0', 'lib::one * k0', 'k2 ^ 2 * x', '-k1 * x',
             'k0 / (2 * k1)', 'x * 3 * k2', 'k1', 'np.abs(x) * k1',
             'k2 * lib::one / k1'], 5)):
        ents.append(ent('r{}'.format(j), s))
    g.r.shuffle(ents)
    return [new_cfg(MINI, ents)] + [
        {'op': 'cfg_eval', 'a': 'c', 'inp': g.env(['x']), 'how': 'dict'}
        for _ in range(2)]


def c01(g, n):
    """arithmetic of config entries"""
    out = []
    for i in range(n):
        if g.chance(0.04):
            out.append(extremes(g))
            continue
        tree, ents, inputs, info = config_case(
            g, n=g.pick([3, 4, 5, 6]), consts=0.2, depth=g.pick([1, 2, 3]),
            calls=0.15)
        ev = [new_cfg(tree, ents),
              {'op': 'cfg_eval', 'a': 'c', 'inp': full_inputs(g, inputs, info),
               'how': 'dict'},
              {'op': 'cfg_eval', 'a': 'c', 'inp': full_inputs(g, inputs, info),
               'how': 'dict'}]
        out.append(ev)
    return out


# --------------------------------------------------------- C02 math in keys
def c02(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 4)
        isdir = g.chance(0.5)
        if isdir:
            tree = g.tree(inputs, depth=g.pick([0, 1, 1]), fam=0.3)
            new = {'op': 'dir_new', 'h': 'o', 'tree': tree,
                   'fl': fl(**g.pick([{}, {'ip': True}, {'ny': True}]))}
            leaves = eqpaths(tree)
        else:
            items = g.items(g.pick([2, 3, 4]), inputs, nested=0.3)
            new = {'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
                   'via': 'dict'}
            leaves = [J(p) for p, k in group_paths(items) if k != 'g']
        leaves = [x for x in leaves if not _unsafe(x)]
        ev = [new]
        big = g.chance(0.2)
        for _ in range(4):
            pool = leaves or ['2']
            toks = g.expr(lambda: g.pick(pool), depth=g.pick([1, 2, 2, 3]),
                          sign=False, caret='both', sqpar=False,
                          nums=NUMS + KNUMS * big,
                          n=g.pick([2, 2, 3, 4, 5]))
            ev.append({'op': 'get', 'a': 'o', 'key': g.join(toks),
                       'dflt': False, 'probes': probes(g, inputs, 2)})
        if g.chance(0.3):
            # a name in the expression does not exist
            key = '{} {} nothere_{}'.format(g.pick(leaves or ['2']),
                                            g.pick('+-*/'), 'x')
            ev.append({'op': 'get', 'a': 'o', 'key': key,
                       'dflt': g.chance(0.5), 'probes': []})
        out.append(ev)
    return out


def _unsafe(path):
    """paths that repeat a part are outside the domain (see DESIGN)"""
    p = path.split('::')
    return len(set(p)) != len(p)


# ----------------------------------------------------- C03 Equation objects
TINY = BIG + ['1.5e-12', '2e12', '3.25e-09', '4e-7', '1e15', '-2.5e-11']


def c03(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 4)
        ev = []
        hs = []
        tiny = g.chance(0.15)
        for k in range(g.pick([2, 3])):
            h = 'e{}'.format(k)
            if g.chance(0.25):
                s = g.pick(NUMS + ['-2', '-3', '-1.5', '+4'] + TINY * tiny)
                ev.append({'op': 'eq_new', 'h': h, 's': s, 'name': '',
                           'defs': {}, 'num': g.chance(0.5)
                           and not s.startswith('+')})
            else:
                s = g.libtext(lambda: g.pick(inputs), inputs, depth=1,
                              n=g.pick([1, 1, 2, 3]))
                ev.append({'op': 'eq_new', 'h': h, 's': s,
                           'name': g.pick(['', '', 'cost', 'eqn_1']),
                           'defs': g.env(g.some(inputs, 1), 0.4),
                           'num': False})
            hs.append(h)
        defs = {}
        for e in ev:   # the same default in all equations of the scenario
            for k in list(e['defs']):
                e['defs'][k] = defs.setdefault(k, e['defs'][k])
        for k in range(g.pick([2, 3, 4, 5])):
            h = 'r{}'.format(k)
            op = g.pick(['+', '-', '*', '/', '-', '/', '**'])
            e = {'op': 'eq_op', 'h': h, 'o': op, 'a': g.pick(hs)}
            x = g.r.random()
            if op == '**':
                e.update(bt='n', b=g.pick(['2', '3', '1', '0', '-1']))
                if g.chance(0.3):
                    e.update(bt='s', b=g.pick(['1 + 1', '2', '3 - 2',
                                               '-1']))
            elif x < 0.5:
                e.update(bt='h', b=g.pick(hs))
            elif x < 0.75:
                e.update(bt='n', b=g.pick(NUMS + ['-2', '-1.5', '-1'] + (
                    ['0', '0', '0.0'] if op != '/' else [])
                    + TINY * tiny))
            else:
                e.update(bt='s', b=g.libtext(lambda: g.pick(inputs), inputs,
                                             depth=1, n=g.pick([1, 2, 3])))
            ev.append(e)
            hs.append(h)
            ev.append({'op': 'look', 'a': h, 'probes': probes(g, inputs, 2)})
        # the operands are as before
        ev.append({'op': 'look', 'a': 'e0', 'probes': probes(g, inputs, 1)})
        if g.chance(0.4):
            ev.append({'op': 'eq_repl', 'h': 'rep', 'a': 'e0', 'name': ev[0][
                'name'], 's': g.libtext(lambda: g.pick(inputs), inputs,
                                        depth=1)})
            ev.append({'op': 'look', 'a': 'rep',
                       'probes': probes(g, inputs, 1)})
        if g.chance(0.4):
            ev.append({'op': 'eq_def', 'a': g.pick(hs),
                       'defs': g.env(g.some(inputs, 2))})
            for h in g.some(hs, 3):
                ev.append({'op': 'look', 'a': h,
                           'probes': probes(g, inputs, 1)})
        if g.chance(0.5):
            ev.append({'op': 'eq_eval', 'a': g.pick(hs), 'kw': g.env(
                inputs, g.pick([1.0, 1.0, 0.5])), 'alias': g.chance(0.5)})
        out.append(ev)
    return out


# ------------------------------------------- C04 references, any order
def long_chain(g, m):
    """a config where every entry waits for another one"""
    keys = ['k{}'.format(j) for j in range(m)]
    lib = [{'name': 'lib.yaml', 't': 'f', 'items': [
        {'key': 'l{}'.format(j), 't': 'e', 'items': [],
         's': 'k{} + {}'.format(j + 1, g.pick(['1', '-1', '0.5']))}
        for j in range(m - 1)]}]
    ents = []
    for j in range(m - 1):
        s = g.pick(['np.add(k{1}, 1)', 'lib::l{0}', 'np.maximum(k{1}, -9) - 1',
                    'lib::l{0} - 1'])
        ents.append(ent(keys[j], s.format(j, j + 1)))
    ents.append(ent(keys[-1], '2 * x'))
    if m < 100 and g.chance(0.5):
        g.r.shuffle(ents)
    elif g.chance(0.2):
        ents.reverse()
    return [new_cfg(lib, ents), {'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                                 'inp': g.env(['x'])},
            {'op': 'cfg_look', 'a': 'c'}]


def c04(g, n):
    """the same entries in several orders give the same results"""
    out = []
    for i in range(n):
        if i < 2 or g.chance(0.05):
            out.append(long_chain(g, g.pick([101, 104, 108]) if i < 2
                                  else g.pick(range(8, 26))))
            continue
        tree, ents, inputs, info = config_case(
            g, n=g.pick([4, 5, 6, 7]), consts=0.2, depth=1, calls=0.1,
            groups=0.25, collide=g.pick([0, 0, 0.3]),
            tops_too=g.pick([0, 0.5]))
        inp = full_inputs(g, inputs, info)
        ev = []
        for k in range(2):
            es = list(ents)
            if k:
                es = es[::-1] if g.chance(0.3) else g.some(es, len(es))
            h = 'c{}'.format(k)
            ev += [new_cfg(tree, es, h=h),
                   {'op': 'cfg_eval', 'a': h, 'inp': inp, 'how': 'dict'}]
        out.append(ev)
    return out


# ------------------------------------------------- C05 circular references
def c05(g, n):
    out = []
    for i in range(n):
        kind = g.pick(['cfg', 'cfg', 'cfg', 'grp', 'dir', 'lib', 'self',
                       'ok', 'eqself'])
        keys = g.some(KEYS, g.pick([1, 2, 3, 4, 5] * 4 + [8, 12, 15]))
        inputs = [v for v in g.some(VARS, 3) if v not in keys]
        wide = []
        if g.chance(0.15):
            # names that sort before, between and after the keys
            wide = [v for v in g.some(['A1', 'A2', 'aa', 'ab', 'b', 'k', 'm_',
                                       'zz', 'zzz', 'z9'], g.pick([4, 6, 8]))
                    if v not in keys]
            inputs = inputs + wide
        if kind in ('cfg', 'ok', 'grp', 'dir'):
            # chain with a back edge (or none), the cycle need not contain
            # the first entries
            refs = {k: [] for k in keys}
            for j in range(len(keys) - 1):
                refs[keys[j]].append(keys[j + 1])
            if kind != 'ok' and g.chance(0.85):
                j = g.pick(range(len(keys)))
                refs[keys[-1]].append(keys[j])
            for _ in range(g.pick([0, 1])):   # forward edges only
                if len(keys) > 2:
                    j = g.pick(range(len(keys) - 1))
                    m = g.pick(range(j + 1, len(keys)))
                    refs[keys[j]].append(keys[m])
            ents = []
            for k in keys:
                parts = refs[k] + (g.some(inputs, g.pick([0, 1]))
                                   if not wide else list(wide))
                g.r.shuffle(parts)
                if not parts:
                    s = g.pick(inputs)
                elif len(parts) == 1 and g.chance(0.5) and kind != 'grp':
                    s = parts[0]
                elif g.chance(0.15):
                    s = 'np.maximum({}, {})'.format(parts[0], '2') + ''.join(
                        ' + ' + p for p in parts[1:])
                else:
                    ops = ['+', '-', '*', '/'] + (
                        ['^', '**'] if kind in ('cfg', 'ok') else ['**'])
                    s = parts[0]
                    for p in parts[1:]:
                        s += g.pick(['{}', ' {} ']).format(
                            g.pick(ops[:4])) + p
                    if len(parts) == 1:
                        o = g.pick(ops)
                        s = s + g.pick(['{}2', ' {} 2']).format(o)
                ents.append((k, s))
            g.r.shuffle(ents)
            if kind in ('cfg', 'ok'):
                ev = [new_cfg(MINI, [ent(k, s) for k, s in ents])]
                ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                           'inp': g.env(inputs)})
            else:
                items = [{'key': k, 't': 'e', 's': s, 'items': []}
                         for k, s in ents]
                if g.chance(0.3):
                    items = [{'key': 'top', 't': 'g', 's': '',
                              'items': items}]
                if kind == 'grp':
                    ev = [{'op': 'grp_new', 'h': 'o', 'items': items,
                           'fl': FL0, 'via': g.pick(['dict', 'yaml',
                                                     'json'])}]
                else:
                    t = [{'name': 'g.yaml', 't': 'f', 'items': items}]
                    if g.chance(0.5):
                        t = [{'name': 'sub', 't': 'd', 'items': t}]
                    ev = [{'op': 'dir_new', 'h': 'o', 'tree': t, 'fl': FL0}]
                    if g.chance(0.5):
                        ev = [new_cfg(t, [ent('aa', '2 * zz')])]
        elif kind == 'lib':
            # entries that depend on each other through library variables
            items = [{'key': 'l{}'.format(j), 't': 'e', 'items': [],
                      's': '{} * 2 + {}'.format(k, g.pick(inputs))}
                     for j, k in enumerate(keys)]
            t = [{'name': 'lib.yaml', 't': 'f', 'items': items}]
            perm = list(range(len(keys)))
            if g.chance(0.6):
                perm = perm[1:] + perm[:1]
            else:
                perm = [j + 1 for j in perm]
            es = []
            for j, k in enumerate(keys):
                s = ('lib::l{}'.format(perm[j]) if perm[j] < len(keys)
                     else g.pick(inputs) + ' + 1')
                if g.chance(0.4) and perm[j] < len(keys):
                    s += ' * 2'
                es.append(ent(k, s))
            g.r.shuffle(es)
            ev = [new_cfg(t, es), {'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                                   'inp': g.env(inputs + (
                                       keys if g.chance(.2) else []))},
                  {'op': 'cfg_look', 'a': 'c'}]
        elif kind == 'self':
            k = keys[0]
            s = g.pick(['{0}', '{0} * 2', '2 + {0}', '({0} + 1) * 2',
                        '{0}::a', 'np.exp({0})', '-{0}', '{0}^2',
                        'np.maximum(2, {0}) * 3']).format(k)
            ev = [new_cfg(MINI, [ent(k, s), ent('other_', 'x * 2')])]
        else:
            k = keys[0]
            s = g.pick(
                ['{0}', '{0} * 2', '2+{0}', 'np.exp({0})', 'x*({0}-1)',
                 'x_{0}', '{0}_x + 1', 'x', '{0}0*2']).format(k)
            if wide:
                s = ' + '.join(g.some(wide, 9) + [s])
            ev = [{'op': 'eq_new', 'h': 'e', 's': s,
                'name': k, 'defs': {}, 'num': False},
                {'op': 'look', 'a': 'e', 'probes': [g.env(['x'])]}]
        out.append(ev)
    return out


# ------------------------------------------------- C06 local substitution
def c06(g, n):
    out = []
    tricky = ['exp', 'x', 'xx', 'e', 'e1', 'co2', 'co2e', 'cost', 'cost_2',
              'cost_20', 'p', 'np_', 'max', 'maximum', 'where', 'MW', 'a_3MW',
              'a_30MW', 'a_3MWx', 'n', 'sqrt', 'num', 'keys', 'items', 'abs',
              'square', 'a_2015', 'd', 'pd_', 'E', 'dd', 'exp_', '_x', 'x_']
    for i in range(n):
        inputs = g.some(['depth', 'dist', 'xy', 'rate', 'x1', 'ee', 'e10',
                         'y_x', 'mx'], 3)
        keys = g.some(tricky, g.pick([2, 3, 4, 5]))
        items = g.items(len(keys), inputs + g.some(tricky, 1) * 0, keys=keys,
                        nested=0.12, calls=0.25, nums=0.15)
        if g.chance(0.2):
            # a negative number by name
            k1, k2 = g.some(['shift', 'off', 'neg_', 'm0'], 2)
            items.append({'key': k1, 't': 'n', 'items': [],
                          's': g.pick(['-3', '-1.5', '-2', '-0.5'])})
            items.append({'key': k2, 't': 'e', 'items': [], 's': g.pick(
                ['{0} ** 2', '{1} - {0} ** 2', '-{0}**2 + {1}', '2 ** {0}',
                 '{1} - {0}', '{1}-{0}*2', '({0}) ** 3', '{1}/{0}**2',
                 'np.abs({0}) - {0}**3']).format(k1, inputs[0])})
            g.r.shuffle(items)
        elif g.chance(0.08):
            # every equation uses the next one
            m = g.pick([6, 8, 11, 15])
            ks = g.some(['c{}'.format(j) for j in range(20)], m)
            items = [{'key': k, 't': 'e', 'items': [], 's': g.pick(
                ['{} + 1', '{} - 2', '2 * {}', '-{}', '{} / 2',
                 'np.maximum({}, 1)']).format(
                     ks[j + 1] if j + 1 < m else inputs[0])}
                     for j, k in enumerate(ks)]
            g.r.shuffle(items)
        via = g.pick(['dict', 'dict', 'yaml', 'json', 'dir'])
        if via == 'dir':
            t = [{'name': 'lib.yaml', 't': 'f', 'items': items}]
            dv = g.some(inputs, 1)
            if g.chance(0.5):
                t.append(g.vfile(dv))
            ev = [{'op': 'dir_new', 'h': 'o', 'tree': t, 'fl': FL0}]
            pre = 'lib::'
        else:
            ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
                   'via': via}]
            pre = ''
        for p, k in group_paths(items):
            if k != 'g' and not _unsafe(J(p)):
                ev.append({'op': 'get', 'a': 'o', 'key': pre + J(p),
                           'dflt': False, 'probes': probes(g, inputs, 2)})
        out.append(ev)
    return out


# --------------------------------------------------------- C07 life cycle
def lifecycle_ops(g, inputs, info, keys, h='c', k=8, arr=0.2):
    ev = []
    names = [v for v in inputs if v not in info['const']]
    for _ in range(k):
        op = g.pick(['eval', 'eval', 'evalin', 'evalin', 'in', 'in', 'set1',
                     'reset', 'reset1', 'look', 'get', 'clear', 'bad',
                     'partial', 'stale'])
        ar = g.chance(arr)
        ln = g.pick([3, 3, 3, 2, 1, 0])

        def inp(p, ar=ar, ln=ln):
            d = g.env(names, p)
            if ar:
                d = {x: (dict(g.arr(ln), py=g.pick(['', 'arr32', 'strided']))
                         if g.chance(.5) else v)
                     for x, v in d.items()}
            return d
        if op == 'eval':
            ev.append({'op': 'cfg_eval', 'a': h, 'alias': g.chance(.3)})
        elif op == 'evalin':
            ev.append({'op': 'cfg_eval', 'a': h, 'inp': inp(1.0),
                       'how': g.pick(['dict', 'dict', 'df'])})
        elif op == 'partial':
            ev.append({'op': 'cfg_eval', 'a': h, 'inp': inp(0.5),
                       'how': 'dict'})
        elif op == 'in':
            ev.append({'op': 'cfg_in', 'a': h,
                       'inp': inp(g.pick([1, 1, .5])),
                       'how': g.pick(['dict', 'dict', 'df'])})
        elif op == 'set1' and names:
            ev.append({'op': 'cfg_set1', 'a': h, 'key': g.pick(names),
                       'v': g.num()})
        elif op == 'reset':
            ev.append({'op': 'cfg_reset', 'a': h, 'key': ''})
        elif op == 'reset1':
            ev.append({'op': 'cfg_reset', 'a': h,
                       'key': g.pick(keys + ['nothere'])})
            if g.chance(0.7):
                ev.append({'op': 'cfg_look', 'a': h})
        elif op == 'stale' and names and keys:
            # only a part is computed again
            if g.chance(0.6):
                ev.append({'op': 'cfg_eval', 'a': h, 'inp': inp(1.0),
                           'how': 'dict'})
            ev.append({'op': 'cfg_reset', 'a': h, 'key': g.pick(keys)})
            ev.append({'op': 'cfg_set1', 'a': h, 'key': g.pick(names),
                       'v': g.num()})
            ev.append({'op': 'cfg_eval', 'a': h, 'alias': g.chance(.3)})
        elif op == 'look':
            ev.append({'op': 'cfg_look', 'a': h})
        elif op == 'get':
            ev.append({'op': 'cfg_get', 'a': h,
                       'key': g.pick(keys + ['nothere']),
                       'how': g.pick(['item', 'attr', 'get']), 'probes': []})
        elif op == 'clear':
            ev.append({'op': 'cfg_in', 'a': h, 'clear': True, 'inp': {}})
        elif op == 'bad' and names:
            how = g.pick(['dict', 'dict', 'bad', 'bad', 'badkey'])
            d = inp(0.6)
            if how == 'dict':
                d[g.pick(names)] = g.pick([{'t': 'str', 'v': '5'},
                                           {'t': 'none'}, {'t': 'dict'}])
            o = g.pick(['cfg_in', 'cfg_eval'])
            ev.append({'op': o, 'a': h, 'inp': d, 'how': how})
    ev.append({'op': 'cfg_look', 'a': h})
    return ev


def c07(g, n):
    out = []
    for i in range(n):
        tree, ents, inputs, info = config_case(
            g, n=g.pick([1, 3, 4, 5]), consts=0.15, depth=1, calls=0.15,
            groups=0.1, collide=g.pick([0, 0, 0.25]), inputs=g.some(
                [v for v in VARS if v not in ('keys', 'items', 'get',
                                              'update', 'values')], 3))
        keys = [e['key'] for e in ents]
        ev = [new_cfg(tree, ents)]
        if g.chance(0.3):
            ev = [new_cfg(tree, ents, inp=full_inputs(g, inputs, info),
                          how=g.pick(['dict', 'df']))]
        ev += lifecycle_ops(g, inputs, info, keys, k=g.pick([6, 8, 10]))
        out.append(ev)
    return out


# ------------------------------------------------------ C08 required inputs
def c08(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, g.pick([4, 5, 6]))
        tree, ents, inputs, info = config_case(
            g, n=g.pick([3, 4, 5, 6]), consts=0.2, depth=1, calls=0.2,
            groups=0.2, collide=0.25, inputs=inputs)
        names = [v for v in inputs if v not in info['const']]
        ev = [new_cfg(tree, ents)]
        if g.chance(0.25):
            ev = [new_cfg(tree, ents, inp=g.env(names, .5),
                          how=g.pick(['dict', 'df']))]
        g.r.shuffle(names)
        # hand in the inputs one after the other
        for k in names[:g.pick([1, 2, 3, 6])]:
            x = g.r.random()
            v = g.num()
            if g.chance(0.15):
                v = g.arr(g.pick([0, 1, 3]))
            elif g.chance(0.15):
                v = q(0)
            if x < 0.4:
                ev.append({'op': 'cfg_in', 'a': 'c', 'inp': {k: v},
                           'how': g.pick(['dict', 'df'])})
            elif x < 0.7:
                ev.append({'op': 'cfg_eval', 'a': 'c', 'inp': {k: v},
                           'how': 'dict'})
            else:
                ev.append({'op': 'cfg_set1', 'a': 'c', 'key': k, 'v': v})
            ev.append({'op': 'cfg_look', 'a': 'c'})
        ev.append({'op': 'cfg_eval', 'a': 'c'})
        ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                   'inp': g.env(names)})
        ev.append({'op': 'cfg_look', 'a': 'c'})
        out.append(ev)
    return out


# ------------------------------------------------------------ C09 precedence
def c09(g, n):
    """every name of the library can be set in the library, in the config as
    constant or computed entry, and in the inputs"""
    out = []
    for i in range(n):
        names = g.some(VARS, g.pick([2, 3, 4]))
        other = g.some([v for v in VARS if v not in names], 2)
        nested = g.chance(0.5)
        items = [{'key': 'eq_' + str(j), 't': 'e', 'items': [],
                  's': g.libtext(lambda: g.pick(names), names, depth=1,
                                 calls=0.1, n=g.pick([1, 2, 3]))}
                 for j in range(3)]
        low = [{'name': 'lib.yaml', 't': 'f', 'items': items}]
        up = [v for v in names if g.chance(0.5)]
        dn = [v for v in names if g.chance(0.35)]
        if nested:
            if dn:
                low.append(g.vfile(dn))
            tree = [{'name': 'sub', 't': 'd', 'items': low}]
            pre = 'sub::lib::'
        else:
            tree = low
            pre = 'lib::'
        if up:
            tree = tree + [g.vfile(up)]
        ents, const = [], []
        order = list(names)
        g.r.shuffle(order)
        used = []
        for v in order:
            x = g.r.random()
            if x < 0.25:
                ents.append(entn(v, g.const(NUMS)))
                const.append(v)
            elif x < 0.5:
                # computed from other inputs and from earlier computed names;
                # not from constants, these would be inlined
                pool = other + [u for u in used]
                s = g.pick(['{} + 1', '2 * {}', '{} - 3', '{}']).format(
                    g.pick(pool))
                ents.append(ent(v, s))
                used.append(v)
            elif x < 0.6:
                ents.append(ent(v, pre + 'eq_0'))   # own name as input
        ents.append(ent('out_1', pre + 'eq_0'))
        ents.append(ent('out_2', '{}eq_1 * 2 - {}eq_2'.format(pre, pre)))
        if g.chance(0.4):
            ents.append(ent('grp_', pre[:-2]))
            ents.append(ent('out_3', 'grp_::eq_1'))
        if g.chance(0.3):
            ents.append(ent('dir_', pre.split('::')[0]))
            ents.append(ent('out_4', 'dir_' + (pre + 'eq_2')[len(
                pre.split('::')[0]):]))
        if g.chance(0.4):
            ents.append(ent('out_5', 'np.maximum({}, {})'.format(
                g.pick(names), g.pick(names + ['1']))))
        g.r.shuffle(ents)
        ev = [new_cfg(tree, ents)]
        if g.chance(0.3):
            ev = [new_cfg(tree, ents, inp=g.env(names + other),
                          how=g.pick(['dict', 'df']))]
        for _ in range(3):
            # any subset of the names in the inputs, always the free ones
            inp = g.env(names, g.pick([0, 0.4, 1]))
            inp.update(g.env(other))
            if g.chance(0.5):
                inp.update(g.env(names))
            ev.append({'op': 'cfg_eval', 'a': 'c', 'inp': inp,
                       'how': 'dict'})
            if g.chance(0.3):
                ev.append({'op': 'cfg_in', 'a': 'c', 'clear': True,
                           'inp': {}})
        ev.append({'op': 'cfg_look', 'a': 'c'})
        for e in ents:
            # a referenced file or directory has the constants, too
            if e['key'] in ('grp_', 'dir_') and g.chance(0.7):
                ev.append({'op': 'cfg_get', 'a': 'c', 'key': e['key'],
                           'how': g.pick(['item', 'attr']),
                           'h': 'h' + e['key'], 'probes': []})
                ev.append({'op': 'get', 'a': 'h' + e['key'], 'dflt': False,
                           'key': (pre + 'eq_2')[len(e['s']) + 2:],
                           'probes': probes(g, names, 1)})
        # the same for a single library equation
        d = [{'op': 'dir_new', 'h': 'd', 'tree': tree, 'fl': FL0},
             {'op': 'get', 'a': 'd', 'key': pre + 'eq_0', 'dflt': False,
              'h': 'e', 'probes': probes(g, names, 2) + [g.env(names, .3)]}]
        if g.chance(0.4):
            d.append({'op': 'copy', 'a': 'e', 'h': 'e2', 'how': 'deep'})
            d.append({'op': 'eq_def', 'a': 'e2', 'defs': g.env(names, .5)})
            d.append({'op': 'look', 'a': 'e2',
                      'probes': probes(g, names, 1)})
        out.append(ev + (d if g.chance(0.5) else []))
    return out


# ------------------------------------------------------- C10 default scoping
def c10(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)
        tree = g.tree(inputs, depth=g.pick([1, 2, 3]), nfiles=1, pvars=0.6,
                      nested=0.2, dirs=0.85)
        paths = tree_paths(tree)
        if g.chance(0.25):
            # variables with the name of an equation
            eqk = [p[-1] for p, k in paths if k == 'e']
            for e in all_files(tree):
                if e['name'].startswith('variables.') and eqk:
                    e['items'] = _dedupe(e['items'] + [
                        {'key': k, 't': 'n', 'items': [],
                         's': g.const(NUMS)} for k in g.some(eqk, 2)])
            paths = tree_paths(tree)
        ev = [{'op': 'dir_new', 'h': 'o', 'tree': tree, 'fl': FL0}]
        for p, k in g.some([x for x in paths if x[1] in 'edfgnv'], 9):
            if _unsafe(J(p)):
                continue
            ev.append({'op': 'get', 'a': 'o', 'key': J(p), 'dflt': False,
                       'probes': probes(g, inputs, 1)})
        if g.chance(0.3):
            # given defaults, below and above those of the directories
            for _ in range(g.pick([1, 2])):
                gd = {'op': 'grp_def', 'a': 'o', 'defs': g.env(inputs, .5)}
                if g.chance(0.5):
                    gd['force'] = True
                elif g.chance(0.2):
                    gd.update({'defs': {}, 'none': True})
                ev.append(gd)
                ev += [dict(e) for e in g.some(
                    [e for e in ev if e['op'] == 'get'], 4)]
        if g.chance(0.4):
            eqs = [J(p) for p, k in paths if k == 'e' and not _unsafe(J(p))]
            es = [ent('r{}'.format(j), p)
                  for j, p in enumerate(g.some(eqs, 3))]
            if es:
                ev.append(new_cfg(tree, es))
                ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                           'inp': g.env(inputs)})
        out.append(ev)
    return out


def all_files(tree):
    for e in tree:
        if e['t'] == 'd':
            yield from all_files(e['items'])
        elif e['t'] == 'f':
            yield e


# ----------------------------------------------------------------- C11 merge
def c11(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)
        if g.chance(0.5):
            keys = g.some(KEYS, 5)
            f1 = fl(**g.pick([{}, {'ip': True}, {'np': True}]))
            i1 = g.items(g.pick([1, 2, 3, 4]), inputs, keys=keys, nested=.25)
            i2 = g.items(g.pick([1, 2, 3]), inputs, keys=keys + KEYS[:3],
                         nested=0.25)
            if g.chance(0.3):
                i1 = _dedupe(i1 + g.family(inputs, 'p', 'fam', mw='MW'))
                i2 = _dedupe(i2 + g.family(inputs, 'p', 'fam', mw='MW'))
            i2 = _dedupe(i2)
            ev = [{'op': 'grp_new', 'h': 'x', 'items': i1, 'fl': f1,
                   'via': 'dict'}]
            add = {'op': 'add', 'h': 'z', 'a': 'x'}
            bt = g.pick(['h', 'h', 'dict', 'yaml', 'json'])
            if bt == 'h':
                ev.append({'op': 'grp_new', 'h': 'y', 'items': i2, 'fl': f1,
                           'via': 'dict'})
                if g.chance(0.4):
                    ev.append({'op': 'grp_def', 'a': 'y',
                               'defs': g.env(inputs, .5)})
                if g.chance(0.3):
                    ev.append({'op': 'grp_def', 'a': 'x',
                               'defs': g.env(inputs, .5)})
                add.update(bt='h', b='y')
            else:
                add.update(bt='g', items=i2, via=bt)
            ev.append(add)
            paths = {J(p) for p, k in group_paths(i1) + group_paths(i2)}
            for p in sorted(paths):
                if not _unsafe(p):
                    ev.append({'op': 'get', 'a': 'z', 'key': p, 'dflt': True,
                               'probes': probes(g, inputs, 1)})
            if g.chance(0.3):
                ev.append({'op': 'get', 'a': 'z', 'key': 'fam_7MW',
                           'dflt': True, 'probes': probes(g, inputs, 1)})
        else:
            f1 = fl(**g.pick([{}, {'ip': True}]))
            t1 = g.tree(inputs, depth=1, nfiles=2, pvars=.5)
            t2 = g.tree(inputs, depth=1, nfiles=2, pvars=.5)
            ev = [{'op': 'dir_new', 'h': 'x', 'tree': t1, 'fl': f1}]
            add = {'op': 'add', 'h': 'z', 'a': 'x'}
            if g.chance(0.6):
                ev.append({'op': 'dir_new', 'h': 'y', 'tree': t2, 'fl': f1})
                add.update(bt='h', b='y')
            else:
                add.update(bt='tree', tree=t2)
            ev.append(add)
            paths = {J(p) for p, k in tree_paths(t1) + tree_paths(t2)}
            paths = [p for p in sorted(paths) if not _unsafe(p)]
            for p in g.some(paths, 10):
                ev.append({'op': 'get', 'a': 'z', 'key': p, 'dflt': True,
                           'probes': probes(g, inputs, 1)})
        ev.append({'op': 'parts', 'a': 'z'})
        if g.chance(0.4):
            ev.append({'op': 'add', 'h': 'zz', 'a': 'z', 'bt': 'h',
                       'b': 'x'})
            ev.append({'op': 'parts', 'a': 'zz'})
        out.append(ev)
    return out


# -------------------------------------------------------------- C12 isolation
def c12(g, n):
    """objects made from each other, then changed: nothing else changes"""
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)
        ev, eqs, grps, cfgs = [], [], [], []
        kind = g.pick(['eq', 'grp', 'dir', 'cfg', 'cfg', 'mix'])
        da = g.pick([0, 0, .5]) if kind in ('eq', 'grp') else 0
        if kind in ('eq', 'mix'):
            for k in range(2):
                ev.append({'op': 'eq_new', 'h': 'e{}'.format(k), 'name': '',
                           's': g.libtext(lambda: g.pick(inputs), inputs),
                           'defs': g.defs(inputs, .5, da), 'num': False})
                eqs.append('e{}'.format(k))
            ev.append({'op': 'eq_op', 'h': 'e2', 'o': g.pick('+-*'),
                       'a': 'e0', 'b': 'e1', 'bt': 'h'})
            ev.append({'op': 'eq_repl', 'h': 'e3', 'a': 'e0', 's': 'qq + 1',
                       'name': ''})
            eqs += ['e2', 'e3']
        if kind in ('grp', 'mix'):
            i1 = g.items(3, inputs, nested=.3)
            ev.append({'op': 'grp_new', 'h': 'g0', 'items': i1, 'fl': FL0,
                       'via': 'dict'})
            i2 = _dedupe(g.items(2, inputs, nested=.3))
            ev.append({'op': 'grp_new', 'h': 'g1', 'items': i2, 'fl': FL0,
                       'via': 'dict'})
            ev.append({'op': 'add', 'h': 'g2', 'a': 'g0', 'bt': 'h',
                       'b': 'g1'})
            grps += ['g0', 'g1', 'g2']
            paths = [J(p) for p, k in group_paths(i1) if k == 'e'
                     and not _unsafe(J(p))]
            if len(paths) > 1 and g.chance(0.7):
                ev.append({'op': 'get', 'a': 'g0', 'dflt': False, 'h': 'm0',
                           'key': '{} {} {}'.format(
                               paths[0], g.pick('+-*'), paths[1]),
                           'probes': []})
                eqs.append('m0')
        if kind in ('dir', 'cfg', 'mix'):
            tree = g.tree(inputs, depth=1)
            ev.append({'op': 'dir_new', 'h': 'd0', 'tree': tree, 'fl': FL0})
            if kind != 'cfg':
                ev.append({'op': 'dir_new', 'h': 'd1', 'fl': FL0,
                           'tree': g.tree(inputs, depth=1)})
                ev.append({'op': 'add', 'h': 'd2', 'a': 'd0', 'bt': 'h',
                           'b': 'd1'})
        if kind in ('cfg', 'mix'):
            tree, ents, inputs, info = config_case(
                g, n=g.pick([1, 2, 4, 4]), tree=tree, inputs=inputs, depth=1,
                groups=.3)
            at = {'at': 'one'} if g.chance(0.3) else {}
            ev.append(new_cfg(tree, ents, h='c0', **at))
            if at and g.chance(0.6):
                # other files in the same place
                more = config_case(g, n=3, inputs=inputs, depth=1)
                ev.append(new_cfg(more[0], more[1], h='c8', **at))
                if g.chance(0.5):
                    ev.append(new_cfg(tree, ents, h='c9', **at))
            ev.append(new_cfg(tree, ents, h='c1', inp=full_inputs(
                g, inputs, info), how='dict'))
            ev.append({'op': 'copy', 'h': 'c2', 'a': 'c0', 'how': 'deep'})
            cfgs += ['c0', 'c1', 'c2']
        for _ in range(g.pick([4, 6])):
            x = g.pick(['eq'] * bool(eqs) + ['grp'] * bool(grps)
                       + ['cfg'] * (2 * bool(cfgs)) + ['poke'])
            if x in ('eq', 'grp') and g.chance(0.12):
                ev.append({'op': x + '_def', 'defs': {}, 'none': True,
                           'a': g.pick(eqs if x == 'eq' else grps)})
            elif x == 'eq':
                ev.append({'op': 'eq_def', 'a': g.pick(eqs),
                           'defs': g.defs(inputs, .7, da)})
            elif x == 'grp':
                ev.append({'op': 'grp_def', 'a': g.pick(grps),
                           'defs': g.defs(inputs, .7, da)})
            elif x == 'cfg':
                h = g.pick(cfgs)
                ev += lifecycle_ops(g, inputs, info,
                                    [e['key'] for e in ents], h=h, k=2,
                                    arr=0.4)
            else:
                ev.append({'op': 'poke'})
        for h in eqs:
            ev.append({'op': 'look', 'a': h, 'probes': probes(g, inputs, 1)})
        for h in grps:
            ev.append({'op': 'look', 'a': h, 'probes': []})
        for h in cfgs:
            ev.append({'op': 'cfg_look', 'a': h})
            ev.append({'op': 'cfg_eval', 'a': h, 'how': 'dict',
                       'inp': g.env([v for v in inputs
                                     if v not in info['const']])})
        out.append(ev)
    return out


# ---------------------------------------------------------- C13 exact lookup
def file_like(g, tree):
    """directories with names like those of files"""
    for e in tree:
        if e['t'] == 'd' and e['name'][0] not in '._' and g.chance(.5):
            s = e['name'] + g.pick(['.yaml', '.json', '.yml'])
            if stem(s) not in [stem(x['name']) for x in tree if x['t'] == 'f']:
                e['name'] = s
        if e['t'] == 'd':
            file_like(g, e['items'])
    return tree


def near_miss(g, p):
    """a path that is close to an existing one"""
    parts = p.split('::')
    i = g.pick(range(len(parts)))
    x = g.pick(['pre', 'suf', 'case', 'drop', 'more', 'skip', 'blank',
                'below', 'empty', 'num'])
    s = parts[i]
    if x == 'pre':
        parts[i] = g.pick('abx_') + s
    elif x == 'suf':
        parts[i] = s + g.pick(['_', 'x', '1', '0', '.txt', '.YAML', '.Yml',
                               '.JSON', '.yaml', '.json', ' ', '.'])
    elif x == 'case':
        parts[i] = s.swapcase()
    elif x == 'drop':
        parts[i] = s[:-1] or 'q'
    elif x == 'more':
        parts.insert(i, g.pick(FILES))
    elif x == 'skip' and len(parts) > 1:
        del parts[i]
    elif x == 'below':
        parts.append(g.pick(['full', 'x', 'a', '2']))
    elif x == 'empty':
        parts.insert(g.pick([0, len(parts)]), '')
    elif x == 'num':
        parts[i] = g.pick(['7', '1.5', '2015'])
    else:
        parts[i] = s + '__'
    return '::'.join(parts)


def c13(g, n):
    out = []
    for i in range(n):
        if g.chance(0.03):
            out.append(nest_power(g))
            continue
        inputs = g.some(VARS, 3)
        if g.chance(0.55):
            tree = g.tree(inputs, depth=2, fam=.3)
            if g.chance(.1):
                tree = file_like(g, tree)
            new = {'op': 'dir_new', 'h': 'o', 'tree': tree,
                   'fl': fl(**g.pick([{}, {}, {'ip': True, 'iy': True},
                                      {'np': True, 'ny': True}]))}
            paths = [J(p) for p, k in tree_paths(tree)]
            if g.chance(0.2):
                new = {'op': 'var_new', 'h': 'o', 'via': 'dict', 'items':
                       g.vfile(g.some(VARS, 3))['items']}
                paths = [it['key'] for it in new['items']]
        else:
            items = g.items(g.pick([2, 3, 4]), inputs, nested=.35, depth=2)
            items = _dedupe(items + (g.family(inputs) if g.chance(.4)
                                     else []))
            new = {'op': 'grp_new', 'h': 'o', 'items': items,
                   'fl': fl(**g.pick([{}, {}, {'ip': True, 'iy': True},
                                      {'np': True, 'ny': True}])),
                   'via': 'dict'}
            paths = [J(p) for p, k in group_paths(items)]
        paths = [p for p in paths if not _unsafe(p)]
        ev = [new]
        for p in g.some(paths, 4):
            ev.append({'op': 'get', 'a': 'o', 'key': p, 'dflt':
                       g.chance(.3), 'probes': probes(g, inputs, 1)})
        for _ in range(6):
            p = near_miss(g, g.pick(paths))
            if any(c in p for c in '+-*/^') or _unsafe(p):
                continue
            ev.append({'op': 'get', 'a': 'o', 'key': p, 'dflt': g.chance(.4),
                       'probes': probes(g, inputs, 1)})
        if new['op'] != 'var_new' and g.chance(0.12):
            p = g.pick(paths + ['x'])
            ev.append({'op': 'get', 'a': 'o', 'key': g.pick(
                ['[{}] + 1', '{{{}}} * 2', '{}[0] - 1', '2 * [{}, 3]',
                 '{}/{{2}}', '({} + [2])']).format(p),
                'dflt': g.chance(.6), 'probes': []})
        if new['op'] != 'var_new' and g.chance(0.3):
            ev.append({'op': 'get', 'a': 'o', 'key': g.pick(
                ['3', '2.5', '1e1', '.5', ' 4']), 'dflt': g.chance(.5),
                'probes': [{}]})
        out.append(ev)
    return out


# -------------------------------------------------- C14, C15 power and year
BASES = ['pile', 'inst', 'cost', 'a', 'ab', 'spar_10MW', 'x_2015', 'cost_MW',
         'b_1', 'b_10', 'capex_2020', 'x_3MW', 'e']


def family_group(g, inputs, linear=False):
    """a group with one or more families and look-alikes"""
    items = []
    fams = []
    bases = g.some(BASES, g.pick([1, 1, 2, 3]))
    if g.chance(0.15):
        # the same name in other case is another name
        bases.append(g.pick([bases[0].upper(), bases[0].title()]))
        bases = sorted(set(bases))
    for base in bases:
        kind = g.pick(['p', 'y'])
        cst = g.chance(0.25)
        if kind == 'p':
            mw = g.pick(['MW', 'MW', 'MW', 'mw', 'Mw'])
            vals = g.some([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 25]
                          if g.chance(0.85) else
                          [95, 100, 107, 999, 1000, 2049, 2051, 3001, 4097],
                          g.pick([1, 2, 3, 4, 5]))
            ks = [('{}_{}{}'.format(base, v, mw), v) for v in vals]
        else:
            vals = g.some([1800, 1990, 2000, 2005, 2010, 2012, 2015, 2019,
                           2020, 2022, 2025, 2030, 2050, 2200],
                          g.pick([1, 2, 3, 4, 5]))
            ks = [('{}_{}'.format(base, v), v) for v in vals]
        its = []
        for j, (k, v) in enumerate(ks):
            if cst:
                its.append({'key': k, 't': 'n', 's': g.pick(NUMS + ['9', '12',
                                                                   '30']),
                            'items': []})
            else:
                x = g.pick(inputs)
                s = g.pick(['{0} + {1}', '{1} * {0}', '{0} * 2 - {1}',
                            '{1} - {0}', '{0}/{1}', '({0} + 1) * {1}',
                            '{0} ** 2 + {1}', '{1}', '-{0} + {1}',
                            'np.maximum({0}, {1})']).format(
                                x, g.pick(['1', '2', '3', '4', '6', '8']))
                its.append({'key': k, 't': 'e', 's': s, 'items': []})
        items += its
        fams.append((base, kind, [v for _, v in ks]))
    # look-alikes that do not belong to the families
    for k in g.some(['pile_MW', 'pile_3MWx', 'pile3MW', 'inst_gt10MW',
                     'cost_3', 'a_201', 'a_20155', 'a_1799', 'a_2201', 'MW',
                     'a_1500', 'a_2500', 'a_2999', 'a_1000', 'x_2500',
                     '_MW', 'b_1_MW', 'pile_3kW', 'cost_2015x', 'xpile_3MW'],
                    g.pick([0, 1, 2, 3])):
        items.append({'key': k, 't': 'e', 's': g.pick(inputs) + ' * 100',
                      'items': []})
    items = _dedupe(items)
    # 2.5MW and 02MW would be two spellings of a size, see DESIGN
    g.r.shuffle(items)
    return items, fams


def fam_request(g, fams):
    base, kind, vals = g.pick(fams)
    x = g.r.random()
    if kind == 'p':
        v = g.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 20,
                    22, 30, 50])
        if max(vals) > 50 and g.chance(0.7):
            v = g.pick([98, 103, 500, 1500, 2050, 2500, 4000, 5000])
        if x < 0.3 and len(vals) > 1:      # exactly between two sizes
            p, r = g.some(vals, 2)
            if (p + r) % 2 == 0:
                v = (p + r) // 2
        key = '{}_{}{}'.format(base, v, g.pick(['MW', 'MW', 'MW', 'mw',
                                                'mW']))
    else:
        v = g.pick([1801, 1950, 1995, 2000, 2001, 2007, 2013, 2014, 2016,
                    2017, 2018, 2021, 2023, 2024, 2027, 2040, 2060, 2199])
        if x < 0.3 and len(vals) > 1:
            p, r = g.some(vals, 2)
            if (p + r) % 2 == 0:
                v = (p + r) // 2
        key = '{}_{}'.format(base, v)
    if x > 0.9:
        key = g.pick(['nothere_3MW', 'nothere_2015', base + '_MW', base,
                      base + '_', base + '_3MWh', base + '_1700',
                      base + '_2300', base + '_20150', 'x' + key,
                      base + '_1799', base + '_2201', base + '_2999',
                      base + '_1000',
                      base + '_15kW', base + '_3.5MW'])
    return key


def suffix(key):
    """(base, kind, value) of a power or year key"""
    m = re.match(r'(.*)_([0-9]+)MW$', key, re.I)
    if m:
        return m.group(1), 'p', int(m.group(2))
    m = re.match(r'(.*)_([0-9]{4})$', key)
    if m:
        return m.group(1), 'y', int(m.group(2))
    return None


def ambiguous(key, items):
    """two equations are equally near, or the size exists in other case"""
    a = suffix(key)
    if a is None:
        return False
    ds = sorted(abs(b[2] - a[2]) for b in (suffix(x['key']) for x in items)
                if b and b[:2] == a[:2])
    if key in [x['key'] for x in items]:
        return False
    return bool(ds) and (ds[0] == 0 or len(ds) > 1 and ds[0] == ds[1])


def fam_scenarios(g, n, flags):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 2)
        items, fams = family_group(g, inputs)
        f = fl(**g.pick(flags))
        where = g.pick(['grp', 'grp', 'nest', 'dir', 'cfg', 'file'])
        pre = ''
        keys = [fam_request(g, fams) for _ in range(5)]
        if where in ('grp', 'file'):
            new = {'op': 'grp_new', 'h': 'o', 'items': items, 'fl': f,
                   'via': 'dict' if where == 'grp' else 'yaml'}
        elif where == 'nest':
            inner = 'inner'
            if g.chance(0.3):
                # the group has the name that is looked for in it
                inner = fam_request(g, fams)
                keys[0] = inner
            if any(c in inner for c in '+-*/^.'):
                inner = 'inner'
            new = {'op': 'grp_new', 'h': 'o', 'fl': f, 'via': 'dict',
                   'items': [{'key': inner, 't': 'g', 's': '',
                              'items': items},
                             {'key': 'other', 't': 'e', 's': 'x',
                              'items': []}]}
            pre = inner + '::'
        else:
            t = [{'name': 'lib.yaml', 't': 'f', 'items': items}]
            pre = 'lib::'
            if g.chance(0.6):
                t.append(g.vfile(g.some(inputs, 1)))
            if g.chance(0.5):
                t = [{'name': 'sub', 't': 'd', 'items': t}]
                pre = 'sub::lib::'
            new = {'op': 'dir_new', 'h': 'o', 'tree': t, 'fl': f}
        if where == 'cfg':
            keys = [k for k in keys if not any(c in k for c in '+-*/^.')
                    and not ambiguous(k, items)]
            es = [ent('r{}'.format(j), pre + k) for j, k in enumerate(keys)]
            es.append(ent('tot', ' + '.join(
                e['key'] for e in es[:2]) + ' * 2'))
            # a request that is not found is a plain input of the config
            ev = [new_cfg(t, es, fl_=f)]
            ev += [new] + [{'op': 'get', 'a': 'o', 'key': pre + k,
                            'dflt': False, 'probes': probes(g, inputs, 1)}
                           for k in keys[:2]]
            ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                       'inp': g.env(inputs)})
        else:
            ev = [new] + [{'op': 'get', 'a': 'o', 'key': pre + k,
                           'dflt': g.chance(.3),
                           'probes': probes(g, inputs, 2)} for k in keys]
            if g.chance(0.3):
                k = g.pick(keys)
                if not any(c in k for c in '+-*/^.'):
                    ev.append({'op': 'get', 'a': 'o', 'dflt': False,
                               'key': '{0}{1} * 2 - {0}{1}'.format(pre, k),
                               'probes': probes(g, inputs, 1)})
        out.append(ev)
    return out


def nest_power(g):
    """groups whose names look like sizes: only equations are looked up by
    size"""
    inputs = g.some(VARS, 2)
    sufs = g.pick([['3MW', '5MW', '9MW'], ['2015', '2020', '2030']])
    items = []
    for s in g.some(sufs, g.pick([1, 2, 3])):
        sub = g.items(2, inputs, keys=['d', 'dd', 'ddd'])
        for k in g.some(['b', 'c', 'bb'], g.pick([0, 1, 2])):
            sub = [{'key': k, 't': 'g', 's': '', 'items': sub}]
        items.append({'key': 'a_' + s, 't': 'g', 's': '', 'items': sub})
    ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'via': 'dict',
           'fl': fl(np=g.chance(.7), ny=g.chance(.7))}]
    for p, k in g.some(group_paths(items), 5):
        ev.append({'op': 'get', 'a': 'o', 'key': J(p), 'dflt': False,
                   'probes': probes(g, inputs, 1)})
        if len(p) > 1:
            ev.append({'op': 'get', 'a': 'o', 'dflt': g.chance(.4),
                       'key': J((g.pick(['a_4MW', 'a_6MW', 'a_2016',
                                         'a_2024']),) + p[1:]),
                       'probes': []})
    return ev


def c14(g, n):
    m = n // 20
    return [nest_power(g) for _ in range(m)] + fam_scenarios(
        g, n - m, [{'np': True}, {'ny': True}, {'np': True, 'ny': True}, {},
                   {'np': True, 'iy': True}, {'ny': True, 'ip': True}])


def c15(g, n):
    return fam_scenarios(g, n, [{'ip': True}, {'iy': True},
                                {'ip': True, 'iy': True},
                                {'ip': True, 'np': True, 'iy': True},
                                {'ip': True, 'ny': True},
                                {'iy': True, 'np': True},
                                {'iy': True, 'ny': True}])


# --------------------------------------------------------- C16 variable names
def c16(g, n):
    out = []
    for i in range(n):
        ev = []
        for k in range(4):
            inputs = g.some(VARS, g.pick([2, 3, 4, 6]))
            s = g.libtext(lambda: g.pick(inputs), inputs,
                          calls=g.pick([.1, .3, .5]), depth=g.pick([1, 2, 3]))
            if g.chance(0.15):
                s = g.pick(['np.clip({0}, a_min={1}, a_max=10)',
                            'np.where({0}>{1},1,{2})',
                            'np.where(({0} >= 2), {1}, {2}*1e-3)',
                            'np.sum(np.array([{0},{1},3]))',
                            '{0}*1e5+{1}', '{0}/1.5E-3*{1}',
                            'np.round({0}, decimals=2) + {1}',
                            'np.power({0},{1})-{2}', '(({0}))*-{1}',
                            'np.log10({0}+1)*{1}', 'np.pi*{0}**2',
                            '{0}<{1}', '{0} == {1}', '{0}!=2',
                            'np.maximum({0},np.minimum({1},{2}))']).format(
                                *(inputs * 3)[:3])
            h = 'e{}'.format(k)
            ev.append({'op': 'eq_new', 'h': h, 's': s, 'name': '',
                       'defs': g.env(g.some(inputs, 1), .3), 'num': False})
            ev.append({'op': 'look', 'a': h, 'probes': probes(g, inputs, 1)})
        out.append(ev)
    return out


# -------------------------------------------------------- C17 illegal content
ILL = ['import os', 'import numpy', 'os.getcwd()', 'os.system(2)', 'sys.path',
       'sys.exit()', 'x.__class__', 'x.__doc__', '__name__.x', '__.x',
       'eval(2)', 'exec(2)', 'evaluate', 'x + os.sep', 'pos.x', 'retrieval',
       'cos.real', 'execute', 'np.exp(x.__class__)', 'medieval + x',
       'np.maximum(eval(x), 2)', 'executive * 2', "__import__('os.path')",
       'x*(y+eval(2))', '2 + sys.maxsize', 'my_exec', 'x.real.__abs__()',
       'x # os.sep', 'x + 1 #eval', 'x + 1 # exec', 'x;import os',
       'x\nimport os', 'x, os.sep', 'x\tos.sep', 'x if os.sep else y',
       '"eval"', '{os.sep}', 'x or sys.maxsize', 'x and  my_exec',
       'x + 2*y - 3*(x+1) + 4*y + 5*x + 6*(y - 2) + evaluated',
       'lib::one + x.__doc__', 'lib::x.__class__', 'lib::one * evaluated',
       'a::eval', 'lib::one - sys.maxsize', 'sub::lib::os.sep',
       'np.where(x > 2, y, sys.maxsize)', 'x\\os.sep', 'lambda: execx',
       'np.sys.x::y', 'os.x::y * 2', 'eval::x', 'evaluation::lib::one + 2',
       'x.__doc__::one', 'sys.a::b + x', 'exec::one - lib::one',
       'lib::one + os.x::one + lib::one', 'lib::eval::one']
FINE = ['x * 2', 'os + x', 'sys * 3', 'import_cost + x', 'x__y + 1',
        'evil + x', 'eva + l', 'exe * c', 'ev_al', 'os_cost * 2', '__x',
        'x__ + 1', 'important * 2', 'np.exp(x - x)', 'sysx', 'e_val*2',
        'impo + rt', 'imports + x', 'costs*2', 'os1*2', 'x___y']


def forbidden_route(r, s, route, env):
    """the calls that hand text s in by this route"""
    good = 'x + 1'
    it = {'key': 'bad_one', 't': 'e', 's': s, 'items': []}
    ok = {'key': 'fine', 't': 'e', 's': good, 'items': []}
    new = {'op': 'eq_new', 'h': 'e', 's': good, 'num': False, 'name': '',
           'defs': {}}
    use = {'op': 'eq_eval', 'a': 'r', 'kw': env}
    if route == 'eq':
        return [dict(new, h='r', s=s), use]
    if route == 'op':
        return [new, {'op': 'eq_op', 'h': 'r', 'a': 'e', 'b': s, 'bt': 's',
                      'o': r.choice(['+', '-', '*', '/'])}, use]
    if route == 'repl':
        return [new, {'op': 'eq_repl', 'h': 'r', 'a': 'e', 's': s,
                      'name': ''}, use]
    if route in ('grp', 'nest', 'file', 'grpsub'):
        items = [it, ok]
        if route == 'grpsub':
            items.append({'key': 'third', 't': 'e', 'items': [],
                          's': 'bad_one * 2'})
        r.shuffle(items)
        if route == 'nest':
            items = [{'key': 'g1', 't': 'g', 's': '', 'items': [
                {'key': 'g2', 't': 'g', 's': '', 'items': items}]}, ok]
        return [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
                 'via': r.choice(['yaml', 'json', 'yml'])
                 if route == 'file' else 'dict'}]
    if route in ('dir', 'cfglib'):
        t = [{'name': 'd1', 't': 'd', 'items': [
            {'name': 'lib.yaml', 't': 'f', 'items': [ok, it]}]}]
        if route == 'dir':
            return [{'op': 'dir_new', 'h': 'o', 'tree': t, 'fl': FL0}]
        return [new_cfg(t, [ent('res', 'd1::lib::fine')])]
    if route == 'add':
        return [{'op': 'grp_new', 'h': 'o', 'items': [ok], 'fl': FL0,
                 'via': 'dict'},
                {'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'g', 'items': [it],
                 'via': r.choice(['dict', 'yaml'])}]
    es = [ent('bad_one', s), ent('fine', good)]
    r.shuffle(es)
    return [new_cfg(MINI, es) if route == 'cfg' else
            new_cfg(MINI, es, via='yaml', main='c.yaml', files={})]


def c17(g, n):
    out = []
    for i in range(n):
        bad = g.chance(0.7)
        s = g.pick(ILL if bad else FINE)
        if g.chance(0.4) and '(' not in s:
            s = g.pick(['{} + 1', '2 * ({})', '{} * x', '3-{}']).format(s)
        if g.chance(0.08):
            # long text
            pad = g.pick(['x + ', '2 * x - ', 'np.abs(x) + ', 'yy * 10 + '])
            m = g.pick([10, 20, 40, 70, 130])
            if g.chance(0.7):
                s = pad * m + s
            elif '#' not in s:
                s = s + ' + x' * m
        good = 'x + 1'
        route = g.pick(['eq', 'name', 'op', 'repl', 'grp', 'nest', 'file',
                        'dir', 'deepdir', 'cfg', 'cfgexpr', 'cfglib',
                        'cfgnp', 'add', 'cfgfile', 'cfgptr', 'grpsub'])
        it = {'key': 'bad_one', 't': 'e', 's': s, 'items': []}
        ok = {'key': 'fine', 't': 'e', 's': good, 'items': []}
        env = g.env(['x', 'y', 'os', 'sys'])
        df = g.env(['x', 'k', 'y'], .5) if g.chance(.5) else {}
        cst = [entn('kk', '3')] if g.chance(.4) else []
        if route in ('eq', 'name'):
            ev = [{'op': 'eq_new', 'h': 'e', 's': s, 'num': False,
                   'name': 'nm' if route == 'name' else '', 'defs': df},
                  {'op': 'eq_eval', 'a': 'e', 'kw': env}]
        elif route == 'op':
            ev = [{'op': 'eq_new', 'h': 'e', 's': good, 'num': False,
                   'name': '', 'defs': df},
                  {'op': 'eq_op', 'h': 'r', 'a': 'e', 'b': s, 'bt': 's',
                   'o': g.pick(['+', '-', '*', '/', '**'])},
                  {'op': 'eq_eval', 'a': 'r', 'kw': env}]
        elif route == 'repl':
            ev = [{'op': 'eq_new', 'h': 'e', 's': good, 'num': False,
                   'name': '', 'defs': df},
                  {'op': 'eq_repl', 'h': 'r', 'a': 'e', 's': s, 'name': ''},
                  {'op': 'eq_eval', 'a': 'r', 'kw': env}]
        elif route in ('grp', 'nest', 'file', 'grpsub'):
            items = [it, ok]
            if route == 'grpsub':
                items.append({'key': 'third', 't': 'e', 'items': [],
                              's': 'bad_one * 2'})
            g.r.shuffle(items)
            if route == 'nest':
                items = [{'key': 'g1', 't': 'g', 's': '', 'items': [
                    {'key': 'g2', 't': 'g', 's': '', 'items': items}]}, ok]
            ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
                   'via': g.pick(['yaml', 'json', 'yml']) if route == 'file'
                   else 'dict'}]
        elif route in ('dir', 'deepdir', 'cfglib'):
            t = [{'name': 'lib.yaml', 't': 'f', 'items': [ok, it]}]
            if route == 'deepdir':
                t = [{'name': 'd1', 't': 'd', 'items': [
                    {'name': 'd2', 't': 'd', 'items': t}]}] + MINI
            ev = [{'op': 'dir_new', 'h': 'o', 'tree': t, 'fl': FL0}]
            if route == 'cfglib':
                ev = [new_cfg(t, [ent('res', 'lib::fine')])]
        elif route == 'add':
            ev = [{'op': 'grp_new', 'h': 'o', 'items': [ok], 'fl': FL0,
                   'via': 'dict'},
                  {'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'g', 'items': [it],
                   'via': g.pick(['dict', 'yaml'])}]
        else:
            if any(c in s for c in '[\'"{;\n\\'):
                s = 'eval(2)'
            if any(m in s for m in ('np.', '(')) and route == 'cfgexpr':
                s = g.pick(['pos.x', 'retrieval', 'my_exec', 'sys.path',
                            'os', 'x__y'])
            es = [ent('bad_one', s), ent('fine', good)] + cst
            if route == 'cfgexpr':
                es[0]['s'] = g.pick(['{} * 2', '2 + {}', 'x - {} + 1',
                                     '2 * ({} + 1)', 'lib::one * {}',
                                     'x / {}']).format(s)
            if route == 'cfgnp':
                es[0]['s'] = 'np.maximum({}, 2)'.format(
                    s if '(' not in s else 'x.__doc__')
            g.r.shuffle(es)
            if route == 'cfgfile':
                ev = [new_cfg(MINI, es, via='yaml', main='c.yaml', files={})]
            elif route == 'cfgptr':
                if any(c in s for c in '.'):
                    s = 'my_exec'
                es = [ent('res', 'other.yaml::bad_one'), ent('fine', good)]
                ev = [new_cfg(MINI, es, via='yaml', main='c.yaml', files={
                    'other.yaml': [ent('bad_one', s)]})]
            else:
                ev = [new_cfg(MINI, es)]
        out.append(ev)
    return out


# ----------------------------------------------------------- C18 the loader
def c18(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)

        def junk(r=g):
            nm = r.pick(['readme.rst', 'notes.txt', '.hidden.yaml',
                         '__init__.py', '__pycache__', '.git', 'a.yaml.bak',
                         'yaml', 'data.csv', '__skip.yaml', '.yaml',
                         'turbine.yam', 'variables.txt', 'x.jsonl',
                         '__old.json', 'Makefile', 'b.yaml~', '.x.json',
                         'NOTES.YAML', 'x.Json', 'a.YML', '_notes.txt',
                         'variables', 'VARIABLES.YAML', 'variables.yaml.old',
                         'empty_dir'])
            if nm in ('__pycache__', '.git', 'empty_dir'):
                sub = [] if nm == 'empty_dir' else [
                    {'name': 'bad.yaml', 't': 'x', 'raw': ': : ['}]
                if nm == 'empty_dir' and r.chance(.5):
                    sub = [{'name': 'readme.txt', 't': 'x', 'raw': 'hello'}]
                if nm == 'empty_dir' and r.chance(.3):
                    sub = [{'name': 'deeper', 't': 'd', 'items': []}]
                return {'name': nm, 't': 'd', 'items': sub}
            return {'name': nm, 't': 'x', 'raw': r.pick(
                ['hello', '{', 'a: [', 'not: [valid', ''])}

        def lit(depth, r=g):
            t = r.tree(inputs, depth=0, nfiles=2, pvars=.4)
            if r.chance(0.15):
                t = [r.vfile(r.some(inputs, 1))]
            for e in t:
                if e['t'] == 'f' and stem(e['name']) != 'variables' \
                        and r.chance(0.1):
                    e['name'] = r.pick(['v2.', 'a.yaml.', 'x.json.', '1.5.',
                                        'UPPER.']) + e['name']
            for _ in range(r.pick([0, 1, 2])):
                t.append(junk())
            if depth:
                for d in r.some(DIRS, r.pick([0, 1, 2])):
                    t.append({'name': d, 't': 'd', 'items': lit(depth - 1)})
            seen, o = set(), []
            for e in t:
                s = stem(e['name'])
                if s not in seen:
                    seen.add(s)
                    o.append(e)
            return o
        tree = lit(g.pick([0, 1, 2]))
        if g.chance(0.1):
            tree = file_like(g, tree)
        if g.chance(0.3):
            # something that cannot be read, anywhere
            bad = g.pick([
                {'name': 'broken.yaml', 't': 'x', 'raw': 'a: [1, 2'},
                {'name': 'broken.json', 't': 'x', 'raw': '{"a": '},
                {'name': 'list.yaml', 't': 'x', 'raw': '- 1\n- 2\n'},
                {'name': 'text.yml', 't': 'x', 'raw': 'just text'},
                {'name': 'empty.yaml', 't': 'x', 'raw': ''},
                {'name': 'num.yaml', 't': 'f', 'items': [
                    {'key': '12', 't': 'e', 's': 'x', 'items': []}]},
                {'name': 'lst.json', 't': 'f', 'items': [
                    {'key': 'k', 't': 'x', 's': '', 'raw': [1, 2],
                     'items': []}]},
                {'name': 'nul.yaml', 't': 'f', 'items': [
                    {'key': 'k', 't': 'x', 's': '', 'raw': None,
                     'items': []}]},
                {'name': 'variables.yaml', 't': 'f', 'items': [
                    {'key': 'k', 't': 'e', 's': 'x * 2', 'items': []}]},
                {'name': 'variables.json', 't': 'f', 'items': [
                    {'key': 'k', 't': 'e', 's': '5', 'items': []}]},
                {'name': 'variables.yml', 't': 'x', 'raw': 'a: [1'},
                {'name': 'cyc.yaml', 't': 'f', 'items': [
                    {'key': 'k', 't': 'e', 's': 'm * 2', 'items': []},
                    {'key': 'm', 't': 'e', 's': 'k * 2', 'items': []}]}])
            at = tree
            while True:
                subs = [e for e in at if e['t'] == 'd'
                        and e['name'][0] not in '._' and e['items']
                        and e['name'] != 'empty_dir']
                if subs and g.chance(0.5):
                    at = g.pick(subs)['items']
                else:
                    break
            at[:] = [e for e in at if stem(e['name']) != stem(bad['name'])]
            at.append(bad)
        ev = [{'op': 'dir_new', 'h': 'o', 'tree': tree, 'fl': FL0},
              {'op': 'parts', 'a': 'o'}]
        if g.chance(0.15):
            # other files were loaded from the same place before
            ev[0]['at'] = 'p'
            ev.insert(0, {'op': 'dir_new', 'h': 'o0', 'at': 'p', 'fl': FL0,
                          'tree': g.tree(inputs, depth=1) if g.chance(.5)
                          else tree[:-1]})
        paths = [(p, k) for p, k in tree_paths(tree) if not _unsafe(J(p))]
        for p, k in g.some(paths, 6):
            ev.append({'op': 'get', 'a': 'o', 'key': J(p), 'dflt': True,
                       'probes': probes(g, inputs, 1)})
        for nm in g.some(['readme', 'notes', '.hidden', '__init__',
                          '__pycache__', '.git', 'empty_dir', 'broken',
                          '__skip', 'variables', 'yaml', '__old'], 3):
            ev.append({'op': 'get', 'a': 'o', 'key': nm, 'dflt': True,
                       'probes': []})
        out.append(ev)
    return out


# ----------------------------------------------------------- C19 pointers
def c19(g, n):
    out = []
    names = ['base.yaml', 'other.json', 'sub/deep.yaml', 'sub/more.yml',
             'sub/sub2/low.json', 'x.yml', 'sub/base.yaml', 'sub/x.yml',
             'sub/sub2/base.yaml', 'sub2/base.yaml']
    for i in range(n):
        files = {}
        order = g.some(names, g.pick([1, 2, 3, 4]))
        main = g.pick(['main.yaml', 'main.json', 'sub/main.yml'])
        avail = {}
        import os.path as osp
        for f in reversed(order):
            es = []
            for k in g.some(['capex', 'opex', 'fcr', 'aep', 'lcoe', 'k1'],
                            g.pick([1, 2, 3])):
                x = g.r.random()
                if x < 0.3 and avail:
                    tf = g.pick(avail)
                    rel = osp.relpath(tf, osp.dirname(f) or '.')
                    if g.chance(.4):
                        rel = './' + rel
                    elif g.chance(.2):
                        rel = '/' + tf     # an absolute path
                    es.append(ent(k, rel + '::' + g.pick(avail[tf])))
                elif x < 0.6:
                    es.append(entn(k, g.const(NUMS)))
                else:
                    es.append(ent(k, g.pick(['x * 2', 'lib::one', 'y - x',
                                             'lib::one + y', '3 * 2', '7',
                                             'x / y'])))
            if g.chance(0.2):
                es.append({'key': 'interp_extrap_power', 't': 'f', 's': '',
                           'b': True})
            files[f] = es
            avail[f] = [e['key'] for e in es]
        es = []
        for k in g.some(['capex', 'res', 'tot', 'cc', 'fcr', 'q1'],
                        g.pick([2, 3, 4])):
            x = g.r.random()
            if x < 0.55:
                tf = g.pick(avail)
                rel = osp.relpath(tf, osp.dirname(main) or '.')
                if g.chance(.4):
                    rel = './' + rel
                elif g.chance(.2):
                    rel = '/' + tf
                es.append(ent(k, rel + '::' + g.pick(avail[tf])))
            elif x < 0.7:
                es.append(entn(k, g.const(NUMS)))
            else:
                es.append(ent(k, g.pick(['x + 1', 'lib::one * 2', '2 * y'])))
        keys = [e['key'] for e in es]
        if g.chance(0.6):
            es.append(ent('sum_', ' + '.join(keys)))
        bad = g.pick([None] * 14 + ['nofile', 'nokey', 'math', 'two', 'dict',
                                   'nosep', 'loop'])
        if bad == 'nofile':
            es.append(ent('bb', 'nothere.yaml::x'))
        elif bad == 'nokey':
            tf = g.pick(avail)
            kk = [x for x in avail[tf] if x not in keys
                  and x != 'interp_extrap_power']
            es.append(ent(g.pick(kk) if kk and g.chance(.6) else 'bb',
                          osp.relpath(tf, osp.dirname(main) or '.')
                          + '::' + g.pick(['nothere', avail[tf][0] + '_',
                                           avail[tf][0].upper()])))
        elif bad == 'math':
            tf = g.pick(avail)
            kk = avail[tf][0] + g.pick([' * 2', ' + 1', '*2', '+x', '*3+1'])
            if g.chance(0.5):
                # even if something has this name
                files[tf].append(entn(kk, '3') if g.chance(.5)
                                 else ent(kk, 'x'))
            es.append(ent('bb', osp.relpath(tf, osp.dirname(main) or '.')
                          + '::' + kk))
        elif bad == 'two':
            es.append(ent('bb', 'base.yaml::x::y'))
        elif bad == 'nosep':
            es.append(ent('bb', 'base.yaml'))
        elif bad == 'loop':
            rel = osp.relpath('loop.yaml', osp.dirname(main) or '.')
            files['loop.yaml'] = [ent('l', './loop.yaml::l')]
            es.append(ent('bb', rel + '::l'))
        g.r.shuffle(es)
        via = stem_ext(main)
        ev = [new_cfg(MINI, es, via=via, main=main, files=files)]
        if bad == 'dict':
            ev = [new_cfg(MINI, es)]
        ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                   'inp': g.env(['x', 'y'])})
        out.append(ev)
    return out


def stem_ext(name):
    return name.rsplit('.', 1)[1]


# ---------------------------------------------------------- C20 malformed
def c20(g, n):
    out = []
    for i in range(n):
        k = g.pick(KEYS)
        kind = g.pick(['grp', 'grp', 'cfg', 'cfg', 'var', 'arg', 'arg',
                       'parens', 'nest'])
        good = [{'key': 'ok_' + str(j), 't': 'e', 's': 'x + ' + str(j),
                 'items': []} for j in range(g.pick([0, 1, 2]))]
        if kind in ('grp', 'nest', 'var'):
            bad = g.pick([
                {'key': g.pick(['12', '1.5', '1e3', '0', '-3']), 't': 'e',
                 's': 'x', 'items': []},
                {'key': '7', 't': 'n', 's': '3', 'items': [], 'ik': True},
                {'key': k, 't': 'x', 's': '', 'raw': [1, 2], 'items': []},
                {'key': k, 't': 'x', 's': '', 'raw': ['x'], 'items': []},
                {'key': k, 't': 'x', 's': '', 'raw': None, 'items': []},
                {'key': k, 't': 'g', 's': '', 'items': [
                    {'key': '5', 't': 'e', 's': 'x', 'items': []}]},
                {'key': k, 't': 'g', 's': '', 'items': [
                    {'key': 'z', 't': 'x', 's': '', 'raw': [], 'items': []}]},
                {'key': g.pick(['5', '2015', '1e2']), 't': 'g', 's': '',
                 'items': [{'key': 'b', 't': 'e', 's': 'x', 'items': []}]},
                {'key': '3', 't': 'g', 's': '', 'items': []},
                {'key': k, 't': 'g', 's': '', 'items': []},     # fine
            ])
            if kind == 'var':
                good = [{'key': 'v' + str(j), 't': 'n', 's': '2.5',
                         'items': []} for j in range(2)]
                bad = g.pick([
                    {'key': '12', 't': 'n', 's': '3', 'items': []},
                    {'key': k, 't': 'e', 's': 'x', 'items': []},
                    {'key': k, 't': 'e', 's': '2.5', 'items': []},
                    {'key': k, 't': 'x', 's': '', 'raw': [1], 'items': []},
                    {'key': k, 't': 'x', 's': '', 'raw': None, 'items': []},
                    {'key': k, 't': 'g', 's': '', 'items': []},
                    {'key': k, 't': 'n', 's': '4', 'items': []}])  # fine
            items = good + [bad]
            g.r.shuffle(items)
            if kind == 'nest':
                items = [{'key': 'o1', 't': 'g', 's': '', 'items': items}]
            via = g.pick(['dict', 'yaml', 'json', 'yml'])
            if bad.get('ik'):
                via = 'dict'
            ev = [{'op': 'var_new' if kind == 'var' else 'grp_new', 'h': 'o',
                   'items': items, 'fl': FL0, 'via': via}]
        elif kind == 'cfg':
            bad = g.pick([
                {'key': '12', 't': 's', 's': 'x + 1'},
                {'key': '1.5', 't': 'n', 's': '3'},
                {'key': '3', 't': 'n', 's': '3', 'ik': True},
                {'key': k, 't': 'l', 'raw': [1, 2], 's': ''},
                {'key': k, 't': 'l', 'raw': [], 's': ''},
                {'key': k, 't': 'o', 'raw': {'a': 1}, 's': ''},
                {'key': k, 't': 'o', 'raw': None, 's': ''},
                {'key': k, 't': 's', 's': '[x, 2] * 3'},
                {'key': k, 't': 's', 's': 'x * y[0]'},
                {'key': k, 't': 's', 's': 'x + {2}'},
                {'key': k, 't': 's', 's': '{x} - 1'},
                {'key': k, 't': 's', 's': '2 * (lib::one - {3})'},
                {'key': k, 't': 's', 's': 'x] * 2'},
                {'key': k, 't': 's', 's': '3 - x}'},
                {'key': k, 't': 's', 's': '[1, 2] + lib::one'},
                {'key': k, 't': 's', 's': 'lib::one * 2'},       # fine
                {'key': k, 't': 'n', 's': '5'}])
            es = [ent('ok_' + str(j), 'x + ' + str(j)) for j in range(
                g.pick([0, 1, 2]))] + [bad]
            g.r.shuffle(es)
            via = g.pick(['dict', 'dict', 'yaml', 'json'])
            if bad.get('ik'):
                via = 'dict'
            ev = [new_cfg(MINI, es, via=via, files={},
                          main='c.' + via)]
        elif kind == 'parens':
            s = g.pick(['(x + 1', '((x + 1) * 2', '2 * (x',
                        'x * (y + 1))', '(x + 1) * (2', ')x + 1(',
                        'np.exp(x * 2', 'lib::one * (2 + x'])
            if g.chance(0.5):
                ev = [{'op': 'reject', 'what': 'cfg-parens', 'tree': MINI,
                       'raw': {k: s}}]
            else:
                ev = [{'op': 'reject', 'what': 'grp-key', 'raw': s}]
                ev = [{'op': 'reject', 'what': 'cfg-parens', 'tree': MINI,
                       'raw': {'ok': 'x + 1', k: s, 'z': '2'}}]
        else:
            ev = [g.pick([
                {'op': 'reject', 'what': 'cfg-nofile', 'raw': 'no.yaml'},
                {'op': 'reject', 'what': 'cfg-nofile', 'raw': 'no.json'},
                {'op': 'reject', 'what': 'grp-nofile', 'raw': 'no.yml'},
                {'op': 'reject', 'what': 'cfg-ext', 'raw': 'txt'},
                {'op': 'reject', 'what': 'cfg-ext', 'raw': 'yamll'},
                {'op': 'reject', 'what': 'grp-ext', 'raw': 'csv'},
                {'op': 'reject', 'what': 'grp-ext', 'raw': 'txt'},
                {'op': 'reject', 'what': 'cfg-type', 'raw': [1, 2]},
                {'op': 'reject', 'what': 'cfg-type', 'raw': 5},
                {'op': 'reject', 'what': 'cfg-type', 'raw': None},
                {'op': 'reject', 'what': 'grp-type', 'raw': [1]},
                {'op': 'reject', 'what': 'grp-type', 'raw': 2.5},
                {'op': 'reject', 'what': 'grp-type', 'raw': None},
                {'op': 'reject', 'what': 'var-type', 'raw': [1]},
                {'op': 'reject', 'what': 'dir-nodir', 'raw': 'nodir'},
                {'op': 'reject', 'what': 'cfg-notdict-file', 'via': 'yaml',
                 'raw': '- 1\n- 2\n'},
                {'op': 'reject', 'what': 'cfg-notdict-file', 'via': 'json',
                 'raw': '[1, 2]'},
                {'op': 'reject', 'what': 'cfg-notdict-file', 'via': 'yml',
                 'raw': 'just some text'},
                {'op': 'reject', 'what': 'grp-notdict-file', 'via': 'yaml',
                 'raw': '- a\n'},
                {'op': 'reject', 'what': 'grp-notdict-file', 'via': 'json',
                 'raw': '"text"'},
                {'op': 'reject', 'what': 'grp-notdict-file', 'via': 'yaml',
                 'raw': ''}])]
        out.append(ev)
    return out


# ------------------------------------------- C21 arrays and input coercion
def c21(g, n):
    out = []
    pys = ['', 'int', 'np64', 'np32', 'npint', '0d', 'u8', 'i32']
    ints = ('int', 'npint', 'u8', 'i32', 'i8', 'i16', 'u32', 'u16', 'u64')
    apys = ['', '', 'arrint', 'arr32', 'strided', 'rev', 'ro', 'big', 'u8',
            'i8', 'i16', 'i32', 'u16', 'u32', 'u64', 'list', 'tuple']
    for i in range(n):
        inputs = g.some(VARS, g.pick([2, 3]))

        def value(ln, num=None, npf=True):
            if g.chance(0.45):
                v = g.num()
                py = g.pick(pys)
                if py in ints and (v['v'][1] != 1 or abs(v['v'][0]) > 100
                                   or py[0] == 'u' and v['v'][0] < 0):
                    py = ''
                if py == '0d' and not npf:
                    py = ''
                if py:
                    v['py'] = py
                return v
            v = g.arr(ln)
            py = g.pick(apys if npf == 'seq' else apys[:-2])
            if (py in ints or py == 'arrint') and g.chance(0.7):
                v['v'] = [[(abs(x) if py[0] == 'u' else x) if abs(x) < 100
                           else 99, 1] for x, _ in v['v']]
            if (py in ints or py == 'arrint') and any(
                    d != 1 or abs(x) > 100 or py[0] == 'u' and x < 0
                    for x, d in v['v']):
                py = ''
            if py:
                v['py'] = py
            if py in ('', 'arr32', 'strided', 'ro') and g.chance(.06):
                # no number
                v['v'][g.r.randrange(len(v['v']))] = [0, 0]
            return v
        if g.chance(0.4):
            # a single equation
            npok = g.chance(0.35)
            if npok:
                # lists and tuples are fine as arguments of numpy functions
                s = g.pick(['np.maximum({0}, {1})', 'np.add({0}, {1}) * 2',
                            'np.abs({0})', 'np.subtract({1}, {0})',
                            'np.multiply({0}, 2) - np.add({1}, {0})',
                            'np.sum({0})', 'np.where(np.add({0}, 0) > 2, '
                            'np.add({1}, 0), 0)']).format(
                                *(inputs * 2)[:2])
            else:
                s = g.libtext(lambda: g.pick(inputs), inputs, depth=1,
                              calls=.15, n=g.pick([1, 2, 3]))
            whole = g.chance(0.2)
            if whole:
                # an integer is a number like any other
                s = g.pick(['np.abs({0}) ** -1', '3 * np.maximum({0}, {1}) '
                            '** -2', 'np.square({0}) ** -1 + {1}',
                            '{1} - np.add({0}, 1) ** -1', '{0} ** -2',
                            'np.sum([{0}, {1}]) ** -1']).format(
                                *(inputs * 2)[:2])
            ev = [{'op': 'eq_new', 'h': 'e', 's': s, 'name': '', 'defs':
                   g.env(g.some(inputs, 1), .2), 'num': False}]
            for _ in range(3):
                ln = g.pick([1, 2, 3, 4, 5, 2, 3, 4, 12])
                if whole:
                    ev.append({'op': 'eq_eval', 'a': 'e', 'kw': {
                        v: q(g.pick([1, 2, 3, 4, 5, 10]), 1, g.pick(
                            ['int', 'int', 'npint', '', 'i8', 'u16']))
                        for v in inputs}})
                    continue
                ev.append({'op': 'eq_eval', 'a': 'e', 'kw': {
                    v: value(ln if g.chance(.95) else ln + 1,
                             npf='seq' if npok else True)
                    for v in inputs}})
        else:
            tree, ents, inputs, info = config_case(
                g, n=g.pick([2, 3, 4]), consts=.15, depth=1, calls=.25,
                groups=.05, inputs=inputs)
            ev = [new_cfg(tree, ents)]
            for _ in range(3):
                ln = g.pick([1, 2, 3, 4, 5, 2, 3, 4, 12])
                inp = {v: value(ln) for v in inputs
                       if v not in info['const']}
                how = g.pick(['dict', 'dict', 'df'])
                if how == 'df':
                    for v in inp.values():
                        if v.get('py') == '0d':
                            v.pop('py')
                op = g.pick(['cfg_eval', 'cfg_eval', 'cfg_in'])
                ev.append({'op': op, 'a': 'c', 'inp': inp, 'how': how})
                if op == 'cfg_in':
                    ev.append({'op': 'cfg_look', 'a': 'c'})
                    ev.append({'op': 'cfg_eval', 'a': 'c'})
                if g.chance(.3):
                    # element by element gives the same
                    for j in range(ln if ln < 3 else 2):
                        one = {v: ({'t': 'q', 'v': x['v'][j]}
                                   if x['t'] == 'a' else x)
                               for v, x in inp.items()}
                        if any(x['t'] == 'q' and not x['v'][1]
                               for x in one.values()):
                            continue
                        ev.append({'op': 'cfg_eval', 'a': 'c', 'inp': one,
                                   'how': 'dict'})
        out.append(ev)
    return out


# ------------------------------------------------------------ C23 inspection
def c23(g, n):
    out = []
    for i in range(n):
        inputs = g.some([v for v in VARS], 3)
        kind = g.pick(['grp', 'dir', 'cfg', 'vars'])
        if kind == 'grp':
            ev = [{'op': 'grp_new', 'h': 'o', 'items': g.items(
                g.pick([1, 2, 4]), inputs, nested=.35, depth=2), 'fl': FL0,
                'via': g.pick(['dict', 'yaml'])}]
            if g.chance(.4):
                ev.append({'op': 'grp_def', 'a': 'o',
                           'defs': g.env(inputs, .5)})
        elif kind == 'dir':
            ev = [{'op': 'dir_new', 'h': 'o', 'fl': FL0,
                   'tree': g.tree(inputs, depth=g.pick([0, 1, 2]))}]
        elif kind == 'vars':
            ev = [{'op': 'var_new', 'h': 'o', 'via': g.pick(
                ['dict', 'yaml', 'json']),
                'items': g.vfile(g.some(VARS, g.pick([1, 3])))['items']}]
        else:
            tree, ents, inputs, info = config_case(
                g, n=g.pick([2, 4, 6]), groups=.3, depth=1)
            ev = [new_cfg(tree, ents, h='o')]
            if g.chance(.5):
                ev.append({'op': 'cfg_eval', 'a': 'o', 'how': 'dict',
                           'inp': full_inputs(g, inputs, info)})
            for k in [e['key'] for e in ents][:4] + ['nothere']:
                ev.append({'op': 'cfg_get', 'a': 'o', 'key': k,
                           'how': g.pick(['item', 'attr', 'get']),
                           'probes': probes(g, inputs, 1)})
        ev.append({'op': 'parts', 'a': 'o'})
        ev.append({'op': 'text', 'a': 'o', 'n': g.pick([1, 2, 3, 4, 7, 50])})
        if kind in ('grp', 'dir') and g.chance(.5):
            # and after changes
            t = dict(ev[-1])
            ev.append({'op': 'grp_def', 'a': 'o', 'defs': g.env(inputs, .6)})
            ev.append(t)
            if g.chance(.6):
                more = {'op': 'add', 'h': 'z', 'a': 'o'}
                if kind == 'grp':
                    more.update(bt='g', via='dict', items=_dedupe(
                        g.items(2, inputs, nested=.3)))
                else:
                    more.update(bt='tree', tree=g.tree(inputs, depth=1))
                ev += [more, dict(t, a='z'), t, {'op': 'parts', 'a': 'z'},
                       {'op': 'grp_def', 'a': 'z',
                        'defs': g.env(inputs, .6)}, dict(t, a='z'), t]
        if kind != 'cfg':
            ev.append({'op': 'look', 'a': 'o', 'probes': []})
        out.append(ev)
    return out


# ----------------------------------------------------- C24 path consistency
def c24(g, n):
    """the same object whichever way it is retrieved"""
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)
        tree = g.tree(inputs, depth=2, fam=.4)
        f = fl(**g.pick([{}, {'ip': True, 'iy': True},
                         {'np': True, 'ny': True}]))
        ev = [{'op': 'dir_new', 'h': 'o', 'tree': tree, 'fl': f}]
        paths = [(p, k) for p, k in tree_paths(tree)
                 if not _unsafe(J(p)) and len(p) > 1]
        if not paths:
            continue
        es = []
        for m, (p, k) in enumerate(g.some(paths, 3)):
            pr = probes(g, inputs, 1)
            ev.append({'op': 'get', 'a': 'o', 'key': J(p), 'dflt': False,
                       'probes': pr})
            # file names may carry their extension
            pe = list(p)
            node, ok = tree, True
            for j, part in enumerate(p):
                hit = [e for e in node if stem(e['name']) == part]
                if not hit:
                    break
                if hit[0]['t'] == 'f':
                    pe[j] = g.pick([hit[0]['name'], part + '.yaml',
                                    part + '.json', part + '.yml'])
                    break
                node = hit[0]['items']
            ev.append({'op': 'get', 'a': 'o', 'key': '::'.join(pe),
                       'dflt': False, 'probes': pr})
            # step by step
            cut = g.pick(range(1, len(p)))
            h = 's{}'.format(m)
            ev.append({'op': 'get', 'a': 'o', 'key': J(p[:cut]), 'h': h,
                       'dflt': False, 'probes': []})
            ev.append({'op': 'get', 'a': h, 'key': J(p[cut:]),
                       'dflt': False, 'probes': pr})
            if k in ('e', 'n') and not any('.' in x for x in p):
                es.append(ent('r{}'.format(m), J(p)))
                if cut < len(p) and g.chance(.6):
                    es.append(ent('h{}'.format(m), J(p[:cut])))
                    es.append(ent('s{}'.format(m), 'h{}::{}'.format(
                        m, J(p[cut:]))))
                es.append(ent('t{}'.format(m), J(p) + ' * 1'))
        if es:
            ev.append(new_cfg(tree, es, fl_=f))
            ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
                       'inp': g.env(inputs)})
            for e in es:
                ev.append({'op': 'cfg_get', 'a': 'c', 'key': e['key'],
                           'how': 'item', 'probes': []})
            for e in es:
                m = e['key'][1:]
                to = [x for x in es if x['key'] == 's' + m]
                if e['key'][0] == 'h' and to:
                    ev.append({'op': 'cfg_get', 'a': 'c', 'key': e['key'],
                               'how': 'item', 'h': 'w' + m, 'probes': []})
                    ev.append({'op': 'get', 'a': 'w' + m, 'dflt': False,
                               'key': to[0]['s'].split('::', 1)[1],
                               'probes': probes(g, inputs, 1)})
        out.append(ev)
    return out


# -------------------------------------------------------- C25 file formats
def c25(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 3)
        ev = []
        if g.chance(0.5):
            items = g.items(g.pick([2, 3, 4]), inputs, nested=.3, nums=.3)
            if g.chance(0.3):
                # the same library in every format
                vs = g.vfile(g.some(inputs, 2))['items']
                for it in vs + items:
                    if it['t'] == 'n' and g.chance(.3):
                        it['s'] = g.pick(FINEN)
                names = g.some(FILES[:10], 2)
                pr = probes(g, inputs, 1)
                it2 = g.items(2, inputs)
                for j, x in enumerate(['yaml', 'json', 'yml']):
                    h = 'd{}'.format(j)
                    ev.append({'op': 'dir_new', 'h': h, 'fl': FL0, 'tree': [
                        {'name': names[0] + '.' + x, 't': 'f',
                         'items': items},
                        {'name': 'variables.' + x, 't': 'f', 'items': vs},
                        {'name': 'dd', 't': 'd', 'items': [
                            {'name': names[1] + '.' + x, 't': 'f',
                             'items': it2}]}]})
                    for p, k in group_paths(items)[:3]:
                        if not _unsafe(J((names[0],) + p)):
                            ev.append({'op': 'get', 'a': h, 'dflt': False,
                                       'key': J((names[0],) + p),
                                       'probes': pr})
                out.append(ev)
                continue
            for it in items:
                if it['t'] == 'n' and g.chance(.6):
                    it['s'] = g.pick(['1e5', '2.5e-3', '-4', '1000000', '.5',
                                      '0', '6536.67', '1.0'] + FINEN)
            pr = probes(g, inputs, 1)
            for j, via in enumerate(['dict', 'yaml', 'json', 'yml']):
                h = 'o{}'.format(j)
                ev.append({'op': 'grp_new', 'h': h, 'items': items,
                           'fl': FL0, 'via': via})
                for p, k in group_paths(items)[:4]:
                    if not _unsafe(J(p)):
                        ev.append({'op': 'get', 'a': h, 'key': J(p),
                                   'dflt': False, 'probes': pr})
        else:
            tree, ents, inputs, info = config_case(
                g, n=g.pick([3, 4, 5]), depth=1, groups=.2)
            if g.chance(.3):
                ents.append({'key': g.pick(['interp_extrap_power',
                                            'use_nearest_year']),
                             't': 'f', 's': '', 'b': g.chance(.7)})
            inp = full_inputs(g, inputs, info)
            for j, via in enumerate(['dict', 'yaml', 'json', 'yml']):
                h = 'c{}'.format(j)
                ev.append(new_cfg(tree, ents, h=h, via=via, files={},
                                  main='cfg.' + via))
                ev.append({'op': 'cfg_eval', 'a': h, 'inp': inp,
                           'how': 'dict'})
        out.append(ev)
    return out


# ------------------------------------------------------------- C26 flags
FKEYS = {'ip': 'interp_extrap_power', 'np': 'use_nearest_power',
         'iy': 'interp_extrap_year', 'ny': 'use_nearest_year'}


def c26(g, n):
    out = []
    for i in range(n):
        inputs = g.some(VARS, 2)
        f = fl(**{k: True for k in FL0 if g.chance(.4)})

        def fam(r=g):
            return [{'key': 'cost_{}MW'.format(v), 't': 'e', 'items': [],
                     's': '{} * {}'.format(r.pick(inputs), v)}
                    for v in r.some([2, 4, 9, 13], r.pick([1, 2, 3]))] + [
                   {'key': 'cost_{}'.format(v), 't': 'e', 'items': [],
                    's': '{} + {}'.format(r.pick(inputs), v - 2000)}
                    for v in r.some([2010, 2015, 2021, 2030],
                                    r.pick([1, 2, 3]))]
        tree = [{'name': 'top.yaml', 't': 'f', 'items': fam() + [
            {'key': 'nest', 't': 'g', 's': '', 'items': fam()}]},
            {'name': 'd1', 't': 'd', 'items': [
                {'name': 'mid.json', 't': 'f', 'items': fam()},
                {'name': 'd2', 't': 'd', 'items': [
                    {'name': 'low.yml', 't': 'f', 'items': [
                        {'key': 'in1', 't': 'g', 's': '', 'items': [
                            {'key': 'in2', 't': 'g', 's': '',
                             'items': fam()}]}]}]}]}]
        req = ['top::', 'top::nest::', 'd1::mid::', 'd1::d2::low::in1::in2::']
        keys = [p + g.pick(['cost_6MW', 'cost_12MW', 'cost_20MW', 'cost_2012',
                            'cost_2017', 'cost_2040']) for p in req]
        # the last part only, from the object one level up
        steps = [(k.rsplit('::', 1)) for k in keys]
        if g.chance(0.5):
            ev = [{'op': 'dir_new', 'h': 'o', 'tree': tree, 'fl': f}]
            for j, k in enumerate(keys):
                pr = probes(g, inputs, 1)
                ev.append({'op': 'get', 'a': 'o', 'key': k, 'dflt': True,
                           'probes': pr})
                if g.chance(.5):
                    h = 's{}'.format(j)
                    ev.append({'op': 'get', 'a': 'o', 'key': steps[j][0],
                               'h': h, 'dflt': False, 'probes': []})
                    ev.append({'op': 'get', 'a': h, 'key': steps[j][1],
                               'dflt': True, 'probes': pr})
            if g.chance(0.3):
                ev.append({'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'tree',
                           'tree': [{'name': 'top.yaml', 't': 'f',
                                     'items': fam()}]})
                ev.append({'op': 'get', 'a': 'z', 'dflt': True,
                           'key': 'top::' + g.pick(['cost_3MW', 'cost_2017',
                                                    'cost_30MW']),
                           'probes': probes(g, inputs, 1)})
        elif g.chance(0.3):
            items = fam() + [{'key': 'nest', 't': 'g', 's': '',
                              'items': fam()}]
            ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': f,
                   'via': g.pick(['dict', 'yaml'])}]
            for p in ('', 'nest::'):
                ev.append({'op': 'get', 'a': 'o', 'dflt': True,
                           'key': p + g.pick(['cost_3MW', 'cost_2017']),
                           'probes': probes(g, inputs, 1)})
            ev.append({'op': 'get', 'a': 'o', 'key': 'nest', 'h': 's',
                       'dflt': False, 'probes': []})
            ev.append({'op': 'get', 'a': 's', 'dflt': True,
                       'key': g.pick(['cost_3MW', 'cost_2017', 'cost_5MW']),
                       'probes': probes(g, inputs, 1)})
            ev.append({'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'g',
                       'items': [{'key': 'more', 't': 'g', 's': '',
                                  'items': fam()}], 'via': 'dict'})
            ev.append({'op': 'get', 'a': 'z', 'dflt': True,
                       'key': 'more::' + g.pick(['cost_3MW', 'cost_2017']),
                       'probes': probes(g, inputs, 1)})
        else:
            # flags of the config win over the arguments
            ents = [{'key': FKEYS[k], 't': 'f', 's': '', 'b': g.chance(.5),
                     'one': g.chance(.2)} for k in FL0 if g.chance(.4)]
            ents += [ent('r{}'.format(j), k) for j, k in enumerate(keys)]
            ents.append(ent('grp_', 'top'))
            ents.append(ent('w', 'grp_::' + steps[0][1]))
            g.r.shuffle(ents)
            via = g.pick(['dict', 'dict', 'yaml', 'json'])
            ev = [new_cfg(tree, ents, fl_=f, via=via, files={},
                          main='c.' + via),
                  {'op': 'cfg_eval', 'a': 'c', 'inp': g.env(inputs),
                   'how': 'dict'}]
        out.append(ev)
    return out


# ---------------------------------------------------------------- C27 copies
def c27(g, n):
    out = []
    for i in range(n):
        inputs = g.some([v for v in VARS if v not in ('keys', 'items', 'get',
                                                      'update', 'values')], 3)
        kind = g.pick(['eq', 'grp', 'dir', 'cfg', 'cfg'])
        how = g.pick(['deep', 'pickle'])
        cp = {'op': 'copy', 'h': 'y', 'a': 'x', 'how': how}
        if kind == 'eq':
            ev = [{'op': 'eq_new', 'h': 'x', 'name': '', 's': g.libtext(
                lambda: g.pick(inputs), inputs), 'num': False,
                'defs': g.env(inputs, .5)}, cp]
            for h in g.some(['x', 'y'], 2):
                ev.append({'op': 'look', 'a': h,
                           'probes': probes(g, inputs, 1)})
                ev.append({'op': 'eq_def', 'a': h,
                           'defs': g.env(inputs, .6)})
            for h in 'xy':
                ev.append({'op': 'look', 'a': h,
                           'probes': probes(g, inputs, 1)})
        elif kind in ('grp', 'dir'):
            if kind == 'grp':
                items = _dedupe(g.items(3, inputs, nested=.3)
                                + g.family(inputs))
                f = fl(ip=True) if g.chance(.5) else fl(ny=True, np=True)
                ev = [{'op': 'grp_new', 'h': 'x', 'items': items, 'fl': f,
                       'via': 'dict'}, cp]
                paths = [J(p) for p, k in group_paths(items)]
            else:
                tree = g.tree(inputs, depth=1, fam=.5)
                ev = [{'op': 'dir_new', 'h': 'x', 'tree': tree,
                       'fl': fl(ip=True, iy=True)}, cp]
                paths = [J(p) for p, k in tree_paths(tree)]
            if kind == 'grp':
                ev.append({'op': 'grp_def', 'a': g.pick('xy'),
                           'defs': g.env(inputs, .6)})
            for h in 'xy':
                ev.append({'op': 'look', 'a': h, 'probes': []})
                for p in g.some([p for p in paths if not _unsafe(p)], 4):
                    ev.append({'op': 'get', 'a': h, 'key': p, 'dflt': False,
                               'probes': probes(g, inputs, 1)})
                    if p[-2:] == 'MW' and '_' in p:
                        ev.append({'op': 'get', 'a': h, 'dflt': True,
                                   'key': p.rsplit('_', 1)[0] + '_7MW',
                                   'probes': probes(g, inputs, 1)})
        else:
            tree, ents, inputs, info = config_case(
                g, n=4, depth=1, inputs=inputs, groups=.2)
            keys = [e['key'] for e in ents]
            ev = [new_cfg(tree, ents, h='x')]
            ev += lifecycle_ops(g, inputs, info, keys, h='x', k=3, arr=.2)
            if g.chance(.5):
                # a copy of something evaluated, looked at at once
                ev.append({'op': 'cfg_eval', 'a': 'x', 'how': 'dict',
                           'inp': full_inputs(g, inputs, info,
                                              arr=g.chance(.6))})
                ev += [cp, {'op': 'cfg_look', 'a': 'y'}]
            else:
                ev.append(cp)
            for h in g.some('xy', 2):
                ev += lifecycle_ops(g, inputs, info, keys, h=h, k=4, arr=.2)
            for h in 'xy':
                ev.append({'op': 'cfg_look', 'a': h})
            if g.chance(.4):
                a1, b1 = g.pick(['xy', 'yx'])
                ev.append({'op': 'cfg_reset', 'a': a1, 'key': ''})
                ev.append({'op': 'cfg_in', 'a': a1, 'inp': {},
                           'clear': True})
                for k in g.some(keys, 2):
                    ev.append({'op': 'sub_def', 'a': a1, 'key': k,
                               'defs': g.env(inputs)})
                ev.append({'op': 'cfg_in', 'a': b1, 'inp': {},
                           'clear': True})
                ev.append({'op': 'cfg_look', 'a': b1})
                ev.append({'op': 'cfg_eval', 'a': b1, 'how': 'dict',
                           'inp': full_inputs(g, inputs, info)})
        out.append(ev)
    return out


# --------------------------------------------------------- more history
def prefill(g, ev):
    """some of the inputs are first given, with other values, to the
    constructor"""
    out = []
    for i, e in enumerate(ev):
        if e['op'] == 'cfg_new' and not e.get('inp'):
            names = sorted({v for f in ev[i:] if f['op'] == 'cfg_eval' and
                            f['a'] == e['h'] for v in f.get('inp') or {}})
            if names:
                e = dict(e, inp=g.env(names, g.pick([.4, 1])),
                         how=g.pick(['dict', 'dict', 'df']))
        out.append(e)
    return out


def enrich(g, ev):
    """the same calls again, later, on changed objects and on copies"""
    if not ev or ev[0].get('repo'):
        return ev
    if g.chance(0.2):
        ev = prefill(g, ev)
    if not g.chance(0.3):
        return ev
    live = any(e['op'] in ('get', 'cfg_get') and e.get('h') for e in ev)
    odd = any(v.get('py') in ('0d', 'list', 'tuple')
              for e in ev for f in ('inp', 'kw', 'defs')
              for v in (e.get(f) or {}).values())
    gets = [e for e in ev if e['op'] == 'get' and not e.get('h')]
    looks = [e for e in ev if e['op'] == 'look']
    evals = [e for e in ev if e['op'] == 'cfg_eval']
    news = {e['h']: e for e in ev if e['op'] == 'cfg_new'}
    more = []

    def again(xs, k):
        return [dict(x) for x in g.some(xs, k)]
    if gets and not live and g.chance(0.5):
        h = g.pick(gets)['a']
        mine = [e for e in gets if e['a'] == h]
        names = sorted({v for e in mine for p in e['probes'] for v in p})
        made = [e['op'] for e in ev if e.get('h') == h]
        if names and made and made[-1] in ('grp_new', 'dir_new', 'add'):
            if g.chance(0.3):
                more.append({'op': 'text', 'a': h, 'n': 3})
            more.append({'op': 'grp_def', 'a': h, 'defs': g.env(names, .6)})
            more += again(mine, 4)
            if g.chance(0.4):
                more.append({'op': 'text', 'a': h, 'n': 3})
    if gets and g.chance(0.3):
        h = g.pick(gets)['a']
        more.append({'op': 'copy', 'a': h, 'h': 'cp',
                     'how': g.pick(['deep', 'pickle'])})
        more += [dict(e, a='cp') for e in again(
            [e for e in gets if e['a'] == h], 3)]
    if not odd and g.chance(0.3):
        more.append({'op': 'poke'})
    more += again(gets, 3) + again(looks, 2)
    if news and g.chance(0.7):
        h = g.pick(sorted(news))
        ks = [e['key'] for e in news[h]['ents'] if e['t'] == 's']
        if ks and g.chance(0.4):
            more.append({'op': 'copy', 'a': h, 'h': 'cc', 'how': 'deep'})
            more.append({'op': 'cfg_reset', 'a': 'cc', 'key': ''})
            names = sorted({v for e in evals for v in e.get('inp') or {}})
            for k in g.some(ks, 2):
                more.append({'op': 'sub_def', 'a': 'cc', 'key': k,
                             'defs': g.env(names)})
        more += again([e for e in evals if e['a'] == h], 2)
        more.append({'op': 'cfg_look', 'a': h})
        if g.chance(0.4):
            more.append({'op': 'text', 'a': h, 'n': g.pick([2, 6])})
    return ev + more


FAMILIES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05,
            'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
            'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15,
            'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20,
            'C21': c21, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26,
            'C22': shipped.family, 'C27': c27}


# a property also depends on what these properties are about: a quarter of
# the number of scenarios comes from each of these families
MIX = {'C01': ['C04', 'C09'], 'C02': ['C13', 'C06'], 'C03': ['C12', 'C16'],
       'C04': ['C01', 'C09', 'C24'], 'C05': ['C04'], 'C06': ['C16', 'C02'],
       'C07': ['C21', 'C08'], 'C08': ['C07', 'C09'], 'C09': ['C24', 'C10'],
       'C10': ['C11', 'C24'], 'C11': ['C12', 'C26'], 'C12': ['C27', 'C11'],
       'C13': ['C24', 'C18', 'C23'], 'C14': ['C26'], 'C15': ['C26'],
       'C16': ['C03'], 'C17': ['C20'], 'C18': ['C10', 'C24', 'C20'],
       'C19': ['C25', 'C04'], 'C20': ['C19', 'C18', 'C17'],
       'C21': ['C07', 'C03'], 'C23': ['C07', 'C11'],
       'C24': ['C10', 'C09', 'C13'], 'C25': ['C19', 'C18'],
       'C26': ['C14', 'C15', 'C11'], 'C27': ['C12', 'C07']}


def scenarios(pid, seed, n, mix=True):
    out = []
    for p in [pid] + (MIX.get(pid, []) if mix else []):
        g = Gen('{}-{}'.format(p, seed) if p == pid
                else '{}-{}-{}'.format(pid, p, seed))
        h = Gen('{}-{}-{}-more'.format(pid, p, seed))
        for ev in FAMILIES[p](g, n if p == pid else n // 4):
            ev = enrich(h, ev)
            if ev:
                out.append({'id': len(out) + 1, 'ev': ev})
                if p != 'C22' and h.chance(.3 if p in ('C12', 'C27') else .12):
                    lengthen(h, out[-1])
    return out


def lengthen(h, sc):
    """the same with long arrays, if all is done element by element"""
    text = json.dumps(sc['ev'])
    if '"t": "a"' in text and not re.search(
            r'np\.(sum|array|cumsum|mean|max|min|sort)\(', text):
        sc['rep'] = h.pick([10, 70, 300, 700, 1200])
