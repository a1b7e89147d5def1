"""Cases enumerated by the design models (TLC) as scenarios for the code.

A model prints one line per case.  Sessions come out of TLC as finished lists
of calls; the other cases are turned into calls here."""
import json
import random
import re

FL0 = {'ip': False, 'np': False, 'iy': False, 'ny': False}
MINI = [{'name': 'lib.yaml', 't': 'f', 'items': [
    {'key': 'one', 't': 'e', 's': 'x + 1', 'items': []}]}]
RAW = {'bad.yaml': 'a: [1, 2\nb: }', '.bad.yaml': 'a: [1', 'bad.json': '{"a":',
       'bad.txt': 'a: [1, 2'}
MAPS = {'inp', 'kw', 'defs', 'files'}


def cases(out):
    """the lines that a model printed, in an order that does not depend on
    the scheduling of TLC's workers"""
    lines = []
    for line in out.splitlines():
        if line.startswith('"@C '):
            lines.append(json.loads(line)[3:])
    return [json.loads(x) for x in sorted(lines)]


def fix(x):
    """TLC writes an empty function as []"""
    if isinstance(x, dict):
        if x.get('t') == 'x' and 'name' in x:
            x['raw'] = RAW[x['name']]
        for k, v in x.items():
            x[k] = {} if k in MAPS and v == [] else \
                [{} if p == [] else p for p in v] if k == 'probes' else fix(v)
        return x
    if isinstance(x, list):
        return [fix(y) for y in x]
    return x


def q(n, d=1):
    return {'t': 'q', 'v': [n, d]}


def it(key, s):
    return {'key': key, 't': 'e', 's': s, 'items': []}


def ent(key, s):
    return {'key': key, 't': 's', 's': s}


def new_cfg(tree, ents, **kw):
    return dict({'op': 'cfg_new', 'h': 'c', 'tree': tree, 'ents': ents,
                 'fl': FL0, 'via': 'dict'}, **kw)


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def leaves(s):
    return sorted(set(re.findall(r'v\d+', s)), key=lambda v: int(v[1:]))


def sub(s, how):
    return re.sub(r'v\d+', lambda m: how[m.group(0)], s)


# ------------------------------------------------------------------ adaptors
def sessions(cs, r):
    """finished sessions; for a config also what it shows in between"""
    out = []
    for i, c in enumerate(cs):
        ev = fix(c['ev'])
        cfg = [e['h'] for e in ev if e['op'] == 'cfg_new']
        if cfg:
            if i % 2:
                ev = [y for e in ev for y in (
                    (e,) if e['op'] == 'cfg_new' else
                    (e, {'op': 'cfg_look', 'a': cfg[0]}))]
            else:
                ev.append({'op': 'cfg_look', 'a': cfg[0]})
        else:
            for h in dict.fromkeys(e['h'] for e in ev if 'h' in e):
                ev.append({'op': 'look', 'a': h, 'probes': []})
        out.append(ev)
    return out


def shows(cs, r):
    """the same sessions, seen through [], get and attributes (C23)"""
    out = []
    for i, c in enumerate(cs):
        ev = fix(c['ev'])
        keys = [e['key'] for e in ev[0]['ents']] + ['nothere']
        for j in range(3):
            ev.append({'op': 'cfg_get', 'a': 'c', 'probes': [],
                       'key': keys[(i + j) % len(keys)],
                       'how': ('item', 'attr', 'get')[(i // 2 + j) % 3]})
        ev.append({'op': 'parts', 'a': 'c'})
        out.append(ev)
    return out


def plain(cs, r):
    return [fix(c['ev']) for c in cs]


VALS = [[3, 5, 2, 7, 4], [-2, 4, 3, -1, 6], [1, -3, 2, 2, 5]]


def envs(names, k=2, off=0):
    return [{v: q(VALS[(i + off) % 3][j % 5]) for j, v in enumerate(names)}
            for i in range(k)]


SPACE = [lambda s: s, lambda s: re.sub(r'([-+*/^])', r' \1 ', s),
         lambda s: re.sub(r'([-+*/^])', r' \1', s)]


def respace(s, r):
    s = r.choice(SPACE)(s)
    s = re.sub(r'(^|[-+*/^(]) *- +', lambda m: m.group(0).rstrip(), s)
    return s.replace('^', r.choice(['^', '**']))


def expr_config(cs, r):
    """a dozen expressions per config; their leaves are inputs, numbers,
    library equations and other entries"""
    out = []
    tree = [{'name': 'lib.yaml', 't': 'f', 'items': [
        it('one', 'x - y'), it('two', 'y + 2'), it('three', 'x / 2')]}]
    for ch in chunks(cs, 12):
        how = {'v{}'.format(i): r.choice(
            ['x', 'y', 'z', '2', '3', 'lib::one', 'lib::two', 'lib::three',
             'k_1', 'k_2', 'k_3']) for i in range(1, 7)}
        es = [ent('k_1', 'x + y'), ent('k_2', 'lib::one'),
              {'key': 'k_3', 't': 'n', 's': '4'}]
        for i, c in enumerate(ch):
            es.append(ent('e{}'.format(i),
                          respace(sub(c['min' if i % 3 else 'full'], how), r)))
        r.shuffle(es)
        out.append([new_cfg(tree, es)] + [
            {'op': 'cfg_eval', 'a': 'c', 'how': 'dict', 'inp': e}
            for e in envs(['x', 'y', 'z'], 2, r.randrange(3))])
    return out


def expr_key(cs, r):
    """as retrieval keys of a group, of a directory and below a path"""
    out = []
    for ch in chunks(cs, 10):
        items = [it('a', 'x - y'), it('a_1', 'y + 2'), it('b', 'x / 2'),
                 {'key': 'g', 't': 'g', 's': '', 'items': [
                     it('c', 'x + z')]}]
        how = {'v{}'.format(i): r.choice(['a', 'a_1', 'b', 'g::c', '2'])
               for i in range(1, 7)}
        if r.random() < .5:
            ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
                   'via': 'dict'}]
        else:
            ev = [{'op': 'dir_new', 'h': 'o', 'fl': FL0, 'tree': [
                {'name': 'f.yaml', 't': 'f', 'items': items}]}]
            how = {k: v if v == '2' else 'f::' + v for k, v in how.items()}
        # a number alone on either side of everything is not math
        for i, c in enumerate(ch):
            ev.append({'op': 'get', 'a': 'o', 'dflt': False,
                       'key': respace(sub(c['min' if i % 3 else 'full'], how),
                                      r),
                       'probes': envs(['x', 'y', 'z'], 2, r.randrange(3))})
        out.append(ev)
    return out


def expr_objects(cs, r):
    """the operators of Equation objects, in the order of the tree"""
    out = []
    src = ['x - y', 'y + 2', 'x / 2', 'x * y + 1', '-x', '3']
    for ch in chunks(cs, 4):
        ev, n = [], [0]
        for j in range(4):
            ev.append({'op': 'eq_new', 'h': 'v{}'.format(j + 1), 'name': '',
                       's': r.choice(src), 'num': False, 'defs': {}})

        def build(t):
            if t['n'] == 'var':
                return t['s']
            if t['n'] == 'neg':
                return None
            a, b = build(t['l']), build(t['r'])
            if a is None or b is None:
                return None
            n[0] += 1
            h = 'r{}'.format(n[0])
            ev.append({'op': 'eq_op', 'h': h, 'a': a, 'b': b, 'bt': 'h',
                       'o': '**' if t['op'] == '^' else t['op']})
            return h
        for c in ch:
            h = build(c['t'])
            if h:
                ev.append({'op': 'look', 'a': h,
                           'probes': envs(['x', 'y'], 2, r.randrange(3))})
        out.append(ev)
    return out


def expr_text(cs, r):
    """as text of one Equation"""
    out = []
    for ch in chunks(cs, 12):
        ev = []
        for i, c in enumerate(ch):
            how = {'v{}'.format(j): r.choice(
                ['x', 'y', 'x_1', 'xx', '2', '1.5', '2e1']) for j in
                range(1, 7)}
            s = respace(sub(c['min' if i % 3 else 'full'], how), r)
            s = s.replace('^', '**')
            h = 'e{}'.format(i)
            ev.append({'op': 'eq_new', 'h': h, 's': s, 'num': False,
                       'name': '', 'defs': {}})
            ev.append({'op': 'look', 'a': h, 'probes':
                       envs(['x', 'y', 'x_1', 'xx'], 1, r.randrange(3))})
        out.append(ev)
    return out


def refs_config(cs, r):
    out = []
    for c in cs:
        es = [ent(k, s) for k, s in zip(c['keys'], c['texts'])]
        orders = [es, es[::-1]]
        r.shuffle(es)
        ev = []
        for i, o in enumerate([orders[1], es]):
            h = 'c{}'.format(i)
            ev.append(new_cfg(MINI, list(o), h=h))
            ev.append({'op': 'cfg_eval', 'a': h, 'how': 'dict',
                       'inp': {'x': q(3)}})
        out.append(ev)
    return out


def refs_lib(cs, r):
    """the references go through library equations: found at evaluation"""
    out = []
    for c in cs:
        tree = [{'name': 'lib.yaml', 't': 'f', 'items': [
            it('of_' + k + '_', s) for k, s in zip(c['keys'], c['texts'])]}]
        es = [ent(k, 'lib::of_' + k + '_') for k in c['keys']]
        r.shuffle(es)
        ev = [new_cfg(tree, es)]
        inp = {'x': q(3)}
        inp.update({k: q(9 + i) for i, k in enumerate(c['keys'])
                    if [i + 1, i + 1] in c['edges']})
        ev.append({'op': 'cfg_eval', 'a': 'c', 'how': 'dict', 'inp': inp})
        ev.append({'op': 'cfg_look', 'a': 'c'})
        out.append(ev)
    return out


def refs_group(cs, r):
    out = []
    for c in cs:
        items = [it(k, s) for k, s in zip(c['keys'], c['texts'])]
        r.shuffle(items)
        ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': FL0,
               'via': r.choice(['dict', 'yaml', 'json'])}]
        for k in c['keys']:
            ev.append({'op': 'get', 'a': 'o', 'key': k, 'dflt': False,
                       'probes': [{'x': q(3)}]})
        out.append(ev)
    return out


def scope_dir(cs, r):
    out = []
    for c in cs:
        tree = fix(c['tree'])
        ev = [{'op': 'dir_new', 'h': 'd', 'tree': tree, 'fl': FL0}]
        for p in ('f', 'a::f', 'a::b::f', 'c::f'):
            for k in ('eq', 'g::in'):
                ev.append({'op': 'get', 'a': 'd', 'key': p + '::' + k,
                           'dflt': False, 'probes':
                           [{'z': q(2)}, {'z': q(2), 'x': q(5), 'y': q(3)}]})
        out.append(ev)
    return out


def scope_config(cs, r):
    """the same libraries below a config with and without a constant"""
    out = []
    for i, c in enumerate(cs):
        tree = fix(c['tree'])
        es = [ent('k{}'.format(j), p + '::eq') for j, p in enumerate(
            ('f', 'a::f', 'a::b::f', 'c::f'))]
        es += [ent('g0', 'a'), ent('g1', 'g0::b::f::g::in'),
               ent('g2', 'c::f::eq * 2')]
        if i % 2:
            es.append({'key': 'x', 't': 'n', 's': '7'})
        r.shuffle(es)
        inp = {'z': q(2)}
        if i % 3 == 0:
            inp['x'] = q(100)
        if i % 5 < 2:
            inp['y'] = q(50)
        out.append([new_cfg(tree, es), {
            'op': 'cfg_eval', 'a': 'c', 'how': 'dict', 'inp': inp}, {
            'op': 'cfg_eval', 'a': 'c', 'how': 'dict',
            'inp': {'x': q(6), 'y': q(8)}}])
    return out


def lookup_group(cs, r):
    out = []
    for i, c in enumerate(cs):
        items = list(c['items'])
        r.shuffle(items)
        if i % 2:
            ev = [{'op': 'grp_new', 'h': 'o', 'items': items, 'fl': c['fl'],
                   'via': 'dict'}]
            pre = ''
        else:
            ev = [{'op': 'dir_new', 'h': 'o', 'fl': c['fl'], 'tree': [
                {'name': 'd', 't': 'd', 'items': [
                    {'name': 'f.yaml', 't': 'f', 'items': items}]}]}]
            pre = 'd::f::'
        for k in sorted(c['asks']):
            ev.append({'op': 'get', 'a': 'o', 'key': pre + k, 'dflt': False,
                       'probes': [{'x': q(2)}, {'x': q(-3)}]})
        out.append(ev)
    return out


def lookup_nested(cs, r):
    """in a group inside of a file, in steps and in one path"""
    out = []
    for i, c in enumerate(cs):
        tree = [{'name': 'd', 't': 'd', 'items': [
            {'name': 'f.yaml', 't': 'f', 'items': [
                it('w', 'x'), {'key': 'g', 't': 'g', 's': '',
                               'items': list(c['items'])}]}]}]
        ev = [{'op': 'dir_new', 'h': 'o', 'fl': c['fl'], 'tree': tree},
              {'op': 'get', 'a': 'o', 'key': 'd', 'h': 's1', 'dflt': False,
               'probes': []},
              {'op': 'get', 'a': 's1', 'key': 'f::g' if i % 2 else 'f',
               'h': 's2', 'dflt': False, 'probes': []}]
        for j, k in enumerate(sorted(c['asks'])):
            a, key = [('o', 'd::f::g::' + k), ('s1', 'f::g::' + k),
                      ('s2', k if i % 2 else 'g::' + k)][j % 3]
            ev.append({'op': 'get', 'a': a, 'key': key, 'dflt': j % 2 == 0,
                       'probes': [{'x': q(2)}]})
        out.append(ev)
    return out


def forbid(cs, r):
    import props
    out = []
    for c in cs:
        for route in ('eq', 'op', 'repl', 'grp', 'nest', 'file', 'dir',
                      'cfg', 'cfgfile', 'add', 'grpsub', 'cfglib'):
            if route.startswith('cfg') and route != 'cfglib' \
                    and '.' in c['frag']:
                # dots outside of numpy calls are cut up by config math
                if not re.match(r' *[\w.]+ *$', c['s']):
                    continue
            ev = props.forbidden_route(r, c['s'], route,
                                       {'x': q(3), 'y': q(2),
                                        c['frag']: q(5)})
            out.append(ev)
    r.shuffle(out)
    return out


RAWS = {'list': [1, 2], 'empty': [], 'null': None, 'texts': ['x']}


def raws(x):
    if isinstance(x, dict):
        if x.get('t') == 'x' and x.get('s') in RAWS:
            x['raw'], x['s'] = RAWS[x['s']], ''
        for v in x.values():
            raws(v)
    elif isinstance(x, list):
        for v in x:
            raws(v)
    return x


def bad(cs, r):
    """as group, as part of a library, of what is merged, and of a config"""
    out = []
    for i, c in enumerate(cs):
        c = raws(c)
        get = [{'op': 'look', 'a': 'o', 'probes': []}]
        for via in r.sample(['dict', 'yaml', 'json', 'yml'], 2):
            out.append([{'op': 'grp_new', 'h': 'o', 'items': c['items'],
                         'fl': FL0, 'via': via}] + get)
        tree = c[('tree', 'low')[i % 2]]
        out.append([{'op': 'dir_new', 'h': 'o', 'tree': tree, 'fl': FL0},
                    {'op': 'parts', 'a': 'o'}])
        if i % 3 == 0:
            out.append([{'op': 'grp_new', 'h': 'o', 'items': [it('m', 'x')],
                         'fl': FL0, 'via': 'dict'},
                        {'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'g',
                         'items': c['items'], 'via': r.choice(
                             ['dict', 'yaml', 'json'])}])
        elif i % 3 == 1:
            out.append([{'op': 'dir_new', 'h': 'o', 'tree': MINI,
                         'fl': FL0},
                        {'op': 'add', 'h': 'z', 'a': 'o', 'bt': 'tree',
                         'tree': tree}])
        else:
            out.append([new_cfg(tree, [ent('r', 'x + 1'), ent('s', 'r * 2')]),
                        {'op': 'cfg_eval', 'a': 'c', 'inp': {'x': q(3)},
                         'how': 'dict'}])
    r.shuffle(out)
    return out


def shapes(cs, r):
    """one object per text, evaluated with all shapes one after the other"""
    out = []
    by = {}
    for c in cs:
        by.setdefault(c['s'], []).append(c)
    for s, mine in sorted(by.items()):
        r.shuffle(mine)
        tree = [{'name': 'lib.yaml', 't': 'f', 'items': [
            it('f', s), it('g', 'f * 2 - y')]}]
        for part in chunks(mine, 12):
            env = [c['env'] for c in part]
            out.append([{'op': 'eq_new', 'h': 'e', 's': s, 'name': '',
                         'defs': {}, 'num': False}] + [
                {'op': 'eq_eval', 'a': 'e', 'kw': e} for e in env])
            out.append([{'op': 'dir_new', 'h': 'o', 'tree': tree,
                         'fl': FL0}] + [
                {'op': 'get', 'a': 'o', 'key': k, 'dflt': False,
                 'probes': [e]} for e in env[:6]
                for k in ('lib::f', 'lib::g * 3')])
            ents = [ent('o1', 'lib::f'), ent('o2', 'o1 + lib::g')]
            if '[' not in s:
                ents.append(ent('o3', s))
                ents.append(ent('o4', '({}) * o3'.format(s)))
            r.shuffle(ents)
            ev = [new_cfg(tree, ents)]
            for c in part:
                same = c['sx'] == c['sy'] > 0
                ev.append({'op': 'cfg_eval', 'a': 'c', 'inp': c['env'],
                           'how': 'df' if same and r.random() < .5
                           else 'dict'})
                if r.random() < .3:
                    ev.append({'op': 'cfg_look', 'a': 'c'})
            out.append(ev)
    return out


ADAPT = {f.__name__: f for f in (
    sessions, shows, plain, expr_config, expr_key, expr_objects, expr_text,
    refs_config, refs_lib, refs_group, scope_dir, scope_config, lookup_group,
    lookup_nested, forbid, shapes,
    bad)}


def scenarios(name, out, seed, limit=None):
    cs = cases(out)
    r = random.Random('{}/{}'.format(name, seed))
    total = len(cs)
    if limit and len(cs) > limit:
        cs = [cs[i] for i in sorted(r.sample(range(len(cs)), limit))]
    return [{'id': 0, 'ev': e} for e in ADAPT[name](cs, r)], total
