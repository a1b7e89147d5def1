"""Scenario generators.  A scenario is a list of calls of the public API (see
driver.py for the calls); what must come out of them is decided by the TLA+
specification.  Every random choice comes from the seed."""
import random

FL0 = {'ip': False, 'np': False, 'iy': False, 'ny': False}

# names that are parts of each other, of numbers, of numpy names, of dict
# methods ... everything that text based handling can get wrong
VARS = ['x', 'y', 'z', 'xx', 'x_y', 'depth', 'depth_max', 'dist', 'e', 'E',
        'e1', 'e5', 'co2e', 'n', 'num', 'keys', 'items', 'get', 'update',
        'total_MW', 'rate', 'fcr', 'cap', 'np_x', 'pd_cost', 'exp', 'abs_',
        'MW', 'b1e2', 'pop', 'values', 'copy_', 'a', 'b', 'ab', 'workspace',
        'X', 'Depth', 'DIST', 'x1', 'x10', 'y_', '_y', 'x_1e5', 'a2e3',
        'k_2e3_b',
        'distance_from_the_substation_to_the_point_of_interconnection_km',
        'distance_from_the_substation_to_the_point_of_interconnection_mi']
KEYS = ['capex', 'cap_cost', 'cost', 'costs', 'total', 'total_cost', 'turbine',
        'turb', 'opex', 'ex', 'maximum', 'co2', 'co', 'install', 'inst',
        'exp_', 'p', 'pp', 'lcoe', 'coe', 'gross', 'os_cost', 'eq1', 'eq10',
        'eq_1', 'array', 'grid', 'system', 'key', 'item', 'where_', 'sqrt',
        'Cost', 'TOTAL', 'Capex', 'eq100', 'LCOE',
        'total_installed_capital_expenditures_including_contingencies']
FILES = ['turbine', 'array', 'export', 'grid', 'bos', 'f1', 'f10', '2015',
         'osw_2019', 'jacket', 'spar', 'monopile', '_parts', 'Jacket',
         'variable', 'variables_2', 'yaml', 'json_eqns', 'variables.old',
         'my.variables', 'v1.2']
DIRS = ['osw', 'osw_2015', '2019', 'd1', 'd10', 'marine', 'sub', 'hydrogen',
        '_old', 'OSW', 'a_b', 'yml']
NUMS = ['2', '3', '4', '5', '0.5', '1.5', '10', '1', '7', '0.25', '100']
NUMS0 = NUMS + ['0']
# less usual constants: signs, sizes, digits
CNUMS = ['-3000', '-1', '12345', '0.001', '-0.75', '1500.5', '-40', '250',
         '0.125', '-0.5', '2015', '64', '365', '8760', '-10', '99.5']
FINEN = ['0.0000004126', '0.12345678', '1.0000001', '0.071622', '123456.789',
        '12.12121212', '0.00000025', '1.043012405771711']
BIG = ['1250000', '0.00042', '3.7e5', '2.5e-3', '123456.789', '1e-05',
       '8.5E+6', '30984338', '0.071622', '40000', '1.043012405771711',
       '.0115', '5716767.1', '0.0000004126', '2e6', '12.12121212']
# numbers that can be part of a retrieval key
KNUMS = [x for x in BIG if not any(c in x for c in '+-')] + [
    '1500000.25', '98765432.1', '0.000001', '1048576.5', '2500000']
XNUMS = NUMS + ['.5', '2.', '1e1', '5e-1', '2E0', '1.5e1', '25e-2', '1e+1']


def q(n, d=1, py=''):
    v = {'t': 'q', 'v': [n, d]}
    if py:
        v['py'] = py
    return v


def a(xs, py=''):
    v = {'t': 'a', 'v': [list(x) if isinstance(x, (list, tuple)) else [x, 1]
                         for x in xs]}
    if py:
        v['py'] = py
    return v


class Gen:
    """random choices"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(list(xs))

    def some(self, xs, k):
        xs = list(xs)
        return self.r.sample(xs, min(k, len(xs)))

    def num(self):
        """a small dyadic number as value"""
        if self.chance(0.04):
            return q(*self.pick([(1234567, 1), (7654321, 1000), (1, 1000000),
                                 (250001, 2), (2469, 20000), (100003, 8),
                                 (-98765, 64), (-3000, 1), (2015, 1),
                                 (8760, 1), (-1500, 1), (365, 1), (1, 64)]))
        n, d = self.pick([(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1),
                          (-1, 1), (-2, 1), (1, 2), (3, 2), (5, 2), (7, 1),
                          (0, 1), (9, 1), (2, 1), (3, 1), (-3, 2)])
        return q(n, d)

    def const(self, xs):
        if self.chance(0.04):
            return self.pick(FINEN)
        return self.pick(CNUMS if self.chance(0.12) else xs)

    def env(self, names, p=1.0):
        return {n: self.num() for n in names if self.chance(p)}

    def defs(self, names, p=1.0, arr=0.0):
        """default values, sometimes arrays"""
        n = self.pick([2, 3])
        return {k: self.arr(n) if self.chance(arr) else self.num()
                for k in names if self.chance(p)}

    def arr(self, n):
        return {'t': 'a', 'v': [self.num()['v'] for _ in range(n)]}

    # ----------------------------------------------------------- text
    def join(self, toks):
        """tokens to text with random blanks"""
        mode = self.pick(['tight', 'spaced', 'rand'] * 4 + ['white'])
        if mode == 'tight':
            return ''.join(toks)
        if mode == 'spaced':
            return ' '.join(toks)
        out = ''
        if mode == 'white':
            depth = 0
            for t in toks:
                depth += t.count('(') - t.count(')')
                out += t + self.pick(['', ' ', '\t', ' \t'] + (
                    ['\n', ' \n  '] if depth else []))
            return out
        for t in toks:
            out += t + self.pick(['', ' ', '', '  '])
        return self.pick(['', '', ' ']) + out

    def call(self, leaf, pure, lib, depth=0, arr=False):
        """tokens of a numpy call; pure: names that are plain inputs"""
        def arg():
            if self.chance(0.35) and depth < 2:
                t = [leaf(), self.pick(['+', '-', '*']), leaf()]
                return t
            if depth < 2 and self.chance(0.15):
                return self.call(leaf, pure, lib, depth + 1, arr)
            if self.chance(0.2):
                return ['-', leaf()]
            return [leaf()]
        if lib and self.chance(0.1):
            # a list of names and numbers
            return ['np.' + self.pick(['sum', 'max', 'min']) + '(', '['] + sum(
                [[','] * (j > 0) + arg() for j in range(self.pick([1, 2, 3]))],
                []) + [']', ')']
        f = self.pick(['maximum', 'minimum', 'abs', 'square', 'where', 'add',
                       'subtract', 'multiply', 'negative', 'fmax', 'exp',
                       'sqrt'] + (['sum', 'max', 'min'] if arr else []))
        sp = self.pick(['', '', '', ' '])
        pre = ['np.' + f + sp + '(']
        if f in ('maximum', 'minimum', 'add', 'subtract', 'multiply', 'fmax'):
            return pre + arg() + [','] + arg() + [')']
        if f == 'where':
            if not pure:
                return ['np.abs('] + arg() + [')']
            return (pre + [self.pick(pure),
                           self.pick(['>', '<', '>=', '<=', '==', '!=']),
                           self.pick(['2', '3', '1.5', self.pick(pure)]),
                           ','] + arg() + [','] + arg() + [')'])
        if f == 'sqrt':
            return pre + [self.pick(['4', '9', '2.25', '16'])] + [')']
        if f == 'exp':
            if not pure:
                return ['np.square('] + arg() + [')']
            v = self.pick(pure)
            return pre + [v, '-', v] + [')']
        return pre + arg() + [')']

    def expr(self, leaf, depth=2, sign=True, caret='**', nums=None, calls=0.0,
             pure=(), n=None, lib=False, sqpar=True):
        """tokens of a random arithmetic expression (grammar directed text)"""
        nums = nums or NUMS
        big = (lib or calls) and self.chance(0.07)
        if big:
            nums = nums + BIG

        def operand(d):
            x = self.r.random()
            if calls and x < calls:
                if big and self.chance(.5):
                    return ['np.' + self.pick(['log', 'exp', 'sqrt']) + '(',
                            leaf(), ')']
                return self.call(leaf, list(pure), lib)
            if d > 0 and x < calls + 0.27:
                t = inner(d - 1, self.pick([1, 2, 2, 3]))
                if len(t) == 1:
                    # a single name in parentheses
                    return ['('] + t + [')'] if sqpar else t
                return ['('] + t + [')']
            if x < calls + 0.47:
                return [self.pick(nums)]
            return [leaf()]

        def power(d):
            t = operand(d)
            if self.chance(0.16):
                c = caret if caret != 'both' else self.pick(['^', '**'])
                ex = [self.pick(['2', '3', '2', '1', '0'])]
                if sign and self.chance(0.2):
                    ex = ['-', self.pick(['1', '2'])]
                elif self.chance(0.15):
                    ex = ['(', '1', '+', '1', ')']
                elif self.chance(0.1):
                    ex = ['2', c, self.pick(['1', '0', '2'])]
                if big and self.chance(.6):
                    ex = [self.pick(['0.5', '1.5', '0.49', '1.2', '2.25'])]
                t = t + [c] + ex
            if sign and self.chance(0.12):
                t = [self.pick(['-', '-', '+'])] + t
            return t

        def inner(d, k):
            t = power(d)
            for _ in range(k - 1):
                t = t + [self.pick(['+', '-', '*', '/', '-', '/'])] + power(d)
            return t

        if self.chance(0.03):
            n = self.pick([7, 9, 12])
        elif depth and self.chance(0.02):
            # many parenthesised parts
            t = []
            for _ in range(self.pick([9, 11, 12, 14])):
                t += [self.pick(['+', '-'])] * bool(t) + [
                    '(', leaf(), self.pick(['+', '-', '*']),
                    self.pick(nums), ')']
            return t
        return inner(depth, n or self.pick([1, 2, 2, 3, 3, 4, 5]))

    def libtext(self, leaf, pure, calls=0.12, depth=2, n=None):
        return self.join(self.expr(leaf, depth=depth, sign=True, caret='**',
                                   nums=XNUMS, calls=calls, pure=pure, n=n,
                                   lib=True)).strip()

    # ----------------------------------------------------- groups, trees
    def items(self, n, inputs, nested=0.0, keys=None, refs=True, depth=1,
              nums=0.15, calls=0.12):
        """items of an equation group; refs: equations use each other"""
        keys = self.some(keys or KEYS, n)
        out, done = [], []
        if nested and depth and self.chance(0.05):
            # groups in groups in groups
            names = self.some(['lv1', 'lv2', 'lv3', 'lv4', 'lv5', 'lv6'],
                              self.pick([4, 5, 6]))
            inner = self.items(2, inputs, nested=0, refs=refs, depth=0)
            for k in names:
                more = self.items(1, inputs, nested=0, refs=refs, depth=0,
                                  keys=['side', 'edge'])
                inner = [{'key': k, 't': 'g', 's': '', 'items': inner}]
                if self.chance(0.4):
                    inner += more
            out += inner[:1]
        for k in keys:
            if self.chance(nested) and depth:
                out.append({'key': k, 't': 'g', 's': '', 'items': self.items(
                    self.pick([1, 2, 2, 3]), inputs,
                    nested=nested if depth > 1 else 0, refs=refs,
                    depth=depth - 1, keys=keys + KEYS)})
                out[-1]['items'] = _dedupe(out[-1]['items'])
                continue
            if self.chance(nums):
                out.append({'key': k, 't': 'n', 's': self.const(NUMS0 + ['-3']),
                            'items': []})
            else:
                pool = list(inputs) + (done * 2 if refs else [])
                s = self.libtext(lambda p=pool: self.pick(p), list(inputs),
                                 calls=calls, depth=1,
                                 n=self.pick([1, 2, 2, 3]))
                out.append({'key': k, 't': 'e', 's': s, 'items': []})
            done.append(k)
        self.r.shuffle(out)
        return out

    def vfile(self, names, ext=None):
        return {'name': 'variables.' + (ext or self.pick(
                    ['yaml', 'yaml', 'yml', 'json'])),
                't': 'f', 'items': [{'key': n, 't': 'n', 'items': [],
                                     's': self.const(NUMS0 + ['-2', '6', '8'])}
                                    for n in names]}

    def gfile(self, name, items):
        return {'name': name + '.' + self.pick(['yaml', 'yaml', 'yml',
                                                'json']),
                't': 'f', 'items': items}

    def tree(self, inputs, depth=2, nfiles=2, pvars=0.6, nested=0.2,
             dirs=0.6, fam=0.0):
        """a library: files, sub directories, variables files"""
        out = []
        for f in self.some(FILES, self.pick(range(1, nfiles + 1))):
            its = self.items(self.pick([1, 2, 3]), inputs, nested=nested)
            if self.chance(fam):
                its += self.family(inputs)
                its = _dedupe(its)
            out.append(self.gfile(f, its))
        if nfiles > 1 and self.chance(0.03):
            for j in range(self.pick([8, 9, 12])):
                out.append(self.gfile('w{}_'.format(j), self.items(
                    1, inputs, nested=0, calls=0)))
        if self.chance(pvars):
            out.append(self.vfile(self.some(inputs, self.pick([1, 2, 3]))))
        if depth > 0 and self.chance(0.06):
            # directories in directories in directories
            sub = self.tree(inputs, 0, 1, pvars, nested, dirs, fam)
            for d in self.some(['dp1', 'dp2', 'dp3', 'dp4', 'dp5'],
                               self.pick([3, 4, 5])):
                sub = [{'name': d, 't': 'd', 'items': sub}]
                if self.chance(0.4):
                    sub.append(self.vfile(self.some(inputs, 2)))
                if self.chance(0.3):
                    sub.append(self.gfile('side', self.items(
                        1, inputs, nested=0)))
            out += sub[:1]
        if depth > 0:
            for d in self.some(DIRS, self.pick([1, 2])):
                if self.chance(dirs):
                    out.append({'name': d, 't': 'd', 'items': self.tree(
                        inputs, depth - 1, nfiles, pvars, nested, dirs, fam)})
        self.r.shuffle(out)
        return out

    def family(self, inputs, kind=None, base=None, const=0.2, mw=None):
        """equations that differ by power or year"""
        kind = kind or self.pick(['p', 'y'])
        base = base or self.pick(['pile', 'inst', 'cost', 'a', 'spar_10MW',
                                  'x_2015', 'cost_MW', 'b_1'])
        if kind == 'p':
            mw = mw or self.pick(['MW', 'MW', 'MW', 'mw'])
            ks = ['{}_{}{}'.format(base, v, mw) for v in
                  self.some([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 100],
                            self.pick([1, 2, 3, 3, 4]))]
        else:
            ks = ['{}_{}'.format(base, v) for v in
                  self.some([1990, 2000, 2010, 2015, 2019, 2020, 2022, 2025,
                             2030, 2050, 1800, 2200], self.pick([1, 2, 3, 4]))]
        cst = self.chance(const)
        return [{'key': k, 'items': [], **(
            {'t': 'n', 's': self.pick(NUMS + ['9', '12'])} if cst else
            {'t': 'e', 's': self.libtext(lambda: self.pick(inputs), inputs,
                                         calls=0.05, depth=1,
                                         n=self.pick([1, 2]))})}
            for k in ks]


def _dedupe(items):
    seen, out = set(), []
    for it in items:
        if it['key'] not in seen:
            seen.add(it['key'])
            out.append(it)
    return out


def group_paths(items, pre=()):
    """[(path, t)] of everything inside group items"""
    out = []
    for it in items:
        p = pre + (it['key'],)
        if it['t'] == 'g':
            out.append((p, 'g'))
            out += group_paths(it['items'], p)
        else:
            out.append((p, it['t']))
    return out


def stem(name):
    for e in ('.yaml', '.yml', '.json'):
        if name.endswith(e):
            return name[:-len(e)]
    return name


def tree_paths(tree, pre=()):
    """[(path, kind)] kind: d directory, f file, v variables file, q variable,
    e equation, n number, g nested group"""
    out = []
    for e in tree:
        nm = e['name']
        if nm.startswith('.') or nm.startswith('__'):
            continue
        if e['t'] == 'd':
            sub = tree_paths(e['items'], pre + (nm,))
            if sub:
                out.append((pre + (nm,), 'd'))
                out += sub
        elif e['t'] == 'f' and stem(nm) != nm:
            p = pre + (stem(nm),)
            if stem(nm) == 'variables':
                out.append((p, 'v'))
                out += [(p + (i['key'],), 'q') for i in e['items']]
            else:
                out.append((p, 'f'))
                out += group_paths(e['items'], p)
    return out


def J(p):
    return '::'.join(p)


def eqpaths(tree):
    return [J(p) for p, k in tree_paths(tree) if k in ('e', 'n')]
