"""Runs scenarios against the real NRWAL code in /repo and records traces.

usage: driver.py SCENARIOS.ndjson TRACES.ndjson     (python of /opt/venv)

Every scenario is a list of events (public API calls).  The driver performs
the calls in order on the real objects and adds to each event
   obs  what the call returned (projected to plain data) or the exception
   fp   a digest of the observable state of every object made so far
   ext  a digest of every object that belongs to the caller (dictionaries,
        arrays, data frames that were passed in)
Nothing here decides whether an observation is right, TLC does.
"""
import sys
import os
import math
import json
import copy
import pickle
import shutil
import signal
import hashlib
import resource
import tempfile
import warnings
import zlib
import logging
from fractions import Fraction

REPO = os.environ.get('NRWAL_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import numpy as np                                           # noqa: E402
import pandas as pd                                          # noqa: E402
import yaml                                                  # noqa: E402
import NRWAL                                                 # noqa: E402
from NRWAL import (Equation, EquationGroup, EquationDirectory,   # noqa: E402
                   NrwalConfig)
from NRWAL.handlers.groups import VariableGroup              # noqa: E402

assert os.path.realpath(NRWAL.__file__).startswith(os.path.realpath(REPO))
np.seterr(all='ignore')
DEN = 30000
TIMEOUT = int(os.environ.get('NRWAL_DRIVER_TIMEOUT', '10'))
MAX_TIMEOUTS = 3


class Timeout(Exception):
    """a call into the code under test did not return"""


def _alarm(*_):
    raise Timeout('call did not return within {} s'.format(TIMEOUT))


signal.signal(signal.SIGALRM, _alarm)


# ----------------------------------------------------------- projections
def q_of(x):
    """number -> [n, d] if it is close to a small rational, else None"""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')) or abs(x) > 1e9:
        return None
    f = Fraction(x).limit_denominator(DEN)
    if abs(float(f) - x) > 1e-9 + 1e-11 * abs(x) or abs(f.numerator) > DEN:
        return None
    return [f.numerator, f.denominator]


FAR = 1100000000


def ap_of(x):
    """number -> its closest multiple of 1 / 30000"""
    x = float(x)
    if x != x or abs(x) > 35000:
        return FAR
    return int(round(x * 30000))


def sc_of(x):
    """number -> [m, e], about m * 10 ** e with four digits or more"""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return [20000, 99]
    if x == 0:
        return [0, 0]
    e = int(math.floor(math.log10(abs(x)))) - 4
    m = int(round(x / 10.0 ** e)) if e > -300 else 0
    return [m, e]


def hp_of(x):
    """number -> [m, e], about m * 10 ** e with nine digits"""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')) or x == 0:
        return [0, 0]
    m, e = '{:.8e}'.format(x).split('e')
    return [int(m.replace('.', '')), int(e) - 8]


# the arrays of a scenario can stand for arrays that are so many times longer,
# with the same elements again and again
REP = 1


def repeat(n):
    global REP
    REP = n


def once(x):
    """the part of an array that is repeated"""
    n = len(x) // REP
    if REP > 1 and n > 1 and n * REP == len(x) \
            and np.array_equal(x, np.tile(x[:n], REP),
                               equal_nan=x.dtype.kind == 'f'):
        return x[:n]
    return x


def val(x):
    """evaluation result -> plain data"""
    if x is None:
        return {'t': 'none'}
    if isinstance(x, (bool, np.bool_)):
        return {'t': 'q', 'v': [int(x), 1], 'ap': ap_of(x),
                'sc': sc_of(x), 'np': False, 'hp': hp_of(x)}
    if isinstance(x, (int, float, np.number)) \
            and not isinstance(x, np.complexfloating):
        q = q_of(x)
        out = {'ap': ap_of(x), 'sc': sc_of(x), 'hp': hp_of(x),
               'np': isinstance(x, np.generic)}
        if q:
            out.update({'t': 'q', 'v': q})
        else:
            out.update({'t': 'nr', 's': repr(x)})
        return out
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return val(x[()])
        if x.ndim == 1 and x.dtype.kind in 'biuf':
            x = once(x)
            return {'t': 'a', 'ap': [ap_of(y) for y in x],
                    'sc': [sc_of(y) for y in x]}
    elif isinstance(x, (list, tuple)):
        return val(np.asarray(x))
    return {'t': 'nr', 's': repr(x)[:200], 'ap': FAR, 'sc': [20000, 99],
            'hp': [0, 0], 'np': False}


def err(e):
    return {'t': 'err', 'mro': [c.__name__ for c in type(e).__mro__],
            's': str(e)[:160]}


def defs(d):
    return {str(k): val(v) for k, v in d.items()}


def kind(o):
    if isinstance(o, Equation):
        return 'eq'
    if isinstance(o, VariableGroup):
        return 'vars'
    if isinstance(o, EquationGroup):
        return 'grp'
    if isinstance(o, EquationDirectory):
        return 'dir'
    if isinstance(o, NrwalConfig):
        return 'cfg'
    if isinstance(o, (int, float, np.number, np.ndarray)):
        return 'val'
    return 'other'


def look(o, probes=()):
    """observable projection of an object"""
    k = kind(o)
    if k == 'eq':
        vs = list(o.variables)
        vals = []
        for p in probes:
            kw = {a: mkval(b) for a, b in p.items()}
            try:
                vals.append(val(o.eval(**kw)))
            except Timeout:
                raise
            except Exception as e:
                vals.append(err(e))
        return {'t': 'eq', 'vars': vs,
                'sorted': vs == sorted(set(vs)),
                'defs': defs(o.default_variables), 'vals': vals}
    if k == 'vars':
        return {'t': 'vars', 'keys': list(o.keys()),
                'defs': defs(dict(o.items()))}
    if k in ('grp', 'dir'):
        return {'t': k, 'keys': [str(x) for x in o.keys()],
                'defs': defs(o.default_variables),
                'n': len(o.all_equations)}
    if k == 'val':
        return val(o)
    if o is None:
        return {'t': 'none'}
    return {'t': 'other', 's': repr(type(o))}


def digest(o):
    h = hashlib.sha1()

    def put(*xs):
        for x in xs:
            h.update(repr(x).encode() + b'\0')

    def arr(x):
        if isinstance(x, np.ndarray):
            put('arr', x.dtype.str, x.shape, x.tolist())
        else:
            put(type(x).__name__, x)

    def walk(x):
        k = kind(x)
        put(k)
        if k == 'eq':
            put(x.full, x.variables)
            for n in sorted(x.default_variables):
                put(n)
                arr(x.default_variables[n])
        elif k in ('grp', 'dir'):
            put(sorted(x.default_variables.items(), key=lambda z: z[0]))
            for n, y in x.items():
                put(n)
                walk(y)
        elif k == 'vars':
            put(sorted(x.items()))
        elif k == 'cfg':
            for n, y in x.items():
                put(n)
                walk(y)
            for d in (x.inputs, x.outputs, x.global_variables):
                for n in sorted(d):
                    put(n)
                    arr(d[n])
        elif isinstance(x, dict):
            for n, y in x.items():
                put('key', n)
                walk(y)
        elif isinstance(x, pd.DataFrame):
            put(list(x.columns), x.to_dict('list'),
                [str(t) for t in x.dtypes])
        elif isinstance(x, (list, tuple)):
            put(len(x))
            for y in x:
                walk(y)
        else:
            arr(x)
    walk(o)
    return h.hexdigest()[:16]


# ---------------------------------------------------------- constructions
DTYPES = {'u8': np.uint8, 'i8': np.int8, 'i16': np.int16, 'i32': np.int32,
          'u32': np.uint32, 'u16': np.uint16, 'u64': np.uint64}


def mkval(v):
    """plain data -> python value; 'py' selects the representation"""
    py = v.get('py', '')
    if v['t'] == 'q':
        n, d = v['v']
        x = n / d if d else float('nan')
        if py == 'int':
            return int(n)
        if py == 'npint':
            return np.int64(n)
        if py == 'np64':
            return np.float64(x)
        if py == 'np32':
            return np.float32(x)
        if py == '0d':
            return np.array(x)
        if py == 'bool':
            return bool(x)
        if py in DTYPES:
            return DTYPES[py](x)
        return float(x)
    if v['t'] == 'a':
        xs = [a / b if b else float('nan') for a, b in v['v']]
        if len(xs) > 1:
            xs = xs * REP
        if py == 'list':
            return xs
        if py == 'tuple':
            return tuple(xs)
        if py == 'arrint':
            return np.array([int(x) for x in xs], dtype=np.int64)
        if py in DTYPES:
            return np.array(xs).astype(DTYPES[py])
        if py == 'big':
            return np.array(xs, dtype='>f8')
        if py == 'arr32':
            return np.array(xs, dtype=np.float32)
        if py == 'strided':
            return np.repeat(np.array(xs, dtype=float), 2)[::2]
        if py == 'rev':
            return np.array(xs[::-1], dtype=float)[::-1]
        if py == 'ro':
            x = np.array(xs, dtype=float)
            x.flags.writeable = False
            return x
        return np.array(xs, dtype=float)
    if v['t'] == 'str':
        return v['v']
    if v['t'] == 'dict':
        return {'a': 1}
    if v['t'] == 'none':
        return None
    raise ValueError(v)


def mkitems(items):
    """group items -> python dict"""
    out = {}
    for it in items:
        k = it['key']
        if it.get('ik'):
            k = int(k)
        if it['t'] == 'g':
            out[k] = mkitems(it['items'])
        elif it['t'] == 'n':
            out[k] = mknum(it['s'])
        elif it['t'] == 'e':
            out[k] = it['s']
        elif it['t'] == 'x':
            out[k] = it['raw']
        else:
            raise ValueError(it)
    return out


def mknum(s):
    try:
        return int(s)
    except ValueError:
        return float(s)


def json_exp(x):
    """json text with numbers in exponent notation and tabs"""
    if isinstance(x, dict):
        return '{\n\t' + ',\n\t'.join(
            json.dumps(str(k)) + ' :\t' + json_exp(v)
            for k, v in x.items()) + '\n}\n'
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        e = '{:.6e}'.format(x).replace('.000000', '').replace('e+0', 'e')
        return e if float(e) == x else json.dumps(x)
    return json.dumps(x)


JSON = [json.dumps, json_exp, lambda x: json.dumps(x, indent=4),
        lambda x: json.dumps(x, indent='\t', ensure_ascii=False)]


def yaml_text(data):
    """one of the many ways to write the same yaml"""
    kind = zlib.crc32(json.dumps(data, default=str).encode()) % 8
    t = yaml.safe_dump(data, sort_keys=False, allow_unicode=True,
                       width=[80, 1000, 40][kind % 3],
                       indent=[2, 4][kind == 3],
                       default_flow_style=None if kind in (1, 2) else False)
    if kind in (1, 3):
        t = '---\n' + t
    if kind in (4, 5, 6) and not t.startswith(('{', '[')):
        # comments and empty lines
        out, lines = [], t.split('\n')
        for i, s in enumerate(lines):
            if s and not s.startswith(' ') and i % 2 == kind % 2:
                out += ['# x: 5, about the next one', '']
            more = lines[i + 1] if i + 1 < len(lines) else ''
            if s and not s.startswith(' ') and not more.startswith(' ') \
                    and (more or i + 2 >= len(lines)) and i % 3 != 1:
                s += [' # note: 3 * 4', '   # y # 2', ' #z'][(i + kind) % 3]
            out.append(s)
        t = '\n'.join(out)
    if kind == 6:
        t = t.replace('\n', '\r\n')
    return t


def dump(path, data):
    """write a dictionary as yaml or json file (text if it is a string)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        if isinstance(data, str):
            f.write(data)
        elif path.endswith('.json'):
            f.write(JSON[len(data) % len(JSON)](data))
        else:
            f.write(yaml_text(data))


def mktree(root, tree):
    os.makedirs(root, exist_ok=True)
    for e in tree:
        p = os.path.join(root, e['name'])
        if e['t'] == 'd':
            mktree(p, e['items'])
        elif e['t'] == 'x':
            dump(p, e['raw'])
        else:
            dump(p, mkitems(e['items']))


def mkents(ents, base=''):
    """`base`: the directory of the files, for pointers with absolute paths"""
    out = {}
    for e in ents:
        k = int(e['key']) if e.get('ik') else e['key']
        if e['t'] == 's':
            out[k] = (base if e['s'].startswith('/') else '') + e['s']
        elif e['t'] == 'n':
            out[k] = mknum(e['s'])
        elif e['t'] == 'f':
            # 1 and 0 are as good as true and false
            out[k] = int(e['b']) if e.get('one') else e['b']
        elif e['t'] in ('l', 'o'):
            out[k] = e['raw']
        else:
            raise ValueError(e)
    return out


FL = {'ip': 'interp_extrap_power', 'np': 'use_nearest_power',
      'iy': 'interp_extrap_year', 'ny': 'use_nearest_year'}


def flags(fl):
    """flags that are off are left out every other time"""
    flags.n += 1
    return {FL[k]: v for k, v in fl.items() if v or flags.n % 2}


flags.n = 0


class Session:
    """one scenario"""

    def __init__(self, tmp):
        self.tmp = tmp
        self.n = 0
        self.obj = {}
        self.ext = {}
        self.dirs = {}

    def keep(self, tag, x):
        """remember a caller owned object"""
        name = 'x{}_{}'.format(len(self.ext), tag)
        self.ext[name] = x
        return x

    def path(self, name):
        self.n += 1
        return os.path.join(self.tmp, 'o{}'.format(self.n), name)

    def tree(self, tree, at=None):
        """path of a directory with that content; `at`: the same path each
        time, what was there before is replaced"""
        if at:
            p = os.path.join(self.tmp, 'at_' + at, 'lib')
            shutil.rmtree(p, ignore_errors=True)
            mktree(p, tree)
            return p
        key = json.dumps(tree)
        if key not in self.dirs:
            p = self.path('lib')
            mktree(p, tree)
            self.dirs[key] = p
        p = self.dirs[key]
        return [p, p, p + '/', os.path.relpath(p),
                os.path.join(p, '..', 'lib')][(self.n + len(key)) % 5]

    def decoys(self, files):
        """other files with the same names in the working directory, nobody
        refers to them"""
        for i, (p, es) in enumerate(sorted(files.items())):
            if i % 2 == len(files) % 2 or self.n % 3:
                dump(os.path.join(os.getcwd(), p), {e['key']: 90 + j for j, e in enumerate(es)})

    def default(self, key):
        """a default for get(), anything is fine as one"""
        ds = ['DEFAULT', None, [], {}, 123456.5, False, 'x']
        return ds[(len(key) + len(self.obj) + self.n) % len(ds)]

    def kwargs(self, kw, tag='kw'):
        return self.keep(tag, {k: mkval(v) for k, v in kw.items()})

    def inputs(self, inp, how):
        d = {k: mkval(v) for k, v in inp.items()}
        if how == 'df':
            ls = [len(x) for x in d.values() if hasattr(x, '__len__')]
            n = max(ls) if ls else 1
            d = {k: (x if hasattr(x, '__len__') else [x] * n)
                 for k, x in d.items()}
            # the index and the order of the columns have no meaning
            kind = (len(d) + n + self.n + len(self.ext)) % 5
            index = {0: None, 1: range(n, 0, -1), 2: [7] * n,
                     3: ['r{}'.format(-i) for i in range(n)],
                     4: [(3 * i + 1) % 7 for i in range(n)]}[kind]
            d = pd.DataFrame(d, index=index)
            if kind == 1:
                d = d[list(d.columns)[::-1]]
        elif how == 'bad':
            d = [1, 2]
        elif how == 'badkey':
            d[5] = 1.5
        return self.keep('inp', d)

    def group(self, ev):
        data = mkitems(ev['items'])
        via = ev.get('via', 'dict')
        if via == 'dict':
            return self.keep('grp', data)
        p = (os.path.join(self.tmp, 'at_' + ev['at'], 'grp.' + via)
             if ev.get('at') else self.path('grp.' + via))
        dump(p, ev['rawtext'] if 'rawtext' in ev else data)
        return p

    # ------------------------------------------------------------- events
    def run(self, ev):
        signal.alarm(TIMEOUT)
        try:
            obs = getattr(self, 'op_' + ev['op'])(ev)
        except Timeout as e:
            obs = {'t': 'err', 'mro': ['Timeout'], 's': str(e)}
        except Exception as e:
            obs = err(e)
        finally:
            signal.alarm(0)
        return obs

    def op_eq_new(self, ev):
        arg = mknum(ev['s']) if ev.get('num') else ev['s']
        kw = {}
        if ev.get('name'):
            kw['name'] = ev['name']
        if ev.get('defs') is not None:
            kw['default_variables'] = self.kwargs(ev['defs'], 'defs')
        self.obj[ev['h']] = Equation(arg, **kw)
        return {'t': 'ok'}

    def own(self, h, x):
        """keep a result; is it an object of its own?"""
        new = not any(x is o for o in self.obj.values())
        self.obj[h] = x
        return new

    def op_eq_op(self, ev):
        a = self.obj[ev['a']]
        b = (self.obj[ev['b']] if ev['bt'] == 'h' else
             mknum(ev['b']) if ev['bt'] == 'n' else ev['b'])
        op = ev['o']
        return {'t': 'ok', 'new': self.own(ev['h'], (
            a + b if op == '+' else a - b if op == '-' else
            a * b if op == '*' else a / b if op == '/' else a ** b))}

    def op_eq_repl(self, ev):
        return {'t': 'ok', 'new': self.own(
            ev['h'], self.obj[ev['a']].replace_equation(ev['s']))}

    def op_eq_def(self, ev):
        if ev.get('none'):
            self.obj[ev['a']].set_default_variables(None)
        elif ev.get('force'):
            self.obj[ev['a']].set_default_variables(
                self.kwargs(ev['defs'], 'defs'), force_update=True)
        else:
            self.obj[ev['a']].set_default_variables(
                self.kwargs(ev['defs'], 'defs'))
        return {'t': 'ok'}

    def op_grp_def(self, ev):
        return self.op_eq_def(ev)

    def op_sub_def(self, ev):
        """change something inside an object through the retrieved object"""
        self.obj[ev['a']][ev['key']].set_default_variables(
            self.kwargs(ev['defs'], 'defs'))
        return {'t': 'ok'}

    def op_eq_eval(self, ev):
        kw = self.kwargs(ev['kw'])
        f = self.obj[ev['a']]
        return val(f.eval(**kw) if ev.get('alias') else f.evaluate(**kw))

    def op_look(self, ev):
        return look(self.obj[ev['a']], ev.get('probes', ()))

    def op_grp_new(self, ev):
        self.obj[ev['h']] = EquationGroup(self.group(ev), **flags(ev['fl']))
        return look(self.obj[ev['h']])

    def op_var_new(self, ev):
        self.obj[ev['h']] = VariableGroup(self.group(ev))
        return look(self.obj[ev['h']])

    def op_dir_new(self, ev):
        root = (os.path.join(NRWAL.NRWAL_ANALYSIS_DIR, ev['repo'])
                if 'repo' in ev else self.tree(ev['tree'], ev.get('at')))
        self.obj[ev['h']] = EquationDirectory(root, **flags(ev['fl']))
        return look(self.obj[ev['h']])

    def op_get(self, ev):
        o = self.obj[ev['a']]
        if ev.get('dflt'):
            d = self.default(ev['key'])
            x = o.get(ev['key'], d)
            if x is d:
                return {'t': 'default'}
        else:
            x = o[ev['key']]
        if ev.get('h'):
            self.obj[ev['h']] = x
        return look(x, ev.get('probes', ()))

    def op_add(self, ev):
        a = self.obj[ev['a']]
        if ev['bt'] == 'h':
            b = self.obj[ev['b']]
        elif ev['bt'] == 'tree':
            b = self.tree(ev['tree'])
        else:
            b = self.group(ev)
        new = self.own(ev['h'], a + b)
        return dict(look(self.obj[ev['h']]), new=new)

    def op_copy(self, ev):
        a = self.obj[ev['a']]
        return {'t': 'ok', 'new': self.own(ev['h'], (
            copy.deepcopy(a) if ev['how'] == 'deep' else
            pickle.loads(pickle.dumps(a))))}

    def op_parts(self, ev):
        """dictionary protocol of groups, directories and configs"""
        o = self.obj[ev['a']]
        keys = list(o.keys())
        items = list(o.items())
        values = list(o.values())
        alleq = [] if kind(o) in ('cfg', 'vars') else o.all_equations
        cont = [] if kind(o) == 'cfg' else [k in o for k in keys]
        return {'t': 'parts', 'keys': [str(k) for k in keys],
                'ikeys': [str(k) for k, _ in items],
                'same': (len(values) == len(items)
                         and all(x is y[1] for x, y in zip(values, items))),
                'contains': all(cont),
                'absent': (False if kind(o) == 'cfg'
                           else ('no_such_key_' in o)),
                'kinds': [kind(v) for v in values],
                'n': len(alleq),
                'eqs': all(isinstance(x, Equation) for x in alleq)}

    def op_text(self, ev):
        o = self.obj[ev['a']]
        n = ev['n']
        full = str(o).split('\n')
        return {'t': 'text', 'full': full, 'repr': repr(o).split('\n'),
                'head': o.head(n).split('\n'), 'tail': o.tail(n).split('\n'),
                'head5': o.head().split('\n'), 'tail5': o.tail().split('\n')}

    def op_poke(self, ev):
        """the caller changes everything it has passed in so far"""
        for k, x in self.ext.items():
            if not k.startswith('out_'):
                self._poke(x)
        # and throws its files away
        self.dirs = {}
        for d in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, d))
        return {'t': 'ok'}

    def _poke(self, x):
        if isinstance(x, dict):
            for k in list(x):
                if isinstance(x[k], (dict, np.ndarray)):
                    self._poke(x[k])
                elif isinstance(x[k], str):
                    x[k] = '77'
                else:
                    x[k] = 77
            x['poked'] = 77
        elif isinstance(x, pd.DataFrame):
            for c in list(x.columns):
                x[c] = 77
        elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
            x[...] = 77

    def op_reject(self, ev):
        """arguments that have to be refused"""
        what, raw = ev['what'], ev.get('raw')
        lib = self.tree(ev['tree']) if 'tree' in ev else None
        if what in ('cfg-nofile', 'grp-nofile'):
            arg = os.path.join(self.tmp, raw)
        elif what in ('cfg-ext', 'grp-ext'):
            arg = self.path('thing.' + raw)
            dump(arg, 'a: b * 2\n')
        elif what in ('cfg-notdict-file', 'grp-notdict-file'):
            arg = self.path('thing.' + ev['via'])
            dump(arg, raw)
        elif what == 'dir-nodir':
            arg = os.path.join(self.tmp, raw)
        else:
            arg = raw
        if what.startswith('grp'):
            EquationGroup(arg)
        elif what.startswith('var'):
            VariableGroup(arg)
        elif what.startswith('dir'):
            EquationDirectory(arg)
        elif what in ('cfg-nofile', 'cfg-ext', 'cfg-type',
                      'cfg-notdict-file'):
            NrwalConfig(arg)
        else:
            arg = dict(raw)
            arg['equation_directory'] = lib
            NrwalConfig(arg)
        return {'t': 'ok'}

    # ------------------------------------------------------------- config
    def op_cfg_new(self, ev):
        via = ev.get('via', 'dict')
        if ev.get('repo'):
            # a config and the library that come with NRWAL
            self.obj[ev['h']] = NrwalConfig(os.path.join(
                NRWAL.NRWAL_CONFIG_DIR, ev['main']))
            return self.op_cfg_look({'a': ev['h']})
        root = self.tree(ev['tree'], ev.get('at'))
        base = os.path.dirname(self.path('x'))
        if ev.get('at'):
            base = os.path.join(self.tmp, 'at_' + ev['at'])
        ents = mkents(ev['ents'], base)
        if not ev.get('nodir'):
            ents = dict([('equation_directory', root)] + list(ents.items()))
        kw = flags(ev.get('fl', {}))
        if ev.get('inp') is not None:
            kw['inputs'] = self.inputs(ev['inp'], ev.get('how', 'dict'))
        if via == 'dict':
            arg = self.keep('cfg', ents)
        else:
            for p, es in ev.get('files', {}).items():
                if p != ev['main']:
                    dump(os.path.join(base, p), mkents(es, base))
            arg = os.path.join(base, ev['main'])
            dump(arg, ents)
            self.decoys(dict(ev.get('files', {}), **{
                ev['main']: ev['ents']}))
            # relative to the working directory, with and without ./
            arg = [arg, arg, os.path.relpath(arg),
                   os.path.join('.', os.path.relpath(arg))][self.n % 4]
        self.obj[ev['h']] = NrwalConfig(arg, **kw)
        return self.op_cfg_look({'a': ev['h']})

    def op_cfg_look(self, ev):
        c = self.obj[ev['a']]
        return {'t': 'cfg', 'keys': [str(k) for k in c.keys()],
                'kinds': [kind(v) for v in c.values()],
                'req': list(c.required_inputs),
                'miss': list(c.missing_inputs),
                'sorted': (list(c.required_inputs)
                           == sorted(set(c.required_inputs))
                           and list(c.missing_inputs)
                           == sorted(set(c.missing_inputs))
                           and list(c.all_variables)
                           == sorted(set(c.all_variables))),
                'solvable': c.solvable, 'solved': c.solved,
                'tbs': list(c.to_be_solved), 'allv': list(c.all_variables),
                'gl': defs(c.global_variables),
                'inp': defs(c.inputs),
                'outs': defs(c.outputs)}

    def op_cfg_in(self, ev):
        c = self.obj[ev['a']]
        if ev.get('clear'):
            c.inputs = None
        else:
            c.inputs = self.inputs(ev['inp'], ev.get('how', 'dict'))
        return {'t': 'ok'}

    def op_cfg_set1(self, ev):
        self.obj[ev['a']].inputs[ev['key']] = mkval(ev['v'])
        return {'t': 'ok'}

    def op_cfg_eval(self, ev):
        c = self.obj[ev['a']]
        f = c.eval if ev.get('alias') else c.evaluate
        if ev.get('inp') is None:
            out = f()
        else:
            out = f(self.inputs(ev['inp'], ev.get('how', 'dict')))
        # what was returned belongs to the caller from now on
        self.ext['out_{}_{}'.format(ev['a'], len(self.ext))] = out
        return {'t': 'outs', 'outs': defs(out)}

    def op_cfg_doc(self, ev):
        """a config and its evaluation, judged by the documentation only"""
        self.op_cfg_new({k: v for k, v in ev.items() if k != 'inp'})
        out = self.obj[ev['h']].evaluate(self.inputs(ev['inp'], 'dict'))
        return {'t': 'outs', 'outs': defs(out)}

    def op_cfg_reset(self, ev):
        c = self.obj[ev['a']]
        for k, x in self.ext.items():
            # the last outputs are those of the config
            if k.startswith('out_{}_'.format(ev['a'])):
                self.ext[k] = dict(x)
        if ev['key']:
            c.reset_output(ev['key'])
        else:
            c.reset_output()
        return {'t': 'ok'}

    def op_cfg_get(self, ev):
        c = self.obj[ev['a']]
        if ev['how'] == 'get':
            d = self.default(ev['key'])
            x = c.get(ev['key'], d)
            if x is d:
                return {'t': 'default'}
        elif ev['how'] == 'attr':
            x = getattr(c, ev['key'])
        else:
            x = c[ev['key']]
        if ev.get('h'):
            self.obj[ev['h']] = x
        return look(x, ev.get('probes', ()))


DROP = ('py', 'rep', 'raw', 'rawtext', 's_err')


def clean(x):
    """what TLC does not need to see (it cannot read null either)"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()
                if v is not None and k not in DROP}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def main(src, dst):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    timeouts = 0
    tmp = tempfile.mkdtemp(prefix='nrwal_drv_')
    try:
        with open(src) as fi, open(dst, 'w') as fo:
            for line in fi:
                sc = json.loads(line)
                repeat(sc.get('rep', 1))
                flags.n = len(sc['ev'])
                s = Session(os.path.join(tmp, str(sc['id'])))
                os.makedirs(s.tmp, exist_ok=True)
                cwd = os.path.join(tmp, 'cwd')
                os.makedirs(cwd)
                os.chdir(cwd)
                for ev in sc['ev']:
                    ev['obs'] = s.run(ev)
                    if 'Timeout' in ev['obs'].get('mro', ()):
                        timeouts += 1
                    signal.alarm(TIMEOUT)
                    try:
                        ev['fp'] = {k: digest(o) for k, o in s.obj.items()}
                        ev['ext'] = {k: digest(o) for k, o in s.ext.items()}
                    except Exception as e:
                        ev['fp'], ev['ext'] = {'error': repr(e)}, {}
                    finally:
                        signal.alarm(0)
                    if timeouts and 'Timeout' in ev['obs'].get('mro', ()):
                        sc['ev'] = sc['ev'][:sc['ev'].index(ev) + 1]
                        break
                fo.write(json.dumps(clean(sc)) + '\n')
                os.chdir(tmp)
                shutil.rmtree(s.tmp, ignore_errors=True)
                shutil.rmtree(cwd, ignore_errors=True)
                if timeouts >= MAX_TIMEOUTS:
                    break
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
