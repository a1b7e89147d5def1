"""What each check runs: design models, sizes, fixed scenarios."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')
FL0 = {'ip': False, 'np': False, 'iy': False, 'ny': False}

ASSUMPTIONS = [
    'numpy, pandas, yaml and json behave as documented',
    'float64 results are compared exactly while they are fractions with '
    'numerator and denominator below 1e8 and otherwise (larger numbers, '
    'fractional powers, logarithms, strong cancellation) by interval '
    'arithmetic to about 4 significant digits; array (float32) results are '
    'compared with a relative tolerance of 1/2000',
    'results beyond 1e18 and divisions by zero are not judged',
    'the scenarios stay within the domain written down in DESIGN.md',
]

# scenarios per batch in the quick tier
N = {'C01': 1150, 'C02': 1150, 'C03': 1500, 'C04': 1000, 'C05': 1500, 'C06': 1500,
     'C07': 1000, 'C08': 1000, 'C09': 1150, 'C10': 1150, 'C11': 1150, 'C12': 1000,
     'C13': 1150, 'C14': 1500, 'C15': 1500, 'C16': 1500, 'C17': 1500, 'C18': 1150,
     'C19': 1500, 'C20': 1500, 'C21': 1150, 'C22': 18, 'C23': 1150, 'C24': 850,
     'C25': 1000, 'C26': 1500, 'C27': 1000}

# design models per property: (module, cfg, cfg in the thorough tier, how its
# cases are given to the code, at most so many cases in the quick tier)
MODELS = {
    'C01': [('MCExpr', '_q', '_t', 'expr_config', None)],
    'C02': [('MCExpr', '_k', '_t', 'expr_key', None)],
    'C03': [('MCExpr', '_k', '_t', 'expr_objects', None),
            ('MCSession', '_share2', '_share3', 'sessions', None)],
    'C04': [('MCRefs', '_q', '_t', 'refs_config', None)],
    'C05': [('MCRefs', '_q', '_t', 'refs_config', None),
            ('MCRefs', '_q', '_t', 'refs_lib', None),
            ('MCRefs', '_q', '_t', 'refs_group', None)],
    'C06': [('MCRefs', '_q', '_t', 'refs_group', None)],
    'C07': [('MCSession', '_life3', '_life4', 'sessions', None),
            ('MCSession', '_own3', '_own4', 'sessions', 600),
            ('MCSession', '_circle3', '_circle4', 'sessions', 400)],
    'C08': [('MCSession', '_own3', '_own4', 'sessions', None),
            ('MCSession', '_circle3', '_circle4', 'sessions', None)],
    'C09': [('MCPrec', '_q', '_q', 'sessions', None),
            ('MCScope', '_q', '_t', 'scope_config', None)],
    'C10': [('MCScope', '_q', '_t', 'scope_dir', None)],
    'C11': [('MCMerge', '_q', '_t', 'plain', None)],
    'C12': [('MCSession', '_share2', '_share3', 'sessions', None),
            ('MCSession', '_groups2', '_groups3', 'sessions', None)],
    'C13': [('MCLookup', '_q', '_t', 'lookup_nested', None)],
    'C14': [('MCLookup', '_q', '_t', 'lookup_group', None)],
    'C15': [('MCLookup', '_q', '_t', 'lookup_nested', None)],
    'C16': [('MCExpr', '_s', '_t', 'expr_text', None)],
    'C17': [('MCForbid', '_q', '_q', 'forbid', None)],
    'C18': [('MCLoad', '_q', '_t', 'plain', None)],
    'C19': [('MCPtr', '_q', '_t', 'plain', None)],
    'C20': [('MCBad', '_q', '_t', 'bad', None)],
    'C21': [('MCShape', '_q', '_t', 'shapes', None)],
    'C23': [('MCSession', '_life3', '_life4', 'shows', None)],
    'C24': [('MCScope', '_q', '_t', 'scope_config', None)],
    'C26': [('MCFlags', '_q', '_t', 'plain', None),
            ('MCLookup', '_q', '_t', 'lookup_nested', None)],
    'C27': [('MCSession', '_share2', '_share3', 'sessions', None),
            ('MCSession', '_groups2', '_groups3', 'sessions', None)],
}


def plan(pid, tier):
    if tier == 'quick':
        return {'n': N[pid], 'batches': 1, 'budget': 300}
    return {'n': 60 if pid == 'C22' else 1500, 'batches': 40, 'budget': 1500}


def models(pid, tier):
    return [{'module': m, 'cfg': m + (c if tier == 'quick' else t) + '.cfg',
             'adapt': how, 'limit': lim if tier == 'quick' else 20000}
            for m, c, t, how, lim in MODELS.get(pid, ())]


def known():
    with open(KNOWN) as f:
        return json.load(f)


def fixed(pid):
    """scenarios of the known findings of a property"""
    return [{'id': 0, 'ev': k['scenario']} for k in known()['findings']
            if k['property'] == pid and k.get('scenario')]


def known_lines(pid, seen):
    if not seen:
        return []
    return ['KNOWN-FINDING: property={} {}'.format(pid, k['what'])
            for k in known()['findings'] if k['property'] == pid]
