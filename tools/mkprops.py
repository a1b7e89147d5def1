"""writes properties.jsonl and MANIFEST.json"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, G, D, C, U = ('NRWAL/handlers/equations.py', 'NRWAL/handlers/groups.py',
                 'NRWAL/handlers/directories.py', 'NRWAL/handlers/config.py',
                 'NRWAL/utilities/utilities.py')
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w}
                                        for n, w in mech],
                          'observe_at': list(observe),
                          'hook_needed': None}})


prop('C01', 'Config expressions mean ordinary arithmetic',
     'An expression in a NrwalConfig that combines numbers, input names, '
     'other config entries and library equations with + - * / ** ^, '
     'parentheses, signs and numpy calls evaluates to the value that the '
     'usual operator precedence and associativity give (powers right '
     'associative and binding tighter than a leading sign), whatever the '
     'spacing, the number format or redundant parentheses; its required '
     'inputs and default variables are those of its parts and nothing else.',
     ['inputs', 'configurations'],
     'every expression of that grammar, over every library and every inputs',
     'The tests evaluate about a dozen fixed expressions; the parser works '
     'by splitting text at operators, so precedence, associativity, signs, '
     'exponents and parentheses interact in unboundedly many ways.',
     [C, U, E],
     [('operator splitting', C + ':_parse_equation/_find_operator'),
      ('parentheses and numpy calls', U + ':find_parens/find_np_pd_methods')],
     ['NrwalConfig(...).evaluate()', 'required_inputs'])
prop('C02', 'Math in retrieval keys means ordinary arithmetic',
     'Retrieving from an EquationGroup or EquationDirectory with a key that '
     'combines names, :: paths and numbers by + - * / ** ^ and parentheses '
     'returns an Equation equal to the same arithmetic (usual precedence, '
     '- and / left associative) on the individually retrieved equations, '
     'with the union of their variables and default variables.',
     ['inputs', 'configurations'],
     'every key of that grammar, on every group and directory',
     'Tests use a handful of keys with at most three operators.',
     [G, D], [('key math', G + ':_getitem_math')], ['group[key]', 'dir[key]'])
prop('C03', 'Arithmetic on Equation objects is exact composition',
     'For Equations a and b (or a and a number or text), a + b, a - b, a * b, '
     'a / b and a ** b give a new Equation whose value for any inputs is that '
     'operation applied to the values of the whole operands, however they '
     'were built; it needs the variables of both, has the defaults of both '
     'and leaves the operands as they were. replace_equation gives a new '
     'Equation with the new expression and the same defaults.',
     ['inputs', 'histories'],
     'every tree of operations on any equations, evaluated for any inputs',
     'Operands are combined as text, so correctness depends on how every '
     'pair of operand shapes is parenthesised; tests combine a few.',
     [E], [('text composition', E + ':__eqn_math')], ['Equation.evaluate'])
prop('C04', 'Config references resolve regardless of entry order',
     'An entry of a config that refers to other entries (by name, in '
     'arithmetic, inside numpy calls, or as the start of a :: path into a '
     'referenced group or directory) evaluates as if the referenced entries '
     'were computed first; permuting the entries of a config changes no '
     'output, required input or constant.',
     ['inputs', 'configurations'],
     'every config with acyclic references and every order of its entries',
     'Tests use fixed orders; the entries are parsed in place and solved by '
     'repeated sweeps whose intermediate states depend on the order.',
     [C], [('reference resolution', C + ':_parse_expression'),
           ('solve loop', C + ':evaluate')], ['evaluate()', 'outputs'])
prop('C05', 'Circular references are rejected and always terminate',
     'A config whose entries refer to each other in a circle is rejected '
     'with a RuntimeError at construction, a group or a named equation with '
     'circular or self references with a ValueError, and a circle that only '
     'appears through library inputs with a RuntimeError at evaluation; '
     'references without a circle are accepted; no call runs forever.',
     ['inputs', 'configurations'],
     'every reference graph of config entries and of group equations',
     'Tests check two graphs; detection is a recursive walk that has to see '
     'every kind of reference in every position.',
     [C, G, E], [('circular check', C + ':_check_circ_ref'),
                 ('group check', G + ':_r_setitem and friends')],
     ['NrwalConfig(...)', 'EquationGroup(...)', 'evaluate()'])
prop('C06', 'Group equations may use each other by name',
     'In a group, a name in an equation that is also the name of an equation '
     'of the same group level stands for that whole equation (to any depth, '
     'inside calls, next to longer names that contain it), as if it were '
     'written in parentheses; all other names, names of other levels and '
     'parts of longer names stay inputs.',
     ['inputs', 'configurations'],
     'every group and every chain of references in it',
     'Substitution is textual; tests cover a few names that do not overlap.',
     [G, E], [('local substitution', G + ':_r_parse_group')],
     ['group[key].evaluate', 'group[key].variables'])
prop('C07', 'Config outputs always belong to the current inputs',
     'Along any sequence of setting, updating and clearing inputs, resetting '
     'outputs, evaluating and failing evaluations, evaluate() returns (and '
     'outputs, [key], get and attributes then show) exactly the values for '
     'the inputs in force at that call, for every entry that is an equation '
     'and not a plain number; nothing of earlier inputs remains and a '
     'refused call changes neither inputs nor outputs.',
     ['histories', 'inputs'],
     'every history of calls on a config',
     'Tests evaluate a fresh config once or twice; staleness needs histories.',
     [C], [('inputs setter', C + ':inputs'), ('evaluate', C + ':evaluate'),
           ('reset', C + ':reset_output')], ['evaluate()', 'outputs'])
prop('C08', 'Required, missing and solvable tell the truth',
     'required_inputs is exactly the set of names without which evaluate() '
     'cannot run (read by an equation, not a constant, not another entry, '
     'without a default); missing_inputs is that set minus the given inputs, '
     'solvable is true exactly if it is empty, and evaluate() then succeeds, '
     'otherwise raises RuntimeError; solved and to_be_solved report exactly '
     'which computed entries have no output yet, and all_variables every '
     'name read.',
     ['inputs', 'configurations', 'histories'],
     'every config, every subset of inputs, every point of a history',
     'Tests compare the lists of three configs.',
     [C, E], [('derived properties', C + ':required_inputs ...')],
     ['required_inputs', 'missing_inputs', 'solvable', 'solved'])
prop('C09', 'Precedence of inputs, config constants and defaults',
     'When a name has several sources, a computed entry of the config is '
     'used first, then the inputs, then numeric constants of the config, '
     'then default variables of the library; for a single Equation, inputs '
     'win over defaults. Constants of the config reach library equations in '
     'every file and directory used by it.',
     ['inputs', 'configurations'],
     'every combination of sources for every name, on every route',
     'Tests check single overrides; precedence is spread over four merge '
     'points.',
     [C, E, G, D], [('merge of namespaces', E + ':_merge_vars'),
                    ('constants into equations', C + ':_parse_expression'),
                    ('evaluate kwargs', C + ':evaluate')], ['evaluate()'])
prop('C10', 'variables.yaml defaults are scoped to their directory',
     'The default of a variable in an equation of an EquationDirectory is '
     'the value in the nearest variables file on the way up from its file '
     'to the root; variables of sibling or lower directories never reach it, '
     'and equations without such a file have no default.',
     ['configurations'],
     'every directory tree with any placement of variables files',
     'Tests use one shipped tree; scoping is a recursive update whose result '
     'depends on depth and order of the entries.',
     [D, G], [('propagation', D + ':set_default_variables')],
     ['equation.default_variables', 'evaluate'])
prop('C11', 'Merging libraries: right operand wins, nothing is lost',
     'a + b of two groups, or of two directories (also given as dictionary, '
     'file or path), has every top level key of both, with the right '
     'operand\'s object where both have one, and default variables of the '
     'right operand winning; both operands stay as they were.',
     ['configurations', 'histories'],
     'every pair of libraries and every chain of merges',
     'Tests add one pair and look at a few keys.',
     [G, D], [('addition', G + ':__add__'), ('addition', D + ':__add__')],
     ['a + b'])
prop('C12', 'Objects do not affect each other or the caller\'s data',
     'No call changes a dictionary, array, data frame or object passed in, '
     'nor any object other than the one it is documented to change; changing '
     'passed-in data later does not change an object, and two configs, '
     'groups, directories or equations made from the same sources are '
     'independent.',
     ['histories', 'inputs'],
     'every interleaving of calls on several objects that share sources',
     'Aliasing shows only in particular sequences on more than one object.',
     [E, G, D, C], [('copies at the boundaries', 'copy.deepcopy in all '
                     'handlers')], ['digest of all objects after each call'])
prop('C13', 'Exact retrieval returns that object or KeyError',
     'Without the nearest and interpolation options, retrieving a name or '
     ':: path returns exactly the object stored there, or raises KeyError if '
     'any part does not exist (prefixes, other levels, other case, keys below '
     'an equation); get() returns its default exactly then; a plain number '
     'as key gives that number.',
     ['inputs', 'configurations'],
     'every key on every group, directory and variable group',
     'Tests look up existing keys and two missing ones.',
     [G, D], [('lookup', G + ':_getitem'), ('lookup', D + ':_getitem')],
     ['obj[key]', 'obj.get(key, default)'])
prop('C14', 'Nearest power / year lookup picks the nearest equation',
     'With use_nearest_power (use_nearest_year), a key name_<n>MW '
     '(name_<year>) that does not exist returns the equation of the same '
     'base name whose size (year) is nearest to the request; existing keys '
     'are returned as they are, base names must be equal as a whole, and '
     'keys of the other kind, or without any candidate, behave as without '
     'the option.',
     ['inputs', 'configurations'],
     'every set of sizes/years, names and requests',
     'Tests use one family of equations and a few requests.',
     [G], [('suffix parsing', G + ':parse_power/parse_year'),
           ('nearest', G + ':find_nearest_eqns')], ['group[key]'])
prop('C15', 'Interpolation and extrapolation are linear and bracketing',
     'With interp_extrap_power (interp_extrap_year), a missing name_<n>MW '
     '(name_<year>) key returns an equation whose value for any inputs lies '
     'on the line through the closest size (year) below and the closest '
     'above, or through the two closest if all lie on one side; with a '
     'single candidate that one is used; existing keys are not changed.',
     ['inputs', 'configurations'],
     'every set of sizes/years, requests and inputs',
     'Tests use one family and four requests.',
     [G], [('line', G + ':_getitem')], ['group[key].evaluate'])
prop('C16', 'Equation.variables is exactly the set of names read',
     'The variables of an Equation are exactly the names that evaluating it '
     'reads: no numbers in any notation, no numpy functions, no keyword '
     'names, no parts of names, each once and sorted; with values for '
     'exactly these it evaluates, without one it raises RuntimeError.',
     ['inputs'],
     'every expression text over the supported syntax',
     'Tests list the variables of a few texts; tokens are cut by regular '
     'expressions.',
     [E], [('tokenising', E + ':parse_variables')],
     ['Equation.variables', 'Equation.evaluate'])
prop('C17', 'Text with forbidden content is never evaluated',
     'Expression text that contains one of the forbidden fragments (import with a space, '
     'os., sys., .__, __., eval, exec) is refused with an error on every '
     'route by which text becomes an equation (Equation, arithmetic with '
     'text, replace_equation, groups, files, directories, merging, config '
     'entries, config pointers, numpy arguments), also in nested positions; '
     'text without them is accepted.',
     ['inputs', 'configurations'],
     'every text with a forbidden fragment, on every route',
     'Tests try one text on one route.',
     [E, G, D, C], [('preflight', E + ':_preflight')],
     ['constructors'])
prop('C18', 'A directory loads exactly its equation files',
     'An EquationDirectory has exactly one group per yaml, yml or json file '
     '(named without extension, also reachable with it) and one sub '
     'directory per directory that holds any; files of other types, hidden '
     'and __ entries and directories without equations are left out; a file '
     'that cannot be read or holds invalid equations is reported by an error '
     'and never skipped.',
     ['configurations'],
     'every directory tree',
     'Tests load the shipped tree and one bad file.',
     [D], [('loader', D + ':_parse_eqn_dir')], ['EquationDirectory(...)'])
prop('C19', 'Config pointers import the entry they name',
     'In a config file, an entry file::key stands for that entry of the other '
     'config file (path relative to the file that has the pointer, chains '
     'followed), and everything else means the same as when it is written '
     'out; missing files or keys, math in a pointer, and pointers in a '
     'config that is no file are refused.',
     ['configurations'],
     'every graph of config files and every pointer in it',
     'Tests have one pointer between two files.',
     [C, U], [('pointers', C + ':_load_config')], ['NrwalConfig(path)'])
prop('C20', 'Malformed configs, groups and variables are refused',
     'Entries that are neither text nor number, numeric names, unbalanced '
     'parentheses, square or curly brackets, variable files with anything but numbers, files that '
     'do not exist, have another extension or hold no mapping, and arguments '
     'of other types raise an error; well formed ones next to them load.',
     ['inputs', 'configurations'],
     'every malformed entry in every position',
     'Tests try some malformed entries in one position.',
     [C, G, D, U], [('checks', 'constructors of all handlers')],
     ['constructors'])
prop('C21', 'Evaluation is elementwise and coerces inputs faithfully',
     'Evaluating a config or equation with arrays (or a DataFrame) gives for '
     'each element what evaluating with that element\'s numbers gives, with '
     'numbers broadcast; ints, floats, numpy numbers, integer arrays and '
     '0-d arrays of equal value give equal results; inputs of other types '
     'are refused.',
     ['inputs'],
     'every config, array length and input representation',
     'Tests use arrays for a few equations and one type each.',
     [C, E], [('coercion', C + ':inputs'),
              ('coercion', E + ':_check_input_args')], ['evaluate()'])
prop('C22', 'The shipped libraries and default configs mean what they say',
     'Every directory of the analysis library that comes with NRWAL loads; '
     'every equation in it has exactly the inputs its text names, the '
     'defaults of its variables file and, for any inputs, the value its text '
     'means, also at sizes and years between and beyond the ones it lists; '
     'every default config constructs with that library, names its required '
     'inputs and evaluates, with numbers, arrays or a DataFrame, to what its '
     'expressions mean.',
     ['inputs', 'configurations'],
     'every shipped equation and default config, every inputs',
     'Tests compare a few shipped configs with stored numbers for fixed '
     'inputs and only load the others.',
     ['NRWAL/analysis_library', 'NRWAL/default_configs', E, G, D, C],
     [('libraries', 'NRWAL/analysis_library'),
      ('configs', 'NRWAL/default_configs')],
     ['EquationDirectory(NRWAL_ANALYSIS_DIR)', 'NrwalConfig(default)'])
prop('C23', 'Inspection tells the truth about the object',
     'keys, items, values, "in", all_equations, default_variables '
     'and the text form (str, repr, head, tail) of groups, directories, '
     'variable groups and configs agree with each other and with what '
     'retrieval returns; config [key], get and attribute access show the '
     'output if there is one and otherwise the expression.',
     ['inputs', 'histories'],
     'every object and every point of its history',
     'Tests look at a few shipped objects.',
     [G, D, C], [('dict protocol', 'keys/items/values/__contains__'),
                 ('text', '__str__/head/tail')], ['dict protocol'])
prop('C24', 'All routes to a library object give the same equation',
     'The same library equation reached by one path, step by step, by a path '
     'with file extensions, or from a config (directly, through a referenced '
     'group or directory, or a number of a variables file) has the same '
     'variables, values and defaults (plus the constants of the config).',
     ['inputs', 'configurations'],
     'every library, object in it and route',
     'Tests use one route per equation.',
     [G, D, C], [('paths', D + ':_getitem'), ('config paths',
                                             C + ':_parse_expression')],
     ['dir[path]', 'config outputs'])
prop('C25', 'Dictionary, yaml, yml and json forms are equivalent',
     'A config or group given as dictionary or as yaml, yml or json file with '
     'the same content behaves the same in every respect.',
     ['inputs', 'configurations'],
     'every content',
     'Tests compare two forms of one content.',
     [C, G, U], [('loading', U + ':Equation files'), ('loading', G)],
     ['constructors'])
prop('C26', 'Lookup options apply everywhere and configs override',
     'The four lookup options given to a directory or group hold for every '
     'group in it at any depth, also when reached step by step and after '
     'merging; options in a config win over the arguments of NrwalConfig, '
     'and each option only affects its own kind of key.',
     ['configurations'],
     'every combination of options, depth and route',
     'Tests set one option at a time on one level.',
     [G, D, C], [('options', 'constructors of all handlers')],
     ['obj[key]', 'config outputs'])
prop('C27', 'Copied and pickled objects are faithful and independent',
     'copy.deepcopy and pickle of an equation, group, directory or config '
     'give an object that behaves the same from then on, and neither affects '
     'the other.',
     ['histories'],
     'every object at every point of its history',
     'Tests never copy or pickle.',
     [E, G, D, C], [('attribute access', C + ':__getattr__')],
     ['copy.deepcopy', 'pickle'])

if __name__ == '__main__':
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda x: x['id']):
            f.write(json.dumps(p) + '\n')
    man = {'version': 1,
           'setup_cmd': 'python3 checks/setup.py',
           'checks': [], 'not_applicable': [],
           'notes': 'TLA+ specification in spec/, checked with TLC; no hooks '
                    'in /repo are needed, all observations are made through '
                    'the public API.'}
    for p in sorted(P, key=lambda x: x['id']):
        man['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 checks/run.py ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py '
                            + p['id'],
            'technique': 'TLA+ specification checked with TLC: '
                         'exhaustive design models whose behaviours are '
                         'replayed into the code, and trace validation of '
                         'recorded API sessions',
            'level': 'model_checking',
            'level_note': 'TLC decides every recorded call of generated API '
                          'sessions on the real code against the TLA+ '
                          'specification; exhaustive within the design '
                          'models, sampled for sessions; trusts TLC, numpy '
                          'and the driver that records the calls.'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
