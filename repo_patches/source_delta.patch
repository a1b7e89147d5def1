From 647dd96f7ca60298d8be738c925596c472b3b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 01/46] fix: raise the whole negative number to a power in
 Equation arithmetic

Equation(-2) ** 2 was built as the text '-2 ** 2', which python reads as
-(2 ** 2).
---
 NRWAL/handlers/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..b539411 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -144,6 +144,10 @@ class Equation:
         if not self.is_num(arg2) and not self.is_variable(arg2):
             arg2 = '({})'.format(arg2)
 
+        # unary minus binds weaker than ** in python: -2 ** 2 is -4
+        if operator == '**' and arg1.strip().startswith(('-', '+')):
+            arg1 = '({})'.format(arg1)
+
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
         new_str = '({} {} {})'.format(self, operator, other)
         def_vars = copy.deepcopy(self._default_variables)
-- 
2.43.0


From 0227a481959d29602d781b422d05cee05c32c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 02/46] fix: only treat whole tokens as scientific notation
 numbers

A digit followed by an e inside a name (co2emissions) was cut out of the
name, .5e-3 left a variable called '.', and a numeric config entry that
prints in scientific notation (1e-05) crashed with AttributeError.
---
 NRWAL/handlers/equations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index b539411..49e0641 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -392,10 +392,9 @@ class Equation:
         """Parse variable names from an expression string."""
 
         # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        re_num = re.compile(r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)'
+                            r'[eE][-+]?[0-9]+')
+        expression = re_num.sub('-1', str(expression))
 
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-- 
2.43.0


From fa5a914657e5115f110dd84080214c3b3d366eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 03/46] fix: split variable names on commas and comparisons
 without spaces

np.where(a>b,a,b) was parsed as the variables 'a' and 'b,a,b', and the name
after an unspaced >= was lost.
---
 NRWAL/handlers/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 49e0641..c2a9817 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -396,7 +396,8 @@ class Equation:
                             r'[eE][-+]?[0-9]+')
         expression = re_num.sub('-1', str(expression))
 
-        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+        delimiters = ('>=', '<=', '==', '!=', ',',
+                      '*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From 0d5a0ee44e63f2c7a6174b7320b86f69d27fe0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 04/46] fix: do not drop variables named like dict methods

__builtins__ is a dict in an imported module, so dir(__builtins__) lists the
methods of dict and variables called values, items, copy, ... were never
reported as inputs of an equation.
---
 NRWAL/handlers/equations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index c2a9817..ec04d1d 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -355,8 +355,8 @@ class Equation:
 
     @staticmethod
     def is_method(s):
-        """Check if a string is a numpy/pandas or python builtin method"""
-        return bool(s.startswith(('np.', 'pd.')) or s in dir(__builtins__))
+        """Check if a string is a numpy/pandas method"""
+        return bool(s.startswith(('np.', 'pd.')))
 
     @classmethod
     def is_variable(cls, s):
-- 
2.43.0


From 6be5b012891fc1b9a451db2e62c254f3730015fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 05/46] fix: give each Equation its own default variables

The dictionary passed to Equation (or shared by replace_equation) was later
modified in place by set_default_variables.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index ec04d1d..4d02c96 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,7 +31,7 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
+        self._default_variables = copy.deepcopy(default_variables)
         if self._default_variables is None:
             self._default_variables = {}
 
-- 
2.43.0


From 86a041ccebd80fc142536b9bdca585b37f3e8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 06/46] fix: substitute only whole names when inserting local
 group equations

An equation 'np.exp(x)' in a group that defines x became 'np.e(2)p((2))',
and the name of a sub group raised AttributeError.
---
 NRWAL/handlers/groups.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..be6c8fb 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -750,9 +750,13 @@ class EquationGroup(AbstractGroup):
             for group_key, eqn in group.items():
                 if not isinstance(eqn, Equation):
                     continue
-                for var in [v for v in eqn.variables if v in group]:
+                for var in [v for v in eqn.variables
+                            if isinstance(group.get(v), Equation)]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    # only replace whole names, e.g. not the x in np.exp
+                    pattern = r'(?<![\w.:]){}(?![\w.:])'.format(re.escape(var))
+                    new_eqn = re.sub(pattern, lambda _, r=repl_str: r,
+                                     eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From 759b715e2c313ebdec331432647ed1f78fc21174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 07/46] fix: names that end in _MW without a number are not
 power equations

One key such as total_MW in a group made every power lookup in that group
fail with ValueError: could not convert string to float.
---
 NRWAL/handlers/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index be6c8fb..6c78252 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -382,7 +382,7 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
             base_str = key.replace(power.group(0), '')
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
-- 
2.43.0


From 71ca9f2f3d521ab2b1f565a238fb7676dd450388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 08/46] fix: raise KeyError for unknown keys when
 interp_extrap_power is set

'and' binds tighter than 'or', so with interp_extrap_power every key without
two neighbors failed with a ValueError from unpacking.
---
 NRWAL/handlers/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6c78252..fd80162 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -240,7 +240,7 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
+            elif ((self._interp_extrap_power or self._interp_extrap_year)
                     and len(nn_eqns) > 1):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
-- 
2.43.0


From 811267141c963ca646de1dc39ef657b4680f25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 09/46] fix: interpolate between the values that bracket the
 request

With 3MW, 6MW and 15MW available, a request for 8MW was extrapolated from
3MW and 6MW because those are the two nearest values.
---
 NRWAL/handlers/groups.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index fd80162..d5dffea 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -242,8 +242,12 @@ class AbstractGroup(ABC):
 
             elif ((self._interp_extrap_power or self._interp_extrap_year)
                     and len(nn_eqns) > 1):
-                x1, x3 = nn_values[0:2]
-                y1, y3 = nn_eqns[0:2]
+                # interpolate towards the nearest value on the other side of
+                # the request, only extrapolate if there is none
+                x1, y1 = nn_values[0], nn_eqns[0]
+                i3 = next((i for i, x in enumerate(nn_values)
+                           if (x > eqn_value) != (x1 > eqn_value)), 1)
+                x3, y3 = nn_values[i3], nn_eqns[i3]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
                 if not any(out.variables):
                     out = Equation(out.eval())
-- 
2.43.0


From 0caec21ba98105cd6413b36a313314e55e5ca519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 10/46] fix: left associative - and / in retrieval keys with
 embedded math

group['a - b - c'] was evaluated as a - (b - c) and group['a / b / c'] as
a / (b / c).
---
 NRWAL/handlers/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index d5dffea..09196d6 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -176,7 +176,12 @@ class AbstractGroup(ABC):
 
         for op_str, op_fun in op_map.items():
             if op_str in key:
-                split_keys = key.partition(op_str)
+                # - and / are left associative: a - b - c is (a - b) - c
+                if op_str in ('-', '/'):
+                    split_keys = key.rpartition(op_str)
+                else:
+                    split_keys = key.partition(op_str)
+
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-- 
2.43.0


From ea1f27a19fb48f4bcde2574efefff36c23215300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 11/46] fix: do not leak variables.yaml defaults into sibling
 directories

set_default_variables updated the namespace it was passed, so the defaults of
one sub directory were handed to every sibling that sorts after it (e.g. the
marine_energy, osw_2015 and osw_2019 variables to osw_2022 and osw_2023).
---
 NRWAL/handlers/directories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..9af90b1 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -534,8 +534,8 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # local copy, updates must not leak to the caller or sibling directories
+        var_group = {} if var_group is None else copy.deepcopy(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
-- 
2.43.0


From 91b90e9f7f470b13f14b04e3bd93f9c96a5b58cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 12/46] fix: adding groups or directories must not modify the
 right operand

The sum shared its objects with the right operand, so setting default
variables on the sum also set them on the operand.
---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 9af90b1..efbb3b1 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 09196d6..244b536 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From e65ad804cc391e53f453ab8f7bdb4469d3d20954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 13/46] fix: raise KeyError for key paths that lead below an
 equation

'group::eqn::bad' raised TypeError, so get() did not return its default, and a
number in a path ('group::2030') was returned as a constant equation.
---
 NRWAL/handlers/directories.py | 5 ++++-
 NRWAL/handlers/groups.py      | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index efbb3b1..0b3c889 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -348,11 +348,14 @@ class EquationDirectory:
         eqns = self._eqns
         for ikey in keys:
             try:
+                if not hasattr(eqns, 'keys') or (Equation.is_num(ikey)
+                                                 and ikey not in eqns):
+                    raise KeyError(ikey)
                 eqns = eqns[ikey]
             except KeyError:
                 msg = ('Could not retrieve equation key "{}", '
                        'could not find "{}" in last available keys: {}'
-                       .format(key, ikey, list(eqns.keys())))
+                       .format(key, ikey, list(getattr(eqns, 'keys', list)())))
                 # debug log statement to avoid unnecessary stdout
                 logger.debug(msg)
                 raise KeyError(msg)
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 244b536..b327097 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -239,6 +239,13 @@ class AbstractGroup(ABC):
         keys = [str(k) for k in keys]
         out = self._group
         for eqn_key in keys:
+            if not hasattr(out, 'keys'):
+                msg = ('Could not retrieve equation key "{}", '
+                       'there is nothing to find "{}" in.'
+                       .format(key, eqn_key))
+                logger.error(msg)
+                raise KeyError(msg)
+
             nn_eqns, nn_values, eqn_value = \
                 self._get_nn_eqns_values(eqn_key, keys, out)
 
-- 
2.43.0


From 7982d2e2911e7337a9fca19652dc1278fa36cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 14/46] fix: do not modify the config dictionary passed in by
 the user

NrwalConfig removed the settings from the input dictionary and replaced its
expressions with Equation objects, so it could not be used a second time.
---
 NRWAL/handlers/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..a50919e 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -299,6 +299,10 @@ class NrwalConfig:
 
         config_dir = None
 
+        if isinstance(config, dict):
+            # the config is modified below, leave the user input as it is
+            config = copy.deepcopy(config)
+
         if isinstance(config, str):
             if not os.path.exists(config):
                 msg = 'Cannot find config file path: {}'.format(config)
-- 
2.43.0


From 713a587c44d2d6f2ddc4cc520d11a46500147bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 15/46] fix: do not rename an equation that is shared with
 other config entries

Two config entries that reference the same library equation shared one object
and both printed the name of the last entry.
---
 NRWAL/handlers/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a50919e..64fd3f4 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -550,6 +550,8 @@ class NrwalConfig:
                 out = Equation(expression)
 
         if isinstance(out, Equation) and name is not None:
+            # the same equation can be used under more than one name
+            out = copy.deepcopy(out)
             out._base_name = name
             out._str = None
         if isinstance(out, (Equation, EquationGroup)):
-- 
2.43.0


From 2a3d68317b77afc921cf39200f55592220535c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 16/46] fix: keep parenthetical statements out of the default
 variables

Every parenthetical statement was copied into the default variables of the
next ones, so parsing time and memory doubled with each pair of parentheses.
---
 NRWAL/handlers/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 64fd3f4..349ae36 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -554,10 +554,14 @@ class NrwalConfig:
             out = copy.deepcopy(out)
             out._base_name = name
             out._str = None
+
+        # gvars is also the workspace for parenthetical statements
+        defaults = {k: v for k, v in gvars.items()
+                    if not isinstance(v, Equation)}
         if isinstance(out, (Equation, EquationGroup)):
-            out.set_default_variables(gvars)
+            out.set_default_variables(defaults)
         elif isinstance(out, EquationDirectory):
-            out.set_default_variables(gvars, force_update=True)
+            out.set_default_variables(defaults, force_update=True)
 
         return out
 
-- 
2.43.0


From a26ee32b3a285bf7e42250550c2703dd0da137be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 17/46] fix: allow config references to an already parsed
 directory entry

'dir: osw_2015' followed by 'eqn: dir::array::fixed' failed with TypeError
while the reverse order worked.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 349ae36..4dad6e8 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -519,7 +519,8 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup)):
+        if isinstance(expression, (Equation, EquationGroup,
+                                   EquationDirectory)):
             out = expression
 
         elif Equation.is_num(expression):
-- 
2.43.0


From f4d1764987a9819f1e7a80cebfb7bb725d3d4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 18/46] fix: raise AttributeError for unknown NrwalConfig
 attributes

KeyError from __getattr__ broke hasattr(), copy.deepcopy() and pickle.
---
 NRWAL/handlers/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 4dad6e8..b2ffb5e 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -745,7 +745,14 @@ class NrwalConfig:
         out : int | float | np.ndarray | Equation
             Requested data prioritized from the outputs then the config.
         """
-        return self[attr]
+        if attr in ('_outputs', '_config'):
+            # not yet initialized, e.g. when unpickling
+            raise AttributeError(attr)
+
+        try:
+            return self[attr]
+        except KeyError as e:
+            raise AttributeError(attr) from e
 
     def __str__(self):
         s = ['NrwalConfig object with equation directory: "{}"'
-- 
2.43.0


From cc69290cc8d253956c64e7efbeb6e62472363511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 19/46] fix: do not keep rejected inputs in the NrwalConfig

Inputs of a bad type raised an error but were stored nevertheless, so all
following evaluations failed too.
---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index b2ffb5e..ceb43c0 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -803,6 +803,7 @@ class NrwalConfig:
             self._inputs = {}
 
         elif isinstance(arg, (dict, pd.DataFrame)):
+            new = {}
             if isinstance(arg, dict):
                 keys = arg.keys()
             elif isinstance(arg, pd.DataFrame):
@@ -820,7 +821,10 @@ class NrwalConfig:
                 elif isinstance(v, int):
                     v = float(v)
 
-                self._inputs[k] = v
+                new[k] = v
+
+            # check before the update so that bad inputs are not kept
+            self._inputs.update(Equation._check_input_args(new))
 
         else:
             msg = ('Cannot set inputs as datatype "{}". '
@@ -828,8 +832,6 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
-        Equation._check_input_args(self._inputs)
-
     @property
     def outputs(self):
         """Get the outputs dictionary.
-- 
2.43.0


From aac7a6b488f6b94dc352e7837b34269024879052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:05 +0000
Subject: [PATCH 20/46] fix: accept empty and zero dimensional arrays as inputs

The inputs setter failed with IndexError on v[0].
---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index ceb43c0..cba3f52 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -816,7 +816,7 @@ class NrwalConfig:
                     v = arg[k].values.flatten()
 
                 if isinstance(v, np.ndarray):
-                    if Equation.is_num(v[0]):
+                    if v.ndim and v.size and Equation.is_num(v[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
                     v = float(v)
-- 
2.43.0


From 1b480830d2847c8231ec0bfd0b85d66c0f04223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:04 +0000
Subject: [PATCH 21/46] fix: left associative operators and signs in config
 expressions

a - b - c was parsed as a - (b - c) and a / b / c as a / (b / c), and signs
were mistaken for operators in -a - b - c, a * -b - c, -a * -b and 1e-5 * a.
---
 NRWAL/handlers/config.py | 69 ++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index cba3f52..4d1d146 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -10,6 +10,7 @@ import yaml
 import json
 import os
 import operator
+import re
 from collections import OrderedDict
 
 from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR, find_np_pd_methods
@@ -629,44 +630,25 @@ class NrwalConfig:
         op_map['^'] = operator.pow
 
         out = None
-        expr = expression.replace('**', '^')
+        expr = expression.replace('**', '^').strip()
         for ops, fun in op_map.items():
             if ops in expr:
                 # need to break look on the first found operator because
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
 
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
+                iop = cls._find_operator(expr, ops)
 
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
+                if iop is None and ops == '-' and expr[0] == ops:
+                    # leading minus sign (negative number)
+                    out = cls._parse_expression_part(expr[1:].strip(), config,
+                                                     eqn_dir, gvars)
                     out = Equation(-1) * out
                     break
 
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
-
-                else:
+                elif iop is not None:
                     # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
+                    v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
                     out1 = cls._parse_expression_part(v1, config, eqn_dir,
                                                       gvars)
                     out2 = cls._parse_expression_part(v2, config, eqn_dir,
@@ -681,6 +663,39 @@ class NrwalConfig:
 
         return out
 
+    @staticmethod
+    def _find_operator(expr, ops):
+        """Find where to split an expression without parentheses. Operations
+        are left associative so this is the last occurrence of the operator,
+        except for the right associative power operator.
+
+        Parameters
+        ----------
+        expr : str
+            Expression without parentheses and with ^ as the power operator.
+        ops : str
+            Operator to look for, one of + - * / ^
+
+        Returns
+        -------
+        iop : int | None
+            Index of the operator in expr. None if ops is only found as the
+            sign of a number or variable (e.g. -var, a * -var, 1e-5).
+        """
+        # signs in the exponent of a number (1e-5) are not operators
+        re_num = r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)[eE][-+][0-9]+'
+        expr = re.sub(re_num, lambda m: '0' * len(m.group()), expr)
+
+        # an operator at the start or after another operator is a sign
+        inds = [i for i, c in enumerate(expr) if c == ops
+                and expr[:i].strip()
+                and expr[:i].strip()[-1] not in '+-*/^']
+
+        if not any(inds):
+            return None
+
+        return inds[0] if ops == '^' else inds[-1]
+
     @classmethod
     def _parse_expression_part(cls, expr_part, config, eqn_dir, gvars):
         """Parse a part of an expression that contains arithmetic ops
-- 
2.43.0


From 5308f15e15d47f5a672d01a5d7a9a4147623968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:34 +0000
Subject: [PATCH 22/46] fix: accept a leading plus sign in config expressions

a * +b and +a failed to parse.
---
 NRWAL/handlers/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 4d1d146..6bd84ca 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -639,7 +639,12 @@ class NrwalConfig:
 
                 iop = cls._find_operator(expr, ops)
 
-                if iop is None and ops == '-' and expr[0] == ops:
+                if iop is None and ops == '+' and expr[0] == ops:
+                    # leading plus sign
+                    return cls._parse_expression_part(expr[1:].strip(), config,
+                                                      eqn_dir, gvars)
+
+                elif iop is None and ops == '-' and expr[0] == ops:
                     # leading minus sign (negative number)
                     out = cls._parse_expression_part(expr[1:].strip(), config,
                                                      eqn_dir, gvars)
-- 
2.43.0


From 2fb2e437e98c4c521f85684a29dbd02bb1b62590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:41 +0000
Subject: [PATCH 23/46] fix: find the parentheses that belong to a numpy or
 pandas method

The first parentheses in the expression were used, so (a + b) * np.exp(c)
and 1 + (a + np.exp(c)) could not be parsed.
---
 NRWAL/utilities/utilities.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..5a64a3e 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -3,7 +3,7 @@
 NRWAL utilities module.
 """
 import os
-import numpy as np
+import re
 
 
 NRWAL_DIR = os.path.dirname(os.path.dirname(os.path.dirname(
@@ -62,16 +62,12 @@ def find_np_pd_methods(s):
         Starting and ending indices of the first np. or pd. method. So if
         s="10 + np.exp(input)" then s[start:end]="np.exp(input)"
     """
-    start = 0
-    if 'np.' not in s and 'pd.' not in s:
+    method = re.search(r'(?<![\w.])(np|pd)\.[\w.]+\s*\(', s)
+    if method is None:
         return None, None
-    elif 'np.' in s:
-        start = s.index('np.')
-    elif 'pd.' in s:
-        start = s.index('pd.')
-
-    paren_ind = find_parens(s)
-    np_paren = np.argmin([x[0] for x in paren_ind])
-    end = paren_ind[np_paren][1]
+
+    # the end of the parenthesis that belongs to the method
+    start = method.start()
+    end = [x[1] for x in find_parens(s) if x[0] == method.end() - 1][0]
 
     return start, end
-- 
2.43.0


From 9a2161e6963e1fcc3bf4fab7977465c5d9ba84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:47 +0000
Subject: [PATCH 24/46] fix: allow operators in the arguments of numpy methods
 in a config

np.exp(a + b) and np.exp(-a) ended in a RecursionError.
---
 NRWAL/handlers/config.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 6bd84ca..ac421aa 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -611,9 +611,14 @@ class NrwalConfig:
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
-            if 'np.' not in pk and 'pd.' not in pk:
-                pk = pk.lstrip('(').rstrip(')')
-
+            if pk.startswith(('np.', 'pd.')):
+                # methods are evaluated by python, do not split them further
+                defaults = {k: v for k, v in gvars.items()
+                            if not isinstance(v, Equation)}
+                gvars[wkey] = Equation(pk, default_variables=defaults)
+                continue
+
+            pk = pk.lstrip('(').rstrip(')')
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
                                                 gvars, name=name)
 
-- 
2.43.0


From 3d087825351baff53ab6099400a6e126f522db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:52 +0000
Subject: [PATCH 25/46] fix: re-evaluate the NrwalConfig when it is evaluated
 again

A second call to evaluate() with new inputs returned the outputs of the
first call.
---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index ac421aa..983a26f 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1032,6 +1032,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # do not keep outputs from previous inputs
+        self._outputs = {}
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From 5c502576b261ae6e19892ba7a20eba49a2798ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:47 +0000
Subject: [PATCH 26/46] fix: inputs always overwrite constants set in the
 config

The value of a constant expression in the config (e.g. x: 2 * 3) was used
instead of the input x by equations that come after it in the config.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 983a26f..245f5f6 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1044,7 +1044,8 @@ class NrwalConfig:
                 elif isinstance(v, Equation):
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
-                    kwargs.update(self._outputs)
+                    kwargs.update({x: y for x, y in self._outputs.items()
+                                   if x not in self.global_variables})
 
                     try:
                         self._outputs[k] = v.evaluate(**kwargs)
-- 
2.43.0


From c1f065c9e5978ecdb9cfb7d5b379bb6cce80ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:54 +0000
Subject: [PATCH 27/46] fix: evaluate config entries after the entries they
 depend on

An expression like np.max(x) could only be evaluated if the config entry x
came before it in the config.
---
 NRWAL/handlers/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 245f5f6..5c9c59a 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1041,6 +1041,11 @@ class NrwalConfig:
                 if (isinstance(v, (EquationGroup, EquationDirectory))
                         or Equation.is_num(v)):
                     pass
+                elif (isinstance(v, Equation)
+                        and any(x in self.to_be_solved and x != k
+                                for x in v.variables)):
+                    # depends on an entry that is solved in a later iteration
+                    pass
                 elif isinstance(v, Equation):
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
-- 
2.43.0


From fa90e34ce6439ca1dfb6adcd2f5c7e64b0552e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 28/46] fix: inputs with the name of the config entry that uses
 them

An input variable of a library equation that is used under the same name in
the config was not reported as required input, and was replaced by the output
if the config needed more than one iteration.
---
 NRWAL/handlers/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5c9c59a..d01c1ad 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -910,11 +910,11 @@ class NrwalConfig:
         """
 
         names = []
-        for eqn in self.values():
+        for key, eqn in self.items():
             if isinstance(eqn, Equation):
                 names += [v for v in eqn.variables
                           if v not in self.global_variables
-                          and v not in self._config
+                          and (v not in self._config or v == key)
                           and v not in eqn.default_variables]
 
         return sorted(list(set(names)))
@@ -1050,7 +1050,8 @@ class NrwalConfig:
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update({x: y for x, y in self._outputs.items()
-                                   if x not in self.global_variables})
+                                   if x not in self.global_variables
+                                   and x != k})
 
                     try:
                         self._outputs[k] = v.evaluate(**kwargs)
-- 
2.43.0


From 2f5de6e4cd09ec419a77bed4df0af3e19ace11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:05 +0000
Subject: [PATCH 29/46] fix: evaluate a config that only has constant
 expressions

{'x': '2 * 3'} evaluated to an empty dictionary, while x is part of the
outputs as soon as there is another equation in the config.
---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index d01c1ad..ae92aac 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1036,7 +1036,7 @@ class NrwalConfig:
         self._outputs = {}
 
         i = 0
-        while not self.solved:
+        while i == 0 or not self.solved:
             for k, v in self.items():
                 if (isinstance(v, (EquationGroup, EquationDirectory))
                         or Equation.is_num(v)):
-- 
2.43.0


From e99286d93eab206bc59a2be62b71fe7067e511d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:11 +0000
Subject: [PATCH 30/46] fix: allow variables from a variables.yaml in config
 expressions

The retrieved number was not converted to an Equation like other numbers in
the config, so variables::x * 2 failed with a TypeError.
---
 NRWAL/handlers/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index ae92aac..37d0f75 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -551,6 +551,10 @@ class NrwalConfig:
             except KeyError:
                 out = Equation(expression)
 
+        if isinstance(out, (int, float)):
+            # variable from a variables.yaml file
+            out = Equation(out, name=name)
+
         if isinstance(out, Equation) and name is not None:
             # the same equation can be used under more than one name
             out = copy.deepcopy(out)
-- 
2.43.0


From bdc9402345b4cb18d4c2c740b4aee33f2b730c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:15 +0000
Subject: [PATCH 31/46] fix: force updates of default variables in all lower
 level directories

force_update only reached the first level below the directory.
---
 NRWAL/handlers/directories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 0b3c889..99b0699 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -550,7 +550,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From 674a82be894691171f9bc33b1bfa3161fae51c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 32/46] fix: only remove the suffix from power and year
 equation names

rep_2015_2015 has the base name rep_2015, but all occurrences of the suffix
were removed so that it was treated as a neighbor of rep_2020.
---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index b327097..0087751 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -400,7 +400,7 @@ class AbstractGroup(ABC):
         base_str = key
         power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -507,7 +507,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From bf21de8fb195367dfbaa818a2415ad784bb80c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 33/46] fix: do not let one interp_extrap flag affect the other
 kind of key

With use_nearest_power and interp_extrap_year, power based equations were
interpolated instead of using the nearest one.
---
 NRWAL/handlers/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 0087751..dd2c5dc 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -252,8 +252,9 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif ((self._interp_extrap_power or self._interp_extrap_year)
-                    and len(nn_eqns) > 1):
+            elif len(nn_eqns) > 1 and (self._interp_extrap_power
+                                       if self.is_power_eqn(eqn_key)
+                                       else self._interp_extrap_year):
                 # interpolate towards the nearest value on the other side of
                 # the request, only extrapolate if there is none
                 x1, y1 = nn_values[0], nn_eqns[0]
-- 
2.43.0


From 0425d2eaed1e06edaf70af777ccf693ebd4af1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:16 +0000
Subject: [PATCH 34/46] fix: ignore spaces around parentheses in keys and
 config expressions

A retrieval key like '(a + b) ' returned None and ( group::eqn ) * 2 could not
be evaluated.
---
 NRWAL/handlers/config.py | 6 +++---
 NRWAL/handlers/groups.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 37d0f75..1d17aac 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -622,12 +622,12 @@ class NrwalConfig:
                 gvars[wkey] = Equation(pk, default_variables=defaults)
                 continue
 
-            pk = pk.lstrip('(').rstrip(')')
+            pk = pk.lstrip('(').rstrip(')').strip()
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
                                                 gvars, name=name)
 
-        if expression in gvars:
-            return gvars[expression]
+        if expression.strip() in gvars:
+            return gvars[expression.strip()]
 
         # order of operator map enforces order of operations
         op_map = OrderedDict()
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index dd2c5dc..850406f 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -154,7 +154,7 @@ class AbstractGroup(ABC):
         op_map['*'] = operator.mul
         op_map['/'] = operator.truediv
         op_map['^'] = operator.pow
-        key = key.replace('**', '^')
+        key = key.replace('**', '^').strip()
 
         if any(c in key for c in ('[', ']', '{', '}')):
             msg = ('Cannot parse EquationGroup key with square or curly '
@@ -168,7 +168,7 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
+            pk = pk.lstrip('(').rstrip(')').strip()
             workspace[wkey] = obj._getitem(pk, workspace)
 
         if key in workspace:
-- 
2.43.0


From c49622d75a4e6d3bb9a268411404a21d02ec08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:21 +0000
Subject: [PATCH 35/46] fix: accept parentheses around parentheses in keys and
 config expressions

---
 NRWAL/handlers/config.py | 8 ++++++--
 NRWAL/handlers/groups.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 1d17aac..ba2eb3c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -623,8 +623,12 @@ class NrwalConfig:
                 continue
 
             pk = pk.lstrip('(').rstrip(')').strip()
-            gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
-                                                gvars, name=name)
+            if isinstance(gvars.get(pk, None), Equation):
+                # parentheses around something that is already parsed
+                gvars[wkey] = gvars[pk]
+            else:
+                gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
+                                                    gvars, name=name)
 
         if expression.strip() in gvars:
             return gvars[expression.strip()]
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 850406f..1291ce7 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -169,7 +169,11 @@ class AbstractGroup(ABC):
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
             pk = pk.lstrip('(').rstrip(')').strip()
-            workspace[wkey] = obj._getitem(pk, workspace)
+            if pk in workspace:
+                # parentheses around something that is already retrieved
+                workspace[wkey] = workspace[pk]
+            else:
+                workspace[wkey] = obj._getitem(pk, workspace)
 
         if key in workspace:
             return workspace[key]
-- 
2.43.0


From eb25198f1324310cc6cf20a37cc2f32449ca368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:37 +0000
Subject: [PATCH 36/46] fix: keep default variables of a number in parentheses
 in config expressions

---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index ba2eb3c..a7b217f 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -741,7 +741,7 @@ class NrwalConfig:
         if out is None:
             out = cls._parse_expression(expr_part, config, eqn_dir, gvars,
                                         name=expr_part)
-        elif Equation.is_num(out):
+        elif not isinstance(out, Equation):
             out = Equation(out, name=expr_part)
         return out
 
-- 
2.43.0


From 90f9b3c219a9b83fe603d9091455ddf8e5a32a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:53 +0000
Subject: [PATCH 37/46] fix: find variables that are values of keyword
 arguments

---
 NRWAL/handlers/equations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 4d02c96..252fe91 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -396,6 +396,9 @@ class Equation:
                             r'[eE][-+]?[0-9]+')
         expression = re_num.sub('-1', str(expression))
 
+        # names of keyword arguments are not variables but their values can be
+        expression = re.sub(r'(?<![\w.])[A-Za-z_]\w*\s*=(?!=)', ' ', expression)
+
         delimiters = ('>=', '<=', '==', '!=', ',',
                       '*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-- 
2.43.0


From 5ad6fbfb598d67fb53eae259e056f96402d13318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:00 +0000
Subject: [PATCH 38/46] fix: convert numpy integer inputs to float like other
 integers

---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 252fe91..da62002 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -83,7 +83,7 @@ class Equation:
             if isinstance(v, np.ndarray):
                 if np.issubdtype(v.dtype, np.integer):
                     kwargs[k] = v.astype(np.float32)
-            elif isinstance(v, int):
+            elif isinstance(v, (int, np.integer)):
                 kwargs[k] = float(v)
 
         return kwargs
-- 
2.43.0


From e3c61ead811e9de8cb70f8c1ab97aa8de3445f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:35 +0000
Subject: [PATCH 39/46] fix: find variables next to the ^ operator, also for
 circular references

---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index da62002..ab2910c 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -400,7 +400,7 @@ class Equation:
         expression = re.sub(r'(?<![\w.])[A-Za-z_]\w*\s*=(?!=)', ' ', expression)
 
         delimiters = ('>=', '<=', '==', '!=', ',',
-                      '*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+                      '*', '/', '+', '-', '^', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From d7ad85494b835d66349c5ec4d9bbacd86b1ea759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:15 +0000
Subject: [PATCH 40/46] fix: evaluate configs with dependency chains longer
 than 100 entries

---
 NRWAL/handlers/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a7b217f..8b25b96 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1092,7 +1092,9 @@ class NrwalConfig:
                     raise TypeError(msg)
 
             i += 1
-            if i > 100:
+            # every iteration solves at least one entry unless there is a
+            # circular dependency
+            if i > len(self._config) and not self.solved:
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From bed049677256b69d66f16966c41322ec9661eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:21 +0000
Subject: [PATCH 41/46] fix: accept tabs and line breaks in equations

---
 NRWAL/handlers/equations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index ab2910c..f28e58c 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -363,7 +363,8 @@ class Equation:
         """Check if a string is a variable name without any constants,
         operators, or arithmetic expressions"""
         flags = ('(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',
-                 '<', '>', '=', '\\', '|', '&', '$', '@', '-')
+                 '<', '>', '=', '\\', '|', '&', '$', '@', '-',
+                 '\t', '\n', '\r')
         if cls.is_num(s):
             return False
         elif any(f in s for f in flags):
@@ -400,7 +401,8 @@ class Equation:
         expression = re.sub(r'(?<![\w.])[A-Za-z_]\w*\s*=(?!=)', ' ', expression)
 
         delimiters = ('>=', '<=', '==', '!=', ',',
-                      '*', '/', '+', '-', '^', ' ', '(', ')', '[', ']', '>', '<')
+                      '*', '/', '+', '-', '^', ' ', '(', ')', '[', ']', '>', '<',
+                      '\t', '\n', '\r')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From a4a3b45bbd83be2ab37634fe927a76d5272685a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:18 +0000
Subject: [PATCH 42/46] fix: report circular references that do not start at
 the first entry

---
 NRWAL/handlers/config.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 8b25b96..9853313 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -393,7 +393,7 @@ class NrwalConfig:
 
     @classmethod
     def _check_circ_ref(cls, orig_name, expression, config, current_name=None,
-                        msg=None):
+                        msg=None, visited=None):
         """Check the config for circular variable references that would result
         in a recursion error.
 
@@ -411,18 +411,25 @@ class NrwalConfig:
             The current equation name in the recursive search.
         msg : str
             The error message to be printed if a circular reference is found.
+        visited : set | None
+            Equation names that are already part of the recursive search.
         """
 
         if current_name is None:
             current_name = orig_name
 
+        if visited is None:
+            visited = set()
+
         if msg is None:
             msg = ('Found a circular reference with NRWAL equations: {}'
                    .format(orig_name))
         else:
             msg += ' -> {}'.format(current_name)
 
-        all_vars = Equation.parse_variables(expression)
+        # "group_key::sub_key" is a reference to group_key
+        all_vars = [var.partition('::')[0]
+                    for var in Equation.parse_variables(expression)]
 
         if orig_name in all_vars:
             msg += (', and ending with expression "{}": {}'
@@ -431,9 +438,11 @@ class NrwalConfig:
             raise RuntimeError(msg)
 
         for var in all_vars:
-            if var in config:
+            if var in config and var not in visited:
+                visited.add(var)
                 cls._check_circ_ref(orig_name, config[var], config,
-                                    current_name=var, msg=msg)
+                                    current_name=var, msg=msg,
+                                    visited=visited)
 
     @classmethod
     def _parse_config(cls, config, eqn_dir, gvars):
-- 
2.43.0


From de1a4855d8105c03a0c074a7cc83ceb4878eb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:02 +0000
Subject: [PATCH 43/46] fix: a config entry that reads an input of its own name
 is referred to by value

Other entries that used it in arithmetic got its equation, in which the
input's name then meant the value of the entry.
---
 NRWAL/handlers/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 9853313..13a6e3e 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -546,6 +546,10 @@ class NrwalConfig:
             # Direct reference to object in the config
             out = cls._parse_expression(config[expression], config,
                                         eqn_dir, gvars, name=name)
+            if isinstance(out, Equation) and expression in out.variables:
+                # reads an input that has the name of the entry, which
+                # means the value of the entry everywhere else
+                out = Equation(expression)
 
         elif '::' in expression and expression.split('::')[0] in config:
             # Syntax for expression referencing group: "group_key::sub_key"
-- 
2.43.0


From 5cd3e3f139dee73dc6b2b0dc890e970b39496609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:03 +0000
Subject: [PATCH 44/46] fix: the text form of an equation shows its current
 default variables

---
 NRWAL/handlers/equations.py | 45 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index f28e58c..e4b1fc9 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -273,29 +273,28 @@ class Equation:
         return str(self)
 
     def __str__(self):
-        if self._str is None:
-            if self.is_num(self._eqn) and not any(self.variables):
-                self._str = str(self._eqn)
-
-            else:
-                vars_str = [v for v in self.variables
-                            if v not in self.default_variables]
-                vars_str = str(vars_str).replace('[', '').replace(']', '')\
-                    .replace("'", '').replace('"', '')
-
-                gvars_str = [v for v in self.variables
-                             if v in self.default_variables]
-                for gvar in gvars_str:
-                    base_str = ', ' if bool(vars_str) else ''
-                    kw_str = '{}={}'.format(gvar, self.default_variables[gvar])
-                    vars_str += base_str + kw_str
-
-                if self._base_name is None:
-                    self._str = 'Equation({})'.format(vars_str)
-                else:
-                    self._str = '{}({})'.format(self._base_name, vars_str)
-
-        return self._str
+        if self._str is not None:
+            return self._str
+
+        if self.is_num(self._eqn) and not any(self.variables):
+            return str(self._eqn)
+
+        vars_str = [v for v in self.variables
+                    if v not in self.default_variables]
+        vars_str = str(vars_str).replace('[', '').replace(']', '')\
+            .replace("'", '').replace('"', '')
+
+        gvars_str = [v for v in self.variables
+                     if v in self.default_variables]
+        for gvar in gvars_str:
+            base_str = ', ' if bool(vars_str) else ''
+            kw_str = '{}={}'.format(gvar, self.default_variables[gvar])
+            vars_str += base_str + kw_str
+
+        if self._base_name is None:
+            return 'Equation({})'.format(vars_str)
+
+        return '{}({})'.format(self._base_name, vars_str)
 
     def __contains__(self, arg):
         return arg in self._eqn
-- 
2.43.0


From 70c2c5a072e2a885706e24b1917ee24d3a853933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 45/46] fix: retrieve parts of a library whose own name ends
 like that of a file

A directory called old.yaml (or a file old.yaml.json) is listed in keys() but
could not be retrieved, the extension was always removed from the key.
---
 NRWAL/handlers/directories.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 99b0699..1d77734 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -341,12 +341,12 @@ class EquationDirectory:
         else:
             keys = [key]
 
-        keys = [str(k) if not str(k).endswith(('.json', '.yml', '.yaml'))
-                else os.path.splitext(str(k))[0]
-                for k in keys]
-
         eqns = self._eqns
         for ikey in keys:
+            if (str(ikey).endswith(('.json', '.yml', '.yaml'))
+                    and ikey not in getattr(eqns, 'keys', list)()):
+                ikey = os.path.splitext(str(ikey))[0]
+
             try:
                 if not hasattr(eqns, 'keys') or (Equation.is_num(ikey)
                                                  and ikey not in eqns):
-- 
2.43.0


From 090788982be62649f4d2ffc1bb0f45cc822efb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 46/46] fix: look up nearest sizes and years when the last key
 of a path repeats an earlier key

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 1291ce7..3657e02 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -242,7 +242,7 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for level, eqn_key in enumerate(keys):
             if not hasattr(out, 'keys'):
                 msg = ('Could not retrieve equation key "{}", '
                        'there is nothing to find "{}" in.'
@@ -251,7 +251,7 @@ class AbstractGroup(ABC):
                 raise KeyError(msg)
 
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[level:], out)
 
             if eqn_key in out:
                 out = out[eqn_key]
-- 
2.43.0

