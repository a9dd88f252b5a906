From 2ca038dc27493344de4c3359c276f3d79fad55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 01/54] fix: do not crash on bytes that are not valid in cp1252
 either

Lines that are not UTF-8 are reported and then decoded as cp1252, but
0x81, 0x8d, 0x8f, 0x90 and 0x9d do not exist there.
---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From e9979f79c3f7a490e7a7bce087e18a9a96af1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 02/54] fix: report an exten without a priority instead of
 crashing

---
 asterisklint/dialplan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..5236229 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -473,7 +473,11 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    E_DP_PRIO_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From f4fe0d45b1b948cb1eb22db3a5480ffc44f6231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 03/54] fix: pass the label to E_DP_LABEL_INVALID

The message could not be formatted, raising a KeyError on the first
label without a closing parenthesis.
---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 5236229..cbe6411 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -502,7 +502,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 1ec5c6db64422f7a0ff81331cd116cdf141ee162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 04/54] fix: pass the data to W_FUNC_DYNAMIC

The message could not be formatted, raising a KeyError on the first
dynamic function call.
---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..ebb9151 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -168,7 +168,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From a8b34b51d8bba828caaadce6fb1128d765c3874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 05/54] fix: report unclosed and empty ranges in patterns
 instead of crashing

---
 asterisklint/dialplan.py |  6 +++++-
 asterisklint/pattern.py  | 10 +++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index cbe6411..a8478b2 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -509,7 +509,11 @@ class DialplanVarset(object):
             else:
                 label = None
 
-            pattern = pattern and Pattern(pattern, varset.where) or None
+            try:
+                pattern = pattern and Pattern(pattern, varset.where) or None
+            except ValueError:
+                E_DP_PAT_INVALID(varset.where)
+                return None
             app = App(app, varset.where)
             return Extension(pattern, prio, label, app, varset.comment,
                              varset.where)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..d1b5838 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -139,12 +139,7 @@ class Pattern(object):
             elif num == 0x21:           # '!'
                 ret.append((0x28000,))
             elif num == 0x5b:           # '['
-                try:
-                    range_end = raw.index(0x5d)  # ']'
-                except IndexError:
-                    # TODO: raise error!
-                    ret.append((0x40000,))
-                    return ret
+                range_end = raw.index(0x5d)  # ']', or ValueError
                 ret.append(cls.parse_range_list(raw[0:range_end]))
                 raw = raw[(range_end + 1):]  # drop ']'
             else:
@@ -158,7 +153,8 @@ class Pattern(object):
     @classmethod
     def parse_range_list(cls, rawlist):
         "Takes list, returns number."""
-        # TODO: check empty list?
+        if not rawlist:
+            raise ValueError('empty range in pattern')
         # TODO: complain about backslashes?
         # TODO: warn on [-0-9] (prefer [0-9-])
         usedlist = []
-- 
2.43.0


From 93c70d2b2f21a53eaee91d5d15197d47577e7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 06/54] fix: do not crash on a write function without opening
 parenthesis

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index ebb9151..926add1 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -194,7 +194,7 @@ class FuncLoader(metaclass=Singleton):
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            func, args = func_and_args, ''
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From 1f0d8d92e2ed81baa46776de3ea4904a4442d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/54] fix: report an empty function name as missing instead
 of crashing

---
 asterisklint/varfun.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 926add1..e1a8594 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -137,7 +137,6 @@ class FuncLoader(metaclass=Singleton):
             if char == '(':
                 func = func_and_args[0:i]
                 break
-        assert func  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
-- 
2.43.0


From 06deb8c7b6ea9dc8a747f79790241c4771a37e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 08/54] fix: only pass decimals to int()

Characters like superscript two are digits, but int() refuses them.
---
 asterisklint/dialplan.py | 4 ++--
 asterisklint/varfun.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index a8478b2..20c7fec 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -450,7 +450,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -491,7 +491,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index e1a8594..92f92e3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -397,8 +397,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -409,8 +409,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From 34afcc2afda9363367e735542c9681f380b0349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 09/54] fix: do not crash when looking up extensions outside of
 latin1

---
 asterisklint/pattern.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index d1b5838..271bcc4 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -349,8 +349,14 @@ class Pattern(object):
         """
         Check if the extension matches this pattern.
         """
+        extension = extension.replace('-', '')
+        try:
+            extension = extension.encode('latin1')
+        except UnicodeEncodeError:
+            extension = extension.encode('utf-8')
+
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(extension):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From 8381dfe257cb7f23910921d46724e26f6da92ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 10/54] fix: do not crash on the empty variable or expression

The name of ${} and $[] is the empty string, so it must not be tested
for truth to see if there is a name at all.
---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..51283eb 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # this is a plain variable, it could match anything
             return True
 
         re_joined = ''.join(
@@ -168,13 +168,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -226,7 +226,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From 91c5275bc806f6cfb07db6a810d74f2290514bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 11/54] fix: no infinite loop on Goto/GotoIf with too many
 arguments

See also issue #41, where the same was fixed for Gosub.
---
 asterisklint/app/vall/builtin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..348abe1 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
+    E_APP_ARG_MANY,
     AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
@@ -73,7 +74,7 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
+        jumpdest = args[:3]
         while len(jumpdest) != 3:
             jumpdest.insert(0, None)
         assert len(jumpdest) == 3
@@ -90,6 +91,9 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
+                if len(jumpdest) > 3:
+                    E_APP_ARG_MANY(where, app=self.name, max_args=3)
+                    jumpdest = jumpdest[:3]
                 while len(jumpdest) != 3:
                     jumpdest.insert(0, None)
                 assert len(jumpdest) == 3
-- 
2.43.0


From c30b1b625a47ff5992795ef040557337f74a2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 12/54] fix: do not crash on a second general context

Contexts have no extend method. Add to the existing one instead.
---
 asterisklint/dialplan.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 20c7fec..b59084f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -118,9 +118,6 @@ class Dialplan(object):
     def add_general(self, general):
         if self._general:
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -592,7 +589,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From 23c2ccd38e42054eecce848286d8990acd55502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 13/54] fix: do not crash on a reopened context with a comment
 or templates

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 4e1bf8c918741bbddb832e5e4cd4bf48eebd6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 14/54] fix: do not crash on a Gosub label built from several
 parts

Slicing a Var may return a list.
---
 asterisklint/app/vall/app_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index c81db78..a0dad0e 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -62,7 +62,7 @@ class _GosubMixin:
                     args = prio[(i + 1):]
                 else:
                     args = prio[(i + 1):-1]
-                prio = prio[0:i]
+                prio = Var.join(prio[0:i])
                 break
 
         # FYI: The args are parsed by Asterisk using AST_STANDARD_RAW_ARGS.
-- 
2.43.0


From bc2539d2941b90d34c56517477e3c2837641cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 15/54] fix: report dynamic write functions instead of crashing

---
 asterisklint/varfun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 92f92e3..128096f 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -195,6 +195,11 @@ class FuncLoader(metaclass=Singleton):
             # argument."
             func, args = func_and_args, ''
 
+        if isinstance(func, Var):
+            # See process_read_function.
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
+
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
         loaded_func(args, where=where)
-- 
2.43.0


From 5cd55a843d1601419209f6d5b93ee16d6caf08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 16/54] fix: report recursive includes instead of reading
 forever

A file that includes itself, directly or through others, was read until
the file descriptors or the memory ran out.
---
 asterisklint/config.py |  7 ++++++-
 asterisklint/file.py   | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..4cdbebb 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -19,7 +19,7 @@ import os
 from .configobj import EmptyLine, Context, Varset
 from .configws import VerticalSpaceWarner
 from .defines import DupeDefMixin, ErrorDef, HintDef, WarningDef
-from .file import W_WSH_BOL
+from .file import RecursiveInclude, W_WSH_BOL
 
 
 if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
@@ -45,6 +45,9 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
         # values.
         message = 'duplicate context found, in some cases it is legal'
 
+    class E_PP_INCLUDE_RECURSIVE(ErrorDef):
+        message = 'the #include file {filename!r} is already being read'
+
     class W_PP_EXEC(WarningDef):
         message = 'using #exec is not recommended; command is {cmd!r}'
 
@@ -175,6 +178,8 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
+            except RecursiveInclude:
+                E_PP_INCLUDE_RECURSIVE(where, filename=rest)
             except OSError:
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 1006c56..4d4cbab 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -13,6 +13,8 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import os
+
 from .defines import ErrorDef, WarningDef
 from .where import Where
 
@@ -52,6 +54,10 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
         message = 'unexpected vertical space at end of file'
 
 
+class RecursiveInclude(ValueError):
+    pass
+
+
 class BinFileReader(object):
     """
     Reads the binary opened file fp, but may open more files with the
@@ -65,6 +71,10 @@ class BinFileReader(object):
         self._opener = opener
 
     def include(self, filename):
+        if os.path.realpath(filename) in (
+                os.path.realpath(i) for i in self._filenames):
+            raise RecursiveInclude(filename)
+
         fp = self._opener(filename)
 
         if hasattr(fp, 'mode'):
-- 
2.43.0


From 979110d353eaed2da2f3ef90a57222829edab30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 17/54] fix: no endless recursion when contexts include each
 other

---
 asterisklint/dialplan.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index b59084f..f227e3f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -281,10 +281,16 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_pattern(self, extension, priority, visited=None):
         """
         Find the best matching extension for the priority.
         """
+        # Look only once in every context, they may include each other.
+        visited = set() if visited is None else visited
+        if (self.name, extension) in visited:
+            return None
+        visited.add((self.name, extension))
+
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
@@ -311,7 +317,7 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority)
+                ret = context.match_pattern(extension, priority, visited)
                 if ret:
                     return ret
 
@@ -333,7 +339,7 @@ class DialplanContext(Context):
             # There is no clemency for non-existent labels, only for
             # non-existent priorities.
             if isinstance(priority, int):
-                return self.match_pattern('i', 1)
+                return self.match_pattern('i', 1, visited)
 
         return None
 
-- 
2.43.0


From d395566f374003182c1d8e28f970da86204bbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 18/54] fix: do not crash on a function name built from several
 parts

Slicing a Var may return a list.
---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 128096f..91d13a7 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -135,7 +135,7 @@ class FuncLoader(metaclass=Singleton):
         # SOURCE: main/pbx.c -- ast_func_read2, func_args
         for i, char in enumerate(func_and_args):
             if char == '(':
-                func = func_and_args[0:i]
+                func = Var.join(func_and_args[0:i])
                 break
 
         # Search backwards for the trailing ')'.
-- 
2.43.0


From cff21744241e7b4f12a11ccd10e16d19693419ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 19/54] fix: report an #include with a NUL character instead of
 crashing

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 4cdbebb..56f4f7d 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -180,7 +180,7 @@ class ConfigParser(object):
                                           rest))
             except RecursiveInclude:
                 E_PP_INCLUDE_RECURSIVE(where, filename=rest)
-            except OSError:
+            except (OSError, ValueError):  # ValueError if it contains NUL
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From e97434ad736ac1f87989c17eeb7347fecefede9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 20/54] fix: do not crash on a func_odbc function name with a
 NUL character

---
 asterisklint/func_odbc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..bc4bfac 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -236,8 +236,9 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
+        # (Type names must not contain NUL characters.)
         odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
+            self.get_function_name().replace('\0', ''), (FuncOdbcFunc,), {})
         FuncLoader().register(odbc_function_class())
 
 
-- 
2.43.0


From 50a8a406373aa79f87807f56d068993816355fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 21/54] fix: let the mutator follow relative and chained
 symlinks

readlink() returns a name relative to the directory of the symlink (not
to the working directory), and it may be another symlink, which would
be replaced by a regular file.
---
 asterisklint/helper/mutator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..f00ad6a 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -61,9 +61,9 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
+        if os.path.islink(filename):
+            disk_filename = os.path.realpath(filename)
+        else:
             disk_filename = filename
 
         # Place the tempfile in the same dir, so renaming works
-- 
2.43.0


From 142f1eaa3a4f85667d0ba5207a53332fa2359491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 22/54] fix: do not skip issues in the mutator if a file is
 included twice

The second issue for the same line was never reached, and all issues
after that one were silently left unfixed.
---
 asterisklint/helper/mutator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index f00ad6a..c46dcfc 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -56,8 +56,13 @@ class FileMutatorBase(object):
         print('Done')
 
     def process(self):
+        processed = set()
         for filename in self.filenames:
-            self.process_file(filename)
+            # A file may have been included by more than one name.
+            disk_filename = os.path.realpath(filename)
+            if disk_filename not in processed:
+                processed.add(disk_filename)
+                self.process_file(filename)
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
@@ -71,7 +76,11 @@ class FileMutatorBase(object):
         tempout = NamedTemporaryFile(
             dir=os.path.dirname(disk_filename), mode='wb', delete=False)
 
-        issues = self.issues_per_file[filename]
+        # Order the issues, and take one per line: the file may have been
+        # included more than once.
+        issues = dict(
+            (i.lineno, i) for i in reversed(self.issues_per_file[filename]))
+        issues = [issues[lineno] for lineno in sorted(issues)]
         try:
             issueptr = 0
             issue = issues[issueptr]
-- 
2.43.0


From fba084de603de1003a8eb52483037cb21e709ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 23/54] fix: sync the data to disk before replacing a config

A power loss shortly after the rename could leave an empty or partial
config.
---
 asterisklint/helper/mutator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index c46dcfc..80b4acc 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -102,6 +102,7 @@ class FileMutatorBase(object):
                     else:
                         tempout.write(line)
             tempout.flush()
+            os.fsync(tempout.fileno())
         except Exception:
             os.unlink(tempout.name)
             raise
-- 
2.43.0


From 35b8d5f32db257cdd0a00dbbf85670cfde5603a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 24/54] fix: do not leave temporary files next to the configs

The mutator did not clean up if it was interrupted, or if something
failed after the writing was done.
---
 asterisklint/helper/mutator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 80b4acc..8d1ebe9 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -103,12 +103,20 @@ class FileMutatorBase(object):
                         tempout.write(line)
             tempout.flush()
             os.fsync(tempout.fileno())
-        except Exception:
+        except BaseException:
             os.unlink(tempout.name)
             raise
         finally:
             tempout.close()
 
+        try:
+            self.replace_file(filename, disk_filename, tempout)
+        except BaseException:
+            if os.path.exists(tempout.name):
+                os.unlink(tempout.name)
+            raise
+
+    def replace_file(self, filename, disk_filename, tempout):
         # Update file permissions.
         srcstat = os.stat(tempout.name)
         dststat = os.stat(filename)
-- 
2.43.0


From f840b4460fd8e2a595dc2b060b6f74ad6470bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 25/54] fix: keep UTF-8 in canonical patterns

The UTF-8 bytes were decoded as latin1, so that correct patterns were
reported as non-canonical, with a garbled pattern as replacement.
---
 asterisklint/pattern.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 271bcc4..0d17bb6 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -205,25 +205,31 @@ class Pattern(object):
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                ret = self._canonical_pattern_decode(
+                    bytes((i[0] & 0xff) for i in self.values[1:]))
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                ret = self._canonical_pattern_decode(
+                    bytes((i[0] & 0xff) for i in self.values[1:-1]))
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
-                ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
+                ret = ('_' + self._canonical_pattern_decode(
+                    self._canonical_pattern_range(self.values[1:-1])))
             self._canonical_pattern = ret
         return self._canonical_pattern
 
+    @staticmethod
+    def _canonical_pattern_decode(binstr):
+        try:
+            return binstr.decode('utf-8')
+        except UnicodeDecodeError:
+            return binstr.decode('latin1')  # a range of partial characters
+
     def _canonical_pattern_range(self, values):
         common = {
             0xa30: 0x58,    # 'X'
-- 
2.43.0


From ebd08c03a4a4b84a74f484fbc3c556a2b87a0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 26/54] fix: do not report issues of earlier failed requests in
 the web interface

---
 web/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..eff6fec 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -118,6 +118,9 @@ class DialplanCheck:
         # > handler is provided for the application/json media type.
         filename = 'extensions.conf'
 
+        # A previous request may have failed before collecting its messages.
+        MessageDefManager.reset()
+
         # {"files": {"FILENAME": "FILEDATA"}}
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
-- 
2.43.0


From 7dfe9e4573d1b1dbe6c0626015c9bd94467452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 27/54] fix: make the ident-scan output independent of the hash
 seed

Names that differ in case only came in random order, which also changed
which other names they were compared to.
---
 asterisklint/commands/ident-scan.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/commands/ident-scan.py b/asterisklint/commands/ident-scan.py
index 454325b..6747d90 100644
--- a/asterisklint/commands/ident-scan.py
+++ b/asterisklint/commands/ident-scan.py
@@ -56,10 +56,10 @@ class Main(MainBase):
 
         contexts_by_name = list(sorted(
             (context.name for context in dialplan.contexts),
-            key=(lambda x: x.lower())))
+            key=(lambda x: (x.lower(), x))))
         # TODO: dialplan.all_labels is not a public interface..
         labels_by_name = list(sorted(
-            dialplan.all_labels, key=(lambda x: x.lower())))
+            dialplan.all_labels, key=(lambda x: (x.lower(), x))))
         # TODO: loader._variables is *not* a public interface..
         varlist_by_name = list(sorted(
             loader._variables.items(), key=(lambda x: x[0].lower())))
@@ -109,9 +109,9 @@ class Main(MainBase):
 
     def print_distance(self, identifiers):
         id_by_name = sorted(
-            identifiers, key=(lambda x: x.lower()))
+            identifiers, key=(lambda x: (x.lower(), x)))
         id_by_len = sorted(
-            identifiers, key=(lambda x: (len(x), x.lower())))
+            identifiers, key=(lambda x: (len(x), x.lower(), x)))
 
         similar = defaultdict(set)
         for id_list in (id_by_name, id_by_len):
@@ -138,7 +138,7 @@ class Main(MainBase):
         if similar:
             print('Identifiers with similar names include:')
             for identifier in sorted(
-                    similar.keys(), key=(lambda x: x.lower())):
+                    similar.keys(), key=(lambda x: (x.lower(), x))):
                 similar_to = ', '.join(sorted(similar[identifier]))
                 print('  {:32}  [similar to: {}]'.format(
                     identifier, similar_to))
-- 
2.43.0


From 771d55ad621beaaf3a544699e0f404a275db5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 28/54] fix: keep listing commands if one of them cannot be
 loaded

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..2f994da 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -73,7 +73,7 @@ def list_commands(args, envs):
                         try:
                             command = load_command(
                                 command_name, os.path.join(command_dir, file_))
-                        except NoSuchCommand as e:
+                        except (Exception, SystemExit) as e:
                             command_desc = '(error: {})'.format(e)
                         else:
                             try:
-- 
2.43.0


From 1f0b72cc2cbf6026235e4d54a22b9c53b26aac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 29/54] fix: only list commands that would be run as well

A directory or a dangling symlink does not hide the commands that come
later in the path.
---
 asterisklint/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 2f994da..34a8a77 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -67,7 +67,8 @@ def list_commands(args, envs):
             pass
         else:
             for file_ in files:
-                if file_.endswith('.py') and COMMAND_RE.match(file_[0:-3]):
+                if (file_.endswith('.py') and COMMAND_RE.match(file_[0:-3]) and
+                        os.path.isfile(os.path.join(command_dir, file_))):
                     command_name = file_[0:-3]
                     if command_name not in commands_used:
                         try:
-- 
2.43.0


From 697cfeebe708c6799626a653cc31c687128aed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 30/54] fix: no traceback for unknown commands

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 34a8a77..111cdb4 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -117,7 +117,7 @@ def load_command(command, command_path=None):
             if os.path.isfile(command_path):
                 break
         else:
-            raise ImportError('No dir found for command {!r}'.format(command))
+            raise NoSuchCommand('No dir found for command {!r}'.format(command))
 
     command_mod_name = 'asterisklint.commands.{}'.format(command)
 
-- 
2.43.0


From a9d7237cfe5b47233809998148d737ef1111c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 31/54] fix: close the files if reading them fails

---
 asterisklint/file.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index 4d4cbab..d2b00a9 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -85,15 +85,26 @@ class BinFileReader(object):
         self._filenames.append(fp.name)
 
     def __iter__(self):
+        try:
+            yield from self._read_lines()
+        except Exception:
+            while self._files:
+                self._close_last()
+            raise
+
+    def _close_last(self):
+        self._generators.pop()
+        self._filenames.pop()
+        fp = self._files.pop()
+        if hasattr(fp, 'close'):
+            fp.close()
+
+    def _read_lines(self):
         while self._generators:
             try:
                 i, line = next(self._generators[-1])
             except StopIteration:
-                if hasattr(self._files[-1], 'close'):
-                    self._files[-1].close()
-                self._files.pop()
-                self._generators.pop()
-                self._filenames.pop()
+                self._close_last()
             else:
                 yield Where(self._filenames[-1], i + 1, line), line
 
-- 
2.43.0


From bf7391735bc3aa1d2890b6b21e77ae94bb247110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 32/54] fix: choose the Background spelling anew for every
 dialplan

In the web interface, the first request ever decided which spelling was
right for all later requests.
---
 asterisklint/app/base.py         | 6 ++++++
 asterisklint/app/vall/builtin.py | 3 +++
 asterisklint/application.py      | 4 ++++
 asterisklint/dialplan.py         | 3 ++-
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index dc8596b..fd5a4a0 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -73,6 +73,12 @@ class AppBase(object):
         except ValueError:
             W_APP_BALANCE(where, data=str(data))
 
+    def new_dialplan(self):
+        """
+        Subclasses should forget what they learned from a previous dialplan.
+        """
+        pass
+
     def check_availability(self, supplied_name, where):
         if self.name == supplied_name:
             pass
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 348abe1..cf9c908 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -46,6 +46,9 @@ class Background(BuiltinAppBase):
     def name(self):
         return self.chosen_spelling or super().name
 
+    def new_dialplan(self):
+        self.chosen_spelling = None
+
     def check_availability(self, supplied_name, where):
         if not self.chosen_spelling and supplied_name in (
                 'Background', 'BackGround'):
diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..7ccfd9a 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -79,6 +79,10 @@ class AppLoader(metaclass=Singleton):
         self._used_apps.add(lower_app)
         return self._lower_apps[lower_app]
 
+    def new_dialplan(self):
+        for app in self._lower_apps.values():
+            app.new_dialplan()
+
     def register(self, app):
         lower_app = app.name.lower()
         self._lower_apps[lower_app] = app
diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index f227e3f..3b21d1d 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -13,7 +13,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from .application import App
+from .application import App, AppLoader
 from .config import ConfigAggregator, Context, Varset
 from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
@@ -584,6 +584,7 @@ class Extension(Varset):
 
 class DialplanAggregator(ConfigAggregator):
     def on_begin(self):
+        AppLoader().new_dialplan()
         self._dialplan = Dialplan()
         self._prevcontexts = {}
         self._curcontext = None
-- 
2.43.0


From df447548257a7b5d0369a9f14f196d3b0007c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 33/54] fix: clean up the temporary file if closing it fails

---
 asterisklint/helper/mutator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 8d1ebe9..0421795 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -103,6 +103,7 @@ class FileMutatorBase(object):
                         tempout.write(line)
             tempout.flush()
             os.fsync(tempout.fileno())
+            tempout.close()
         except BaseException:
             os.unlink(tempout.name)
             raise
-- 
2.43.0


From 8b9a4094e7229df8387bd323ce4557d82f563d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 34/54] fix: do not crash on an app name which is a variable

---
 asterisklint/application.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index 7ccfd9a..dd2af60 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -164,7 +165,7 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if self.raw.lower() != 'noop':
+            if not isinstance(app, Var) and app.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
@@ -174,6 +175,11 @@ class App(object):
         if data.startswith('(') and data.endswith(')'):
             data = data[1:-1]
 
+        # If the app name is dynamic (ExecIf(${x}?${app})), we cannot find
+        # a handler for it.
+        if isinstance(app, Var):
+            return False
+
         # Set it and try to find a handler for it.
         self.app = app
         self.app_lower = app.lower()
-- 
2.43.0


From 6b94bfd0136aa2367421ec4c01841a347335f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 35/54] fix: do not crash on the old form of ExecIf

---
 asterisklint/app/vall/app_exec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..bac59ee 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import AppBase, VarCondIfStyleApp
+from ...variable import Var
 
 # In the following commit -- between Asterisk 1.4 and Asterisk 1.6.x --
 # not only did the default App argument delimiter change from pipe (|)
@@ -46,6 +47,10 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
+        if isinstance(iftrue, list):
+            # The old <cond>,<app>,<args> form, which was complained about.
+            args = [i for arg in iftrue[1:] for i in (',', arg)][1:]
+            iftrue = Var.join([iftrue[0], '('] + args + [')'])
         if iftrue:
             App(iftrue, where=where)
         if iffalse:
-- 
2.43.0


From a1039aabeb13edf65a9f95345392be7e1af7d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 36/54] fix: keep memory addresses out of the messages

---
 asterisklint/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 51283eb..52de1ba 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -172,6 +172,10 @@ class Var(object):
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
+    def __repr__(self):
+        # No memory address: this may end up in a message.
+        return '<{} {!r}>'.format(self.__class__.__name__, str(self))
+
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
         if self.name is not None:
-- 
2.43.0


From 6a514fabe7ec143849e66de4a1d0c6bfed4d7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 37/54] fix: ExecIf without any arguments no longer stops the
 parser

---
 asterisklint/app/vall/app_exec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index bac59ee..2203a7d 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -47,7 +47,7 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if isinstance(iftrue, list):
+        if iftrue and isinstance(iftrue, list):
             # The old <cond>,<app>,<args> form, which was complained about.
             args = [i for arg in iftrue[1:] for i in (',', arg)][1:]
             iftrue = Var.join([iftrue[0], '('] + args + [')'])
-- 
2.43.0


From afee51a2edd6ab620cdbd839376ab09ec7be40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 38/54] fix: a slice with a variable start and a fixed length
 no longer stops the parser

---
 asterisklint/varfun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 91d13a7..fb1a049 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -419,7 +419,9 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
+                if length == 0 or (
+                        isinstance(start, int) and
+                        start < 0 and -length <= start):
                     length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
             else:
-- 
2.43.0


From 85600eff705cd5a83b151b8c6657153dea3bdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 39/54] fix: INC and DEC of a dynamic variable name no longer
 stop the parser

---
 asterisklint/func/vall/func_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..bdd5b1b 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import FuncBase
+from ...variable import Var
 from ...varfun import VarLoader
 
 
@@ -28,7 +29,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +41,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From 0f9cef939a382fa43efbcda74dfef61d21592b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 40/54] fix: a function result sliced from a variable start no
 longer stops the parser

---
 asterisklint/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 52de1ba..810ca5b 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -256,7 +256,8 @@ class SliceMixin(object):
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
+        # Only if they are not variable can we tell where we'll end up.
+        if isinstance(start, int) and isinstance(length, int):
             assert length != 0
             if length < 0:
                 self._endpos = length
-- 
2.43.0


From d9df5eadb755b57bf03aa7609edc6bc069a6f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 41/54] fix: a write to SET(), INC() or DEC() of variables no
 longer stops the parser

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index fb1a049..169639a 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -188,7 +188,7 @@ class FuncLoader(metaclass=Singleton):
         if '(' in func_and_args:
             func, args = func_and_args.split('(', 1)
             assert args[-1] == ')'  # FIXME: warn, don't raise
-            args = args[0:-1]
+            args = Var.join(args[0:-1])
         else:
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
-- 
2.43.0


From 75235146a5aa7fb316cff0bc58ad830e89dfe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 42/54] fix: report the templates of a dialplan context once

---
 asterisklint/configobj.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index ff6b6d5..05212fa 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -41,9 +41,11 @@ class Context(object):
         Use this on subclasses of Context.
         """
         assert not context._varsets
-        return cls(name=context.name, templates=context._templates,
-                   comment=context.comment, bolspace='',
-                   where=context.where, **kwargs)
+        # No bolspace and templates: the original has been reported already.
+        ret = cls(name=context.name, comment=context.comment,
+                  where=context.where, **kwargs)
+        ret._templates = context._templates
+        return ret
 
     def __init__(self, name, templates='', comment=False, bolspace='',
                  where=None):
-- 
2.43.0


From 064514de565f7ae4060cfe04d4bc04da9750666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 43/54] fix: close the other files if closing one after a
 failure fails

---
 asterisklint/file.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d2b00a9..7fec19d 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -88,10 +88,17 @@ class BinFileReader(object):
         try:
             yield from self._read_lines()
         except Exception:
-            while self._files:
-                self._close_last()
+            self._close_all()
             raise
 
+    def _close_all(self):
+        while self._files:
+            try:
+                self._close_last()
+            except Exception:
+                self._close_all()  # the others still have to be closed
+                raise
+
     def _close_last(self):
         self._generators.pop()
         self._filenames.pop()
-- 
2.43.0


From 2c233d036986bf7eff6a021837d9f3654d6d3999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 44/54] fix: do not look up the include names of uploaded files
 on disk

---
 asterisklint/file.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index 7fec19d..97fdccc 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -58,21 +58,32 @@ class RecursiveInclude(ValueError):
     pass
 
 
+def open_binary(filename):
+    return open(filename, 'rb')
+
+
 class BinFileReader(object):
     """
     Reads the binary opened file fp, but may open more files with the
     opener if an #include directive is encountered.
     """
-    def __init__(self, opener=(lambda filename: open(filename, 'rb'))):
+    def __init__(self, opener=open_binary):
         self._files = []
         self._generators = []
         self._filenames = []
 
         self._opener = opener
 
+    def _identify(self, filename):
+        # Only on disk there are links. Names that are none of ours are not
+        # looked up: they may come from anyone.
+        if self._opener is open_binary:
+            return os.path.realpath(filename)
+        return os.path.normpath(filename)
+
     def include(self, filename):
-        if os.path.realpath(filename) in (
-                os.path.realpath(i) for i in self._filenames):
+        if self._identify(filename) in (
+                self._identify(i) for i in self._filenames):
             raise RecursiveInclude(filename)
 
         fp = self._opener(filename)
-- 
2.43.0


From 54805fb7e2d1925159fab20bd10dc0c13fb1066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 45/54] fix: do not list a custom ls command, the builtin is
 run instead

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 111cdb4..53d049c 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -58,7 +58,7 @@ def list_commands(args, envs):
     List the available commands by browsing through your pythonpath and
     listing the commands inside 'asterisklint.commands'.
     """
-    commands_used = set()
+    commands_used = {'ls'}  # the builtin cannot be overridden
     commands = []
     for command_dir in list_command_dirs():
         try:
-- 
2.43.0


From 19a1ddfc068f200eafcd38d257aec42e270cb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 46/54] fix: do not run out of stack on absurdly nested
 variables and apps

A line with a thousand ${${${..}}} or with hundreds of ExecIf(1?ExecIf(1?..
ended the check with a RecursionError. Report a parse error instead.
---
 asterisklint/application.py | 18 +++++++++++++++---
 asterisklint/varfun.py      |  9 +++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index dd2af60..6535061 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -107,6 +107,9 @@ class App(object):
     # SPRINTF() voor >= 1.4 => behaviour Y
     #
     # Hoe pakken we dan app_compat settings voor Set? Hm.
+    MAX_DEPTH = 64
+    _depth = 0  # of the App that is being parsed
+
     def __init__(self, app, where):
         self.raw = app
         self.where = where
@@ -138,9 +141,18 @@ class App(object):
         # functions -- first:
         self.data = self.parse_inner(self.data)
 
-        # Run data through app.
-        app(self.data, where=self.where,
-            jump_destinations=self.jump_destinations)
+        # Run data through app. It may hold other apps (ExecIf), but no one
+        # nests them this deep: it keeps us off the stack limit.
+        if App._depth > self.MAX_DEPTH:
+            E_APP_PARSE_ERROR(self.where, app=self.app, args=self.data)
+            return
+
+        App._depth += 1
+        try:
+            app(self.data, where=self.where,
+                jump_destinations=self.jump_destinations)
+        finally:
+            App._depth -= 1
 
     def parse_inner(self, data):
         """
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 169639a..f3acb0e 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -225,6 +225,8 @@ class VarLoader(metaclass=Singleton):
     contained here with the variables only, because the functions are
     a special form of variables in asterisk.
     """
+    MAX_DEPTH = 64  # no one nests this deep; it keeps us off the stack limit
+
     def __init__(self):
         self._variables = defaultdict(list)
 
@@ -255,7 +257,7 @@ class VarLoader(metaclass=Singleton):
         # FIXME: record variable as used?
         del value
 
-    def parse_variables(self, data, where):
+    def parse_variables(self, data, where, depth=0):
         """
         Parse variables will loop over the data and extract all
         variables. This function mimic the behaviour of Asterisk
@@ -264,6 +266,9 @@ class VarLoader(metaclass=Singleton):
         """
         # SOURCE: main/pbx.c -- ast_str_substitute_variables_full
         # SOURCE: main/pbx.c -- pbx_substitute_variables_full
+        if depth > self.MAX_DEPTH:
+            raise VarParseError('Error in extension logic (too many levels)')
+
         ret = []
         beginpos = searchpos = 0
         while True:
@@ -286,7 +291,7 @@ class VarLoader(metaclass=Singleton):
                     inner_data = data[(pos + 2):(endpos - 1)]
                     if more_substitutions:
                         inner_data = self.parse_variables(
-                            inner_data, where)
+                            inner_data, where, depth + 1)
 
                     if next_ == '{':
                         inner_data = self._process_variable(
-- 
2.43.0


From 4523497ac27d7ce0437e108dac897bad5089528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 47/54] fix: do not recurse when looking up a jump through
 included contexts

With a chain of a thousand contexts that include one another, checking a
jump into the first ended with a RecursionError.
---
 asterisklint/dialplan.py | 45 +++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 3b21d1d..6d81db8 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -281,16 +281,31 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority, visited=None):
+    def match_pattern(self, extension, priority):
         """
-        Find the best matching extension for the priority.
+        Find the best matching extension for the priority, here or in the
+        included contexts.
         """
-        # Look only once in every context, they may include each other.
-        visited = set() if visited is None else visited
-        if (self.name, extension) in visited:
-            return None
-        visited.add((self.name, extension))
+        # Look only once in every context, they may include each other. And
+        # no recursion, because any number of contexts may be chained.
+        visited = set()
+        todo = [(self, extension, priority)]
+        while todo:
+            context, extension, priority = todo.pop()
+            if (context.name, extension) not in visited:
+                visited.add((context.name, extension))
+                found = context.match_own_pattern(extension, priority)
+                if found:
+                    return found
+                todo.extend(reversed(list(
+                    context.match_next(extension, priority))))
+
+        return None
 
+    def match_own_pattern(self, extension, priority):
+        """
+        Find the best matching extension for the priority in this context.
+        """
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
@@ -308,7 +323,13 @@ class DialplanContext(Context):
                             priority.could_match(exten.label)):
                         return exten
 
-        # Nothing? Try our includes.
+        return None
+
+    def match_next(self, extension, priority):
+        """
+        Yield where to look if there is no match in this context.
+        """
+        # Try our includes.
         for include in self.includes:
             try:
                 context = self.dialplan.get_context(include.context_name)
@@ -317,9 +338,7 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority, visited)
-                if ret:
-                    return ret
+                yield context, extension, priority
 
         # > If the location that is put into the channel
         # > information is bogus, and asterisk cannot find that
@@ -339,9 +358,7 @@ class DialplanContext(Context):
             # There is no clemency for non-existent labels, only for
             # non-existent priorities.
             if isinstance(priority, int):
-                return self.match_pattern('i', 1, visited)
-
-        return None
+                yield self, 'i', 1
 
     def add(self, extension):
         self._sorted_patterns = None
-- 
2.43.0


From 992986984ab3e727a16e5b76350e0bad2a8aa24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 48/54] fix: long whitespace takes quadratic time

A line of 64 kB with much whitespace kept the (single threaded) web
service busy for some twenty seconds.
---
 asterisklint/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 56f4f7d..dacf8bf 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -97,12 +97,12 @@ class ConfigParser(object):
              name=match.groups()[1], templates='',
              comment=comment, bolspace=match.groups()[0], where=where))),
         # object => value
-        (re.compile(r'^([^=]*?)(\s*=>\s*)(.*)$'),
+        (re.compile(r'^((?:[^=]*[^=\s])?)(\s*=>\s*)(.*)$'),
          (lambda comment, where, match: Varset(
              variable=match.groups()[0], value=match.groups()[2],
              separator=match.groups()[1], comment=comment, where=where))),
         # variable = value
-        (re.compile(r'^([^=]*?)(\s*=\s*)(.*)$'),
+        (re.compile(r'^((?:[^=]*[^=\s])?)(\s*=\s*)(.*)$'),
          (lambda comment, where, match: Varset(
              variable=match.groups()[0], value=match.groups()[2],
              separator=match.groups()[1], comment=comment, where=where))),
-- 
2.43.0


From ef4a7dbdf34f5337a2cae7f6c85c969eb74630ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 49/54] fix: keep the Background spelling of dialplans read at
 the same time apart

---
 asterisklint/app/base.py         |  9 ++++++---
 asterisklint/app/vall/builtin.py | 11 +++++++----
 asterisklint/application.py      | 10 +++++++---
 asterisklint/dialplan.py         |  3 ++-
 4 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index fd5a4a0..232a621 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -55,6 +55,8 @@ class AppOptions(AppArg):
 
 
 class AppBase(object):
+    loader = None  # the AppLoader it is registered with
+
     @property
     def name(self):
         return self.__class__.__name__
@@ -73,11 +75,12 @@ class AppBase(object):
         except ValueError:
             W_APP_BALANCE(where, data=str(data))
 
-    def new_dialplan(self):
+    @property
+    def memory(self):
         """
-        Subclasses should forget what they learned from a previous dialplan.
+        What subclasses learn from the dialplan that is being read.
         """
-        pass
+        return self.loader.memory if self.loader else {}
 
     def check_availability(self, supplied_name, where):
         if self.name == supplied_name:
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index cf9c908..3417a8f 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -40,15 +40,18 @@ class Background(BuiltinAppBase):
     # eyes sore. But, especially for those that prefer the "official"
     # syntax, we allow the first occurrence of the app to define the
     # future spelling.
-    chosen_spelling = None
+    @property
+    def chosen_spelling(self):
+        return self.memory.get('Background')
+
+    @chosen_spelling.setter
+    def chosen_spelling(self, supplied_name):
+        self.memory['Background'] = supplied_name
 
     @property
     def name(self):
         return self.chosen_spelling or super().name
 
-    def new_dialplan(self):
-        self.chosen_spelling = None
-
     def check_availability(self, supplied_name, where):
         if not self.chosen_spelling and supplied_name in (
                 'Background', 'BackGround'):
diff --git a/asterisklint/application.py b/asterisklint/application.py
index 6535061..307a6fc 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -41,6 +41,7 @@ class AppLoader(metaclass=Singleton):
     def __init__(self):
         self._lower_apps = {}
         self._used_apps = set()
+        self.memory = {}
 
         self.load_all()
 
@@ -80,11 +81,14 @@ class AppLoader(metaclass=Singleton):
         self._used_apps.add(lower_app)
         return self._lower_apps[lower_app]
 
-    def new_dialplan(self):
-        for app in self._lower_apps.values():
-            app.new_dialplan()
+    def select_dialplan(self, memory):
+        """
+        Have the apps use the memory of the dialplan that is read next.
+        """
+        self.memory = memory
 
     def register(self, app):
+        app.loader = self
         lower_app = app.name.lower()
         self._lower_apps[lower_app] = app
 
diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 6d81db8..bebc074 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -601,7 +601,7 @@ class Extension(Varset):
 
 class DialplanAggregator(ConfigAggregator):
     def on_begin(self):
-        AppLoader().new_dialplan()
+        self._memory = {}
         self._dialplan = Dialplan()
         self._prevcontexts = {}
         self._curcontext = None
@@ -627,6 +627,7 @@ class DialplanAggregator(ConfigAggregator):
         if not self._curcontext:
             E_CONF_CTX_MISSING(varset.where)
         elif isinstance(self._curcontext, DialplanContext):
+            AppLoader().select_dialplan(self._memory)
             dialplanvarset = DialplanVarset.from_varset(varset)
             if dialplanvarset:
                 self.on_dialplanvarset(dialplanvarset)
-- 
2.43.0


From 9f665f2682c12924576f141c42f197e75048027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 50/54] fix: report absurdly long numbers as invalid

---
 asterisklint/dialplan.py |  6 +++---
 asterisklint/varfun.py   | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index bebc074..bf813d1 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -19,7 +19,7 @@ from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
 from .defines import ErrorDef, WarningDef, HintDef, DupeDefMixin
 from .pattern import H_PAT_NON_CANONICAL, Pattern
-from .varfun import Var
+from .varfun import Var, is_number
 from .where import Where
 
 
@@ -470,7 +470,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdecimal():
+            if isinstance(g_prio, str) and is_number(g_prio):
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -511,7 +511,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdecimal():
+            elif is_number(prio):
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index f3acb0e..311eff4 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -73,6 +73,14 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 LEGAL_VAR_TOKENS = set(string.ascii_letters + string.digits + '_')
 
 
+# The largest number of digits that is still taken for a number.
+MAX_DIGITS = 18
+
+
+def is_number(text):
+    return text.isdecimal() and len(text) <= MAX_DIGITS
+
+
 class VarParseError(ValueError):
     pass
 
@@ -407,8 +415,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdecimal() or
-                    (start[0] == '-' and start[1:].isdecimal()))):
+                    is_number(start) or
+                    (start[0] == '-' and is_number(start[1:])))):
                 start = int(start)
             else:
                 start = length = None
@@ -419,8 +427,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdecimal() or
-                    (length[0] == '-' and length[1:].isdecimal()))):
+                    is_number(length) or
+                    (length[0] == '-' and is_number(length[1:])))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From 3075b7b3a96a919b9149f4a45afa459ca32517f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:56 +0000
Subject: [PATCH 51/54] fix: do not let a silent client block the web service

---
 web/wsgi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index eff6fec..493bb62 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -169,6 +169,10 @@ if __name__ == '__main__':
                 super().close()
 
     class MyWSGIRequestHandler(WSGIRequestHandler):
+        # We do one request at a time: do not let a client that is silent
+        # keep all others waiting.
+        timeout = 30
+
         def handle(self):
             """
             Handle a single HTTP request. Shamelessly copied from Python
-- 
2.43.0


From ffa8cfb30365ee6486f3f9ec35a09e944a8f9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:44 +0000
Subject: [PATCH 52/54] fix: do not rewrite files if the question could not be
 shown

---
 asterisklint/helper/mutator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 0421795..7bc2d35 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -45,7 +45,8 @@ class FileMutatorBase(object):
             return
 
         print('The following files have issues:')
-        print('  {}'.format('\n  '.join(self.filenames)))
+        # (Flush here: input() ignores that the output cannot be written.)
+        print('  {}'.format('\n  '.join(self.filenames)), flush=True)
         yesno = input('Update all [y/n] ? ')
 
         if yesno != 'y':
-- 
2.43.0


From 1dba5a3d0e52ed519a491bd21e003381449ffd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 53/54] fix: let vg accept a second [general] or [globals]

The other contexts are wiped by a later one of the same name as well;
an assertion error is no way to report it.
---
 contrib/commands/vg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 88a19df..8eaa500 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -170,10 +170,8 @@ class VoipgridFileDialplanParser(
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
         if context.name == 'general' and self._dialplan._general:
-            assert False, '[general] overridden?'
             self._dialplan._general = None
         elif context.name == 'globals' and self._dialplan._globals:
-            assert False, '[globals] overridden?'
             self._dialplan._globals = None
         elif context.name in self._prevcontexts:
             # Nasty. This is rather fragile, and doesn't even clean up
-- 
2.43.0


From 4996ff47f93076c5eeb6015329c94c9fa669a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:39 +0000
Subject: [PATCH 54/54] fix: do not rewrite what someone else has changed
 meanwhile

The line numbers are from before the question; if the file has been
edited since, other lines were converted, or none, and it was called a
success. Changes made during the rewrite itself were undone.
---
 asterisklint/helper/mutator.py     | 26 +++++++++++++++++++++++---
 contrib/convert_dp_104_to_1100.py  |  3 ++-
 contrib/make_patterns_canonical.py |  3 ++-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 7bc2d35..0339290 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -17,6 +17,10 @@ from tempfile import NamedTemporaryFile
 import os
 
 
+class FileChanged(ValueError):
+    pass
+
+
 class FileMutatorBase(object):
     """
     Base class that mutates config files. You override this and
@@ -34,6 +38,9 @@ class FileMutatorBase(object):
                     Issue(lineno=3, ...), Issue(lineno=5, ...)])
         mutator.print_summary()
         mutator.request_permission_and_process()
+
+    If the issues have a line attribute, files in which that is not what
+    is found on the line (anymore) are not touched.
     """
     def __init__(self, issues_per_file):
         self.issues_per_file = issues_per_file
@@ -86,8 +93,13 @@ class FileMutatorBase(object):
             issueptr = 0
             issue = issues[issueptr]
             with open(filename, 'rb') as file_:
+                instat = os.fstat(file_.fileno())
                 for lineno, line in enumerate(file_):
                     if issue and lineno == issue.lineno:
+                        # Has someone edited the file meanwhile?
+                        if getattr(issue, 'line', line) != line:
+                            raise FileChanged(filename)
+
                         # Do actual work on the issue.
                         self.process_issue(
                             issue=issue,
@@ -102,6 +114,8 @@ class FileMutatorBase(object):
                             issue = None
                     else:
                         tempout.write(line)
+            if issue:
+                raise FileChanged(filename)
             tempout.flush()
             os.fsync(tempout.fileno())
             tempout.close()
@@ -112,16 +126,16 @@ class FileMutatorBase(object):
             tempout.close()
 
         try:
-            self.replace_file(filename, disk_filename, tempout)
+            self.replace_file(filename, disk_filename, tempout, instat)
         except BaseException:
             if os.path.exists(tempout.name):
                 os.unlink(tempout.name)
             raise
 
-    def replace_file(self, filename, disk_filename, tempout):
+    def replace_file(self, filename, disk_filename, tempout, instat):
         # Update file permissions.
         srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
+        dststat = os.stat(disk_filename)
         if (srcstat.st_uid != dststat.st_uid or
                 srcstat.st_gid != dststat.st_gid):
             os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
@@ -129,6 +143,12 @@ class FileMutatorBase(object):
             os.chmod(tempout.name, dststat.st_mode)
 
         print('Overwriting', disk_filename, '...')
+        # Take a last look: do not undo what someone else did meanwhile.
+        outstat = os.lstat(disk_filename)
+        if any(getattr(instat, i) != getattr(outstat, i) for i in (
+                'st_dev', 'st_ino', 'st_mode', 'st_uid', 'st_gid',
+                'st_size', 'st_mtime_ns')):
+            raise FileChanged(filename)
         os.rename(tempout.name, disk_filename)
 
     def process_issue(self, issue, inline, outfile):
diff --git a/contrib/convert_dp_104_to_1100.py b/contrib/convert_dp_104_to_1100.py
index 199d854..8c43d6c 100755
--- a/contrib/convert_dp_104_to_1100.py
+++ b/contrib/convert_dp_104_to_1100.py
@@ -35,7 +35,7 @@ if True:
     from asterisklint.app.base import E_APP_ARG_IFSTYLE
 
 
-IfStyleError = namedtuple('IfStyleError', 'lineno app data cond args')
+IfStyleError = namedtuple('IfStyleError', 'lineno line app data cond args')
 
 
 class Aggregator(object):
@@ -47,6 +47,7 @@ class Aggregator(object):
         self.issues_per_file[message.where.filename].append(
             IfStyleError(
                 lineno=(message.where.lineno - 1),  # 0-based
+                line=message.where.line,
                 app=message.fmtkwargs['app'],
                 data=message.fmtkwargs['data'],
                 cond=message.fmtkwargs['cond'],
diff --git a/contrib/make_patterns_canonical.py b/contrib/make_patterns_canonical.py
index 5cb19b3..fc8978b 100755
--- a/contrib/make_patterns_canonical.py
+++ b/contrib/make_patterns_canonical.py
@@ -34,7 +34,7 @@ if True:
     from asterisklint.pattern import H_PAT_NON_CANONICAL
 
 
-Replacement = namedtuple('Replacement', 'lineno needle replacement')
+Replacement = namedtuple('Replacement', 'lineno line needle replacement')
 
 
 class Aggregator(object):
@@ -46,6 +46,7 @@ class Aggregator(object):
         self.issues_per_file[message.where.filename].append(
             Replacement(
                 lineno=(message.where.lineno - 1),  # 0-based
+                line=message.where.line,
                 needle=message.fmtkwargs['pat'].encode('utf-8'),
                 replacement=message.fmtkwargs['expected'].encode('utf-8')))
 
-- 
2.43.0

