From ad4e93ca4daf46fdc3c1f1c84b5d8fc51a4bcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 01/76] fix: report a missing priority instead of crashing on
 'exten => s'

---
 asterisklint/dialplan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..5236229 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -473,7 +473,11 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    E_DP_PRIO_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 6cc031f0dbf07d97d71a194743bc3a1479a4eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:16 +0000
Subject: [PATCH 02/76] fix: pass the label to E_DP_LABEL_INVALID, it crashed
 while formatting

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 5236229..cbe6411 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -502,7 +502,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 5e2b0f174e7c515c74a4bc327c1cceb1d2a3ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 03/76] fix: merge a second [general] context instead of
 crashing on it

---
 asterisklint/dialplan.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index cbe6411..0b70699 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -118,9 +118,7 @@ class Dialplan(object):
     def add_general(self, general):
         if self._general:
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
+            # don't save, further varsets are added to the first one
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -588,7 +586,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From 1f6a225065ffdcb87aa125e304fbc812f48c6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 04/76] fix: accept comments and templates on a reopened
 context header

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From c67e0d96f3e5a397ce72b0224339804ca8b85480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:37 +0000
Subject: [PATCH 05/76] fix: recognise template names longer than one character

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..5dae3f4 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -84,7 +84,7 @@ class ConfigParser(object):
 
     regexes = (
         # [context](template1,template2)
-        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)\+])\)$'),
+        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)\+]+)\)$'),
          (lambda comment, where, match: Context(
              name=match.groups()[1], templates=match.groups()[2],
              comment=comment, bolspace=match.groups()[0], where=where))),
-- 
2.43.0


From 2af97789d5f6681d01185cdc913257bb1b995849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 06/76] fix: report template use once, not twice, for dialplan
 contexts

---
 asterisklint/configobj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index ff6b6d5..8f471bd 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -41,9 +41,12 @@ class Context(object):
         Use this on subclasses of Context.
         """
         assert not context._varsets
-        return cls(name=context.name, templates=context._templates,
-                   comment=context.comment, bolspace='',
-                   where=context.where, **kwargs)
+        # We have reported the bolspace and the templates already.
+        ret = cls(name=context.name, templates='',
+                  comment=context.comment, bolspace='',
+                  where=context.where, **kwargs)
+        ret._templates = context._templates
+        return ret
 
     def __init__(self, name, templates='', comment=False, bolspace='',
                  where=None):
-- 
2.43.0


From 4323abdba521725f193ad74dad372c23ecfd4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 07/76] fix: handle unclosed and empty character sets in
 patterns

---
 asterisklint/dialplan.py |  4 +++-
 asterisklint/pattern.py  | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 0b70699..3b419dd 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -622,7 +622,9 @@ class DialplanAggregator(ConfigAggregator):
         assert isinstance(self._curcontext, DialplanContext)
         if isinstance(dialplanvarset, Extension):
             pattern = dialplanvarset.pattern
-            if pattern and not pattern.is_canonical:
+            if pattern and not pattern.is_valid:
+                E_DP_PAT_INVALID(dialplanvarset.where)
+            elif pattern and not pattern.is_canonical:
                 H_PAT_NON_CANONICAL(
                     dialplanvarset.where, pat=pattern.raw,
                     expected=pattern.canonical_pattern)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..3e55ac8 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -141,9 +141,9 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
-                    # TODO: raise error!
+                except ValueError:
                     ret.append((0x40000,))
+                    ret.append((0x30000,))
                     return ret
                 ret.append(cls.parse_range_list(raw[0:range_end]))
                 raw = raw[(range_end + 1):]  # drop ']'
@@ -158,9 +158,11 @@ class Pattern(object):
     @classmethod
     def parse_range_list(cls, rawlist):
         "Takes list, returns number."""
-        # TODO: check empty list?
         # TODO: complain about backslashes?
         # TODO: warn on [-0-9] (prefer [0-9-])
+        if not rawlist:
+            return (0x40000,)
+
         usedlist = []
         while len(rawlist) >= 3:
             if rawlist[1] == 0x2d:  # rawlist[0] '-' rawlist[2]
@@ -196,6 +198,13 @@ class Pattern(object):
 
         return (num,)
 
+    @property
+    def is_valid(self):
+        """
+        Whether the pattern is free of malformed character sets.
+        """
+        return (0x40000,) not in self.values
+
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
@@ -208,7 +217,10 @@ class Pattern(object):
     @property
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
-            if self.values[0] == self.NOT_A_PATTERN:
+            if not self.is_valid:
+                # There is no better form for something that is broken.
+                ret = self.raw
+            elif self.values[0] == self.NOT_A_PATTERN:
                 # Hrm.. latin1 here.. not so nice.
                 ret = bytes((i[0] & 0xff)
                             for i in self.values[1:]).decode('latin1')
@@ -340,7 +352,7 @@ class Pattern(object):
                     ret.append('0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
                     ret.append('-123456789-333')  # 0+ chars
-                elif value[0] == 0x30000:
+                elif value[0] in (0x30000, 0x40000):
                     pass  # ignore
                 else:
                     ret.append(chr(value[0] & 0xff))
-- 
2.43.0


From 977ca9537f96203085ee9301b4aa7487505fb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:04 +0000
Subject: [PATCH 08/76] fix: do not match extensions that are longer than the
 pattern

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 3e55ac8..f75d00a 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -372,8 +372,10 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
+            elif value[0] == 0x30000:
+                return False  # extension is longer than pattern
             elif len(value) == 2:
                 if char not in value[1]:
                     return False
-- 
2.43.0


From 667868de60e1951a61294398dd160d5012421b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 09/76] fix: use utf-8 consistently when comparing and printing
 patterns

---
 asterisklint/pattern.py | 43 ++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index f75d00a..535ea72 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -208,12 +208,20 @@ class Pattern(object):
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-            # Strip dashes from the raw version.
-            raw_no_dash = ''.join(self.RE_NO_DASH.findall(self.raw))
             # Compare the dashless version with the canonical one.
-            self._is_canonical = (raw_no_dash == self.canonical_pattern)
+            self._is_canonical = (
+                self._raw_without_dashes() == self.canonical_pattern)
         return self._is_canonical
 
+    def _raw_without_dashes(self):
+        return ''.join(self.RE_NO_DASH.findall(self.raw))
+
+    @staticmethod
+    def _decode(values):
+        # The reverse of bytes(raw, 'utf-8'). We may be looking at half
+        # a character, so keep any stray bytes.
+        return bytes(values).decode('utf-8', 'surrogateescape')
+
     @property
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
@@ -221,22 +229,24 @@ class Pattern(object):
                 # There is no better form for something that is broken.
                 ret = self.raw
             elif self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                ret = self._decode((i[0] & 0xff) for i in self.values[1:])
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                ret = self._decode((i[0] & 0xff) for i in self.values[1:-1])
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
-                ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
+                try:
+                    ret = ('_' + self._canonical_pattern_range(
+                        self.values[1:-1]).decode('utf-8'))
+                except UnicodeDecodeError:
+                    # Multibyte characters in a set: we cannot reorder
+                    # those bytes into anything legible.
+                    ret = self._raw_without_dashes()
             self._canonical_pattern = ret
         return self._canonical_pattern
 
@@ -345,28 +355,29 @@ class Pattern(object):
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] in (0x30000, 0x40000):
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return self._decode(ret)
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        extension = extension.replace('-', '')
+        for i, char in enumerate(extension.encode('utf-8', 'surrogateescape')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From 2629d697f884b61a25c558c17ad9ccf262c32534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 10/76] fix: keep the canonical form equivalent for odd
 characters in patterns

---
 asterisklint/pattern.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 535ea72..0067c9f 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -70,7 +70,7 @@ class Pattern(object):
     NOT_A_PATTERN = 0
     IS_A_PATTERN = 1
 
-    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^][-]+)')
+    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^-])')
 
     # Pattern heeft equality tests zodat "s-zap" == "s-[1-9]ap", maar emit
     # wel een warning als je hier iets anders neerzet! (Zelfde verhaal
@@ -233,8 +233,12 @@ class Pattern(object):
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
-            elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
-                    self.values[-1] == (0x30000,)):
+            # Beware: without the leading underscore a dash is ignored,
+            # and we do not want to introduce another underscore.
+            elif (len(self.values) > 2 and
+                    self.values[1] != (0x15f,) and  # '_'
+                    (0x12d,) not in self.values and  # '-'
+                    all(i[0] < 0x200 for i in self.values[1:-1])):
                 ret = self._decode((i[0] & 0xff) for i in self.values[1:-1])
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
@@ -258,7 +262,7 @@ class Pattern(object):
             0x18000: 0x2e,  # '.'
             0x28000: 0x21,  # '!'
         }
-        special = set([0x21, 0x2d, 0x2e,  # '!', '-', '.'
+        special = set([0x21, 0x2d, 0x2e, 0x5b,  # '!', '-', '.', '['
                        0x4e, 0x58, 0x5a, 0x6e, 0x78, 0x7a])  # NnXxZz
 
         ret = []
@@ -281,7 +285,7 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3:
+                        elif length == 3 and start + 1 != 0x5d:  # not ']'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -299,9 +303,7 @@ class Pattern(object):
         dash = (0x2d in binstr)
         if dash:
             binstr.remove(0x2d)
-        if (0x5d in binstr):
-            binstr.remove(0x5d)
-            ret.append(0x5d)
+        # A ']' can only be in here if it is in the middle of a range.
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -312,7 +314,7 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3:
+                if length <= 3 and range_[0] + 1 != 0x5d:
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From 03e05178299d1dcc327bc7fff8b58e51eceec602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 11/76] fix: do not recurse endlessly on circular dialplan
 includes

---
 asterisklint/dialplan.py | 47 ++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 3b419dd..82eaf79 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -282,9 +282,10 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def _match_own_pattern(self, extension, priority):
         """
-        Find the best matching extension for the priority.
+        Find the best matching extension for the priority, in this
+        context only.
         """
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
@@ -303,18 +304,36 @@ class DialplanContext(Context):
                             priority.could_match(exten.label)):
                         return exten
 
-        # Nothing? Try our includes.
-        for include in self.includes:
-            try:
-                context = self.dialplan.get_context(include.context_name)
-            except KeyError:
-                # TODO: An include that does not exist. We should
-                # warn about that somewhere else.
-                pass
-            else:
-                ret = context.match_pattern(extension, priority)
-                if ret:
-                    return ret
+        return None
+
+    def with_includes(self):
+        """
+        Return this context and all contexts included by it, directly or
+        indirectly; every context once.
+        """
+        contexts = [self]
+        for context in contexts:
+            for include in context.includes:
+                try:
+                    included = self.dialplan.get_context(include.context_name)
+                except KeyError:
+                    # TODO: An include that does not exist. We should
+                    # warn about that somewhere else.
+                    pass
+                else:
+                    if included not in contexts:
+                        contexts.append(included)
+        return contexts
+
+    def match_pattern(self, extension, priority):
+        """
+        Find the best matching extension for the priority, in this
+        context or in any of its includes.
+        """
+        for context in self.with_includes():
+            exten = context._match_own_pattern(extension, priority)
+            if exten:
+                return exten
 
         # > If the location that is put into the channel
         # > information is bogus, and asterisk cannot find that
-- 
2.43.0


From 93c583f98144778897c4319f90a21cd8551ba4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 12/76] fix: look for labels in included contexts too

---
 asterisklint/dialplan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 82eaf79..7dbdc7f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -278,9 +278,13 @@ class DialplanContext(Context):
 
     def has_label(self, label):
         """
-        Check whether the label is used anywhere in this context.
+        Check whether the label is used anywhere in this context or in
+        any of its includes.
         """
-        return any(label in i['labels'] for i in self.pattern_cache.values())
+        return any(
+            label in i['labels']
+            for context in self.with_includes()
+            for i in context.pattern_cache.values())
 
     def _match_own_pattern(self, extension, priority):
         """
-- 
2.43.0


From 92ed9b4ffffd3b56af5f70d675045959d11ebd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 13/76] fix: decode any byte when falling back to cp1252

---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 7c5b7d88f5670cf797df4999cb0b63389102ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 14/76] fix: only accept numbers that int() can parse

---
 asterisklint/dialplan.py | 4 ++--
 asterisklint/varfun.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 7dbdc7f..098b25d 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -471,7 +471,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -512,7 +512,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..cf539d3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -398,8 +398,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -410,8 +410,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From a9b093711e99e2471cc87742354dc7fedbbc6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 15/76] fix: let slices of a Var be a Var, not a list

---
 asterisklint/function.py |  9 +--------
 asterisklint/variable.py | 16 +++++-----------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/asterisklint/function.py b/asterisklint/function.py
index 07483ba..9b2f1ab 100644
--- a/asterisklint/function.py
+++ b/asterisklint/function.py
@@ -26,14 +26,7 @@ class ReadFunc(Var):
     def __init__(self, func=None, args=None):
         assert func is not None and args is not None
 
-        # The "convenience" strjoin in Var getslice creates trouble for
-        # us here: args can be a list or a simple iterable.
-        if isinstance(args, list):
-            func_and_args = [func, '('] + args + [')']
-        else:
-            func_and_args = [func, '(', args, ')']
-
-        super().__init__(name=Var.join(func_and_args))
+        super().__init__(name=Var.join([func, '(', args, ')']))
 
         self.func = func
         self.args = args
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..ac1947c 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -117,24 +117,18 @@ class Var(object):
         """
         Get an item or list of items.
 
-        If a slice is requested (and a list is returned), we attempt to
-        join the list using strjoin. Examples::
+        If a slice is requested (and a list is returned), we join the
+        list using Var.join. Examples::
 
-            ['A', 'B', 'C', <Var>, 'D'] ==> ['ABC', <Var>, 'D']
+            ['A', 'B', 'C', <Var>, 'D'] ==> Var.join(['ABC', <Var>, 'D'])
             ['A', 'B', 'C'] ==> 'ABC'
             ['A'] ==> 'A'
             [<Var>] ==> <Var>
-            [] ==> []
-
-        This should never be a problem because you'll be iterating over
-        the results anyway.
+            [] ==> ''
         """
         item = self._get_cached_iter().__getitem__(*args, **kwargs)
         if isinstance(item, list):
-            ret = list(strjoin(item))  # joins consecutive strings together
-            if len(ret) == 1:
-                return ret[0]
-            return ret
+            return Var.join(item)
         return item
 
     def __len__(self):
-- 
2.43.0


From fd06aa9d6913b8040e52b34582ff1f00d41de8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 16/76] fix: allow empty variable and expression names

---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index ac1947c..573677a 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # this is a plain variable, it could match anything
             return True
 
         re_joined = ''.join(
@@ -162,13 +162,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -220,7 +220,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From d5242d3a39d9211c6bf5c5e74375267830b67391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:25 +0000
Subject: [PATCH 17/76] fix: pass the right argument to W_FUNC_DYNAMIC, it
 crashed while formatting

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index cf539d3..1efc6f7 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -168,7 +168,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From fbe1b281f8b1dd89d5374a3c65eec74c10aefe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 18/76] fix: report unknown functions with an empty name

---
 asterisklint/varfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 1efc6f7..39cb99a 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -136,8 +136,7 @@ class FuncLoader(metaclass=Singleton):
         for i, char in enumerate(func_and_args):
             if char == '(':
                 func = func_and_args[0:i]
-                break
-        assert func  # we only get here if there is a '('
+                break  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
-- 
2.43.0


From dee67e1649a8507f908ce58d33d5a670ea2f4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 19/76] fix: handle odd function calls on the left hand side of
 an assignment

---
 asterisklint/varfun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 39cb99a..40b3f3c 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -190,11 +190,17 @@ class FuncLoader(metaclass=Singleton):
             assert args[-1] == ')'  # FIXME: warn, don't raise
             args = args[0:-1]
         else:
+            func = func_and_args
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
             args = ''
 
+        # A name that is made up of variables: we cannot look that up.
+        if isinstance(func, Var):
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
+
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
         loaded_func(args, where=where)
-- 
2.43.0


From fba41f6366d503c0992cc0b93fc3b7940b8962df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 20/76] fix: do not count dynamic variable names in INC and DEC

---
 asterisklint/func/vall/func_math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..271ae6b 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -28,7 +28,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +40,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From 74a4fc02fd4b0ad30d1571405d3166f51d18b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 21/76] fix: handle slices with a variable start and a literal
 length

---
 asterisklint/varfun.py   | 4 +++-
 asterisklint/variable.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 40b3f3c..239beca 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -420,7 +420,9 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
+                if length == 0 or (
+                        isinstance(start, int) and start < 0 and
+                        -length <= start):
                     length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
             else:
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 573677a..b3c369e 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -246,7 +246,7 @@ class SliceMixin(object):
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
+        if isinstance(length, int) and isinstance(start, int):
             assert length != 0
             if length < 0:
                 self._endpos = length
-- 
2.43.0


From 6414b0d68a96aa37c50d627b4d89a73a9880da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 22/76] fix: do not hang on Goto and GotoIf with more than
 three arguments

---
 asterisklint/app/vall/builtin.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..d55cc33 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,9 +14,11 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
+    E_APP_ARG_MANY,
     AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
+from asterisklint.variable import Var
 from asterisklint.varfun import VarLoader
 
 
@@ -65,6 +67,21 @@ class Congestion(BuiltinAppBase):
     pass
 
 
+def _goto_args_to_destination(args):
+    # [[context,]exten,]prio
+    jumpdest = args[:]
+    if len(jumpdest) > 3:
+        # See: ast_parseable_goto(), anything after the second comma is
+        # the priority.
+        excess = [jumpdest[2]]
+        [excess.extend((',', i)) for i in jumpdest[3:]]
+        jumpdest[2:] = [Var.join(excess)]
+    while len(jumpdest) < 3:
+        jumpdest.insert(0, None)
+    assert len(jumpdest) == 3, jumpdest
+    return tuple(jumpdest)
+
+
 class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
            AppBase):
     def __init__(self, **kwargs):
@@ -73,11 +90,7 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
-        while len(jumpdest) != 3:
-            jumpdest.insert(0, None)
-        assert len(jumpdest) == 3
-        jump_destinations.append(tuple(jumpdest))
+        jump_destinations.append(_goto_args_to_destination(args))
 
         return args
 
@@ -90,10 +103,9 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
-                while len(jumpdest) != 3:
-                    jumpdest.insert(0, None)
-                assert len(jumpdest) == 3
-                jump_destinations.append(tuple(jumpdest))
+                if len(jumpdest) > 3:
+                    E_APP_ARG_MANY(where, app=self.name, max_args=3)
+                jump_destinations.append(_goto_args_to_destination(jumpdest))
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 48859ffe146bdb5b7de2bb79479e964879536e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:32 +0000
Subject: [PATCH 23/76] fix: do not run the nested calls of comma style
 conditionals

ExecIf(cond,App,args) crashed on the list of arguments. GotoIf and
GosubIf jumped to a bogus label. Asterisk would not run any of them.
---
 asterisklint/app/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index dc8596b..b8dc3a8 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -273,16 +273,15 @@ class IfStyleApp(DelimitedArgsMixin, AppBase):
             # Attempt to separate the arguments the old fashioned way.
             args = self.separate_args(
                 data, ',', remove_quotes_backslashes=False)
-            cond = args[0]
-            iftrue = args[1:]
-            if len(iftrue):
+            if len(args) > 1:
                 E_APP_ARG_IFSTYLE(where, app=self.name, data=data,
                                   cond=args[0], args=args[1:])
             else:
                 E_APP_ARG_FEW(where, app=self.name, data=data, min_args=2)
 
-            # Observe that iftrue is already split this time.
-            cond, iftrue, iffalse = args[0], args[1:], None
+            # There are no actions: without a question mark nothing would
+            # get executed.
+            cond, iftrue, iffalse = args[0], None, None
 
         # Trim space from the sides of cond.
         cond = cond.strip()
-- 
2.43.0


From b0122a637ee9d3e82e0fb17a9bc4d8eaeefdb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:33 +0000
Subject: [PATCH 24/76] fix: look up nested applications without parsing their
 data twice

ExecIf(cond?App(data)) passed the already parsed data as text, which was
parsed once more: messages were reported twice and variables were
counted twice. An application name that is a variable crashed.
---
 asterisklint/application.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..048de86 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -144,7 +145,7 @@ class App(object):
         """
         # SOURCE: main/pbx.c: pbx_extension_helper, calls
         # SOURCE: main/pbx.c: pbx_parse_variables_helper_full.
-        if '${' in data or '$[' in data:
+        if isinstance(data, str) and ('${' in data or '$[' in data):
             try:
                 data = VarLoader().parse_variables(data, self.where)
             except VarParseError:
@@ -162,13 +163,18 @@ class App(object):
             app = self.raw
             if self.raw.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
-            data = '()'
+            data = ''
         else:
-            data = '(' + str(data)  # data could be a Var; collapse for now
-
-        # SOURCE: pbx/pbx_config.c: pbx_load_config()
-        if data.startswith('(') and data.endswith(')'):
-            data = data[1:-1]
+            # SOURCE: pbx/pbx_config.c: pbx_load_config()
+            # (The data can be a Var, if we are called by another app.)
+            if data and data[-1] == ')':
+                data = data[0:-1]
+            else:
+                data = Var.join(['(', data])
+
+        # A name that is made up of variables: we cannot look that up.
+        if isinstance(app, Var):
+            return False
 
         # Set it and try to find a handler for it.
         self.app = app
-- 
2.43.0


From 9d61bda21c412d2310926b81350cbef23308d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 25/76] fix: do not crash on a nested application that is just
 a variable

---
 asterisklint/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index 048de86..77553e6 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -161,7 +161,7 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if self.raw.lower() != 'noop':
+            if isinstance(app, str) and app.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = ''
         else:
-- 
2.43.0


From c325b369e3eacd1c5d32b3c1bb14580a0e6af059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 26/76] fix: do not match an absent label against a variable
 priority

---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 098b25d..233a030 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -305,7 +305,8 @@ class DialplanContext(Context):
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
                     elif (priority.could_match(exten.prio) or
-                            priority.could_match(exten.label)):
+                            (exten.label and
+                             priority.could_match(exten.label))):
                         return exten
 
         return None
-- 
2.43.0


From 2dbf12b775099735c739ff7469eacafb5b36c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 27/76] fix: print the offending value of a bad substring

---
 asterisklint/varfun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 239beca..a2df440 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -407,8 +407,8 @@ class VarLoader(metaclass=Singleton):
                     (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
+                E_VAR_SUBSTR_START(where, start=start)
                 start = length = None
-                E_VAR_SUBSTR_START(where, start=None)
 
         if length is not None:
             if isinstance(length, Var):
@@ -423,15 +423,15 @@ class VarLoader(metaclass=Singleton):
                 if length == 0 or (
                         isinstance(start, int) and start < 0 and
                         -length <= start):
-                    length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
+                    length = None
             else:
                 E_VAR_SUBSTR_LENGTH(where, length=length)
                 start = length = None
 
         # If start is 0 and there is no length, it makes no sense.
         if start == 0 and not length:
+            E_VAR_SUBSTR_START(where, start=start)
             start = None
-            E_VAR_SUBSTR_START(where, start=None)
 
         return varname, start, length
-- 
2.43.0


From ad0021132718227232e221ad1186be9f0c9baad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 28/76] fix: format variable slices like Asterisk does

Negative positions beyond the start of the value, and positions that are
variables, gave another substring.
---
 asterisklint/variable.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index b3c369e..0a098c2 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -240,27 +240,34 @@ class Var(object):
         return v
 
 
+def sscanf_int(value):
+    match = re.match(r'\s*[+-]?[0-9]+', value)
+    return int(match.group()) if match else None
+
+
+def substring(value, offset, length=None):
+    # SOURCE: main/pbx_variables.c -- substring()
+    if offset < 0:
+        offset = max(0, len(value) + offset)
+    value = value[offset:]
+    if length is None:
+        return value
+    if length < 0:
+        length = max(0, len(value) + length)
+    return value[0:length]
+
+
 class SliceMixin(object):
     def __init__(self, *args, start=None, length=None, **kwargs):
         assert start is not None
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if isinstance(length, int) and isinstance(start, int):
-            assert length != 0
-            if length < 0:
-                self._endpos = length
-            elif self.start < 0:
-                self._endpos = self.start + length
-                assert self._endpos < 0
-            else:
-                self._endpos = self.start + length
+        assert length != 0
 
     def format(self, **kwargs):
         value = super().format(**kwargs)
-        if self.length:
-            return value[self.start:self._endpos]
-        return value[self.start:]
+        return substring(value, self.start, self.length)
 
     def __str__(self):
         if self.length:
@@ -283,6 +290,15 @@ class VarDynSlice(Var):
         self.start = start
         self.length = length
 
+    def format(self, **kwargs):
+        value = super().format(**kwargs)
+        start, length = [
+            sscanf_int(i.format(**kwargs)) if isinstance(i, Var) else i
+            for i in (self.start, self.length)]
+        if start is None:
+            return value
+        return substring(value, start, length)
+
     def __str__(self):
         if self.length:
             return '${{{}:{}:{}}}'.format(
-- 
2.43.0


From 056e4f62372fedaec97a586978e503cffcbb4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 29/76] fix: do not treat the text of an expression as a
 variable name

---
 asterisklint/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 652dee5..05750d9 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -30,6 +30,11 @@ class Expr(Var):
     def __init__(self, expression=None):  # drop start and length args
         super().__init__(name=expression)
 
+    def format(self, **kwargs):
+        # We do not evaluate expressions. It is not the variable called
+        # <expression> either.
+        raise KeyError(str(self))
+
     def __str__(self):
         if self.name is not None:
             return '$[{}]'.format(self.name)
-- 
2.43.0


From 68b5052f1e008c92e0adf8a99f14f064e40dc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:57 +0000
Subject: [PATCH 30/76] fix: show the priorities of an extension in ascending
 order

---
 asterisklint/dialplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 233a030..988748f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -264,7 +264,9 @@ class DialplanContext(Context):
         """
         ret = []
         for pattern in self.get_sorted_patterns():
-            ret.extend(i for i in self if i.pattern == pattern)
+            ret.extend(sorted(
+                (i for i in self if i.pattern == pattern),
+                key=(lambda i: i.prio)))
         return ret
 
     def get_sorted_patterns(self):
-- 
2.43.0


From 321745758c918e2db11ac8c6b3ecbc411798b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 31/76] fix: accept variables as the Originate type

---
 asterisklint/app/vall/app_originate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_originate.py b/asterisklint/app/vall/app_originate.py
index 17cbf79..d1d4b77 100644
--- a/asterisklint/app/vall/app_originate.py
+++ b/asterisklint/app/vall/app_originate.py
@@ -14,11 +14,14 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import E_APP_ARG_BADOPT, App, AppArg
+from ...variable import Var
 
 
 class AppOrExten(AppArg):
     def validate(self, arg, where):
-        if arg not in ('app', 'exten'):
+        if isinstance(arg, Var):
+            pass  # we do not know the value
+        elif arg not in ('app', 'exten'):
             E_APP_ARG_BADOPT(
                 where, argno=self.argno, app=self.app, opts=arg)
 
-- 
2.43.0


From 456c6e0ff5ab30e5985679472829d8b07ab4341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:38 +0000
Subject: [PATCH 32/76] fix: do not report blanks before an include as blanks
 at end of file

This happened when the include file itself ended with an include, and
reading resumed two or more files up.
---
 asterisklint/configws.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index 62d31f2..8c13ef3 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -150,10 +150,12 @@ class VswContextStack(list):
         if not self.is_on_stack(element.where):
             self.append(VswContext(element.where))
         else:
+            first = True
             while not self[-1].is_where(element.where):
                 locontext = self.pop()
-                for delayed in locontext.handle_eof():
+                for delayed in locontext.handle_eof(report_eof_blanks=first):
                     yield delayed
+                first = False
             assert self, 'eof of last file will not happen here'
 
         for delayed in self[-1].handle(element):
-- 
2.43.0


From bbad7c0504e23a31912b5e7e06919deeeb6c63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 33/76] fix: resolve symlinks relative to their own directory
 when rewriting

Rewriting a relative symlink in another directory wrote the new file
relative to the current working directory.
---
 asterisklint/helper/mutator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..b2d55aa 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -61,10 +61,7 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
-            disk_filename = filename
+        disk_filename = os.path.realpath(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
-- 
2.43.0


From d2638c86894ca9a99d4e195af785fbffd53015a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 34/76] fix: clean up the temporary file when rewriting fails

Only failures while writing the new contents were handled, not those
while updating the permissions or while renaming.
---
 asterisklint/helper/mutator.py | 76 ++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index b2d55aa..12abed2 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -68,45 +68,49 @@ class FileMutatorBase(object):
         tempout = NamedTemporaryFile(
             dir=os.path.dirname(disk_filename), mode='wb', delete=False)
 
-        issues = self.issues_per_file[filename]
         try:
-            issueptr = 0
-            issue = issues[issueptr]
-            with open(filename, 'rb') as file_:
-                for lineno, line in enumerate(file_):
-                    if issue and lineno == issue.lineno:
-                        # Do actual work on the issue.
-                        self.process_issue(
-                            issue=issue,
-                            inline=line,
-                            outfile=tempout)
-
-                        # Jump to the next issue.
-                        issueptr += 1
-                        if issueptr < len(issues):
-                            issue = issues[issueptr]
-                        else:
-                            issue = None
-                    else:
-                        tempout.write(line)
-            tempout.flush()
-        except Exception:
+            try:
+                self.process_lines(filename, tempout)
+                tempout.flush()
+            finally:
+                tempout.close()
+
+            # Update file permissions.
+            srcstat = os.stat(tempout.name)
+            dststat = os.stat(filename)
+            if (srcstat.st_uid != dststat.st_uid or
+                    srcstat.st_gid != dststat.st_gid):
+                os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
+            if srcstat.st_mode != dststat.st_mode:
+                os.chmod(tempout.name, dststat.st_mode)
+
+            print('Overwriting', disk_filename, '...')
+            os.rename(tempout.name, disk_filename)
+        except BaseException:
             os.unlink(tempout.name)
             raise
-        finally:
-            tempout.close()
-
-        # Update file permissions.
-        srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
-        if (srcstat.st_uid != dststat.st_uid or
-                srcstat.st_gid != dststat.st_gid):
-            os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
-        if srcstat.st_mode != dststat.st_mode:
-            os.chmod(tempout.name, dststat.st_mode)
-
-        print('Overwriting', disk_filename, '...')
-        os.rename(tempout.name, disk_filename)
+
+    def process_lines(self, filename, outfile):
+        issues = self.issues_per_file[filename]
+        issueptr = 0
+        issue = issues[issueptr]
+        with open(filename, 'rb') as file_:
+            for lineno, line in enumerate(file_):
+                if issue and lineno == issue.lineno:
+                    # Do actual work on the issue.
+                    self.process_issue(
+                        issue=issue,
+                        inline=line,
+                        outfile=outfile)
+
+                    # Jump to the next issue.
+                    issueptr += 1
+                    if issueptr < len(issues):
+                        issue = issues[issueptr]
+                    else:
+                        issue = None
+                else:
+                    outfile.write(line)
 
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From 17d2e97ceeb35c099dd6e8c4cfc5ea85e72cc821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 35/76] fix: rewrite all issues of a file if there are several
 on one line

A second issue for the same line, for example because the file is
included more than once, kept all further lines from being rewritten.
---
 asterisklint/helper/mutator.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 12abed2..207484a 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -13,6 +13,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+from io import BytesIO
 from tempfile import NamedTemporaryFile
 import os
 
@@ -91,26 +92,25 @@ class FileMutatorBase(object):
             raise
 
     def process_lines(self, filename, outfile):
-        issues = self.issues_per_file[filename]
-        issueptr = 0
-        issue = issues[issueptr]
+        issues_per_line = {}
+        for issue in self.issues_per_file[filename]:
+            issues = issues_per_line.setdefault(issue.lineno, [])
+            # If the file is included more than once, we get to see its
+            # issues more than once.
+            if issue not in issues:
+                issues.append(issue)
+
         with open(filename, 'rb') as file_:
             for lineno, line in enumerate(file_):
-                if issue and lineno == issue.lineno:
+                for issue in issues_per_line.get(lineno, ()):
                     # Do actual work on the issue.
+                    newline = BytesIO()
                     self.process_issue(
                         issue=issue,
                         inline=line,
-                        outfile=outfile)
-
-                    # Jump to the next issue.
-                    issueptr += 1
-                    if issueptr < len(issues):
-                        issue = issues[issueptr]
-                    else:
-                        issue = None
-                else:
-                    outfile.write(line)
+                        outfile=newline)
+                    line = newline.getvalue()
+                outfile.write(line)
 
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From c2e3965c7dc31d75b049aa99ee7f7245cb31d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 36/76] fix: only rewrite the pattern itself, also if it holds
 a semicolon

---
 contrib/make_patterns_canonical.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/contrib/make_patterns_canonical.py b/contrib/make_patterns_canonical.py
index 5cb19b3..c61c558 100755
--- a/contrib/make_patterns_canonical.py
+++ b/contrib/make_patterns_canonical.py
@@ -54,16 +54,18 @@ class MakePatternsCanonicalMutator(FileMutatorBase):
     def process_issue(self, issue, inline, outfile):
         # Split between "exten =>" and the rest.
         linehead, linetail = inline.split(b'=', 1)
-        if linetail[0] == b'>':
-            linehead += b'>'
-            linetail = linetail[1:]
-
-        # We can safely use replace-1 here. If we were able
-        # to parse your config, we should not be looking
-        # directly at a pattern first.
-        linetail = linetail.replace(
-            issue.needle, issue.replacement, 1)
-        outline = linehead + b'=' + linetail
+        pattern = linetail.lstrip(b'>').lstrip()
+        linehead += b'=' + linetail[0:len(linetail) - len(pattern)]
+
+        # The semicolons are still escaped in the file.
+        needle = issue.needle.replace(b';', b'\\;')
+        replacement = issue.replacement.replace(b';', b'\\;')
+
+        # The pattern comes first. (If it does not, we do not know what
+        # we're looking at; for example a different encoding.)
+        if pattern.startswith(needle):
+            pattern = replacement + pattern[len(needle):]
+        outline = linehead + pattern
 
         # Write new line.
         outfile.write(outline)
-- 
2.43.0


From e0ec3834e54a7694336bc352ac84b01d3a77ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 37/76] fix: report a message for unknown and broken commands,
 not a traceback

---
 asterisklint/main.py   | 9 +++++++--
 contrib/commands/vg.py | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..b4b1354 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -116,7 +116,8 @@ def load_command(command, command_path=None):
             if os.path.isfile(command_path):
                 break
         else:
-            raise ImportError('No dir found for command {!r}'.format(command))
+            raise NoSuchCommand('No dir found for command {!r}'.format(
+                command))
 
     command_mod_name = 'asterisklint.commands.{}'.format(command)
 
@@ -136,7 +137,11 @@ def load_command(command, command_path=None):
         spec = importlib.util.spec_from_file_location(
             command_mod_name, command_path)
         command_module = importlib.util.module_from_spec(spec)
-        spec.loader.exec_module(command_module)
+        try:
+            spec.loader.exec_module(command_module)
+        except Exception as exception:
+            raise NoSuchCommand('Could not load {!r}: {}'.format(
+                command, exception))
 
     try:
         command_module.main
diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 88a19df..ac03499 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -26,7 +26,7 @@ import sys
 from asterisklint.file import (
     W_WSH_BOL, W_WSH_EOL, AsteriskCommentReader, BinFileReader,
     EncodingReader, FileformatReader, NoCtrlReader)
-from asterisklint.main import load_command
+from asterisklint.main import NoSuchCommand, load_command
 from asterisklint.mainutil import MainBase
 
 
@@ -220,7 +220,7 @@ class Main(MainBase):
     def handle_args(self, args):
         try:
             command_module = load_command(args.command)
-        except ImportError as exception:
+        except NoSuchCommand as exception:
             print('Cannot load command {!r}: {}'.format(
                 args.command, exception), file=sys.stderr)
             return 1
-- 
2.43.0


From c6bcb992f1978f6981213a47daaa97e13de7e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 38/76] fix: do not treat the function UNKNOWN() as existing

---
 asterisklint/varfun.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index a2df440..8230097 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -211,11 +211,10 @@ class FuncLoader(metaclass=Singleton):
         loaded = FuncLoader().get(func.lower())
 
         # Check function availability.
-        if loaded.name != func:
-            if loaded.name == 'UNKNOWN':
-                E_FUNC_MISSING(where, func=func)
-            else:
-                E_FUNC_BAD_CASE(where, func=func, proper=loaded.name)
+        if loaded.name == 'UNKNOWN':
+            E_FUNC_MISSING(where, func=func)
+        elif loaded.name != func:
+            E_FUNC_BAD_CASE(where, func=func, proper=loaded.name)
 
         return loaded
 
-- 
2.43.0


From cfb509256957a63753b6dcd1f0a5b58d0852e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 39/76] fix: make the order of identifiers in ident-scan
 deterministic

---
 asterisklint/commands/ident-scan.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/asterisklint/commands/ident-scan.py b/asterisklint/commands/ident-scan.py
index 454325b..3519d4f 100644
--- a/asterisklint/commands/ident-scan.py
+++ b/asterisklint/commands/ident-scan.py
@@ -56,13 +56,14 @@ class Main(MainBase):
 
         contexts_by_name = list(sorted(
             (context.name for context in dialplan.contexts),
-            key=(lambda x: x.lower())))
+            key=(lambda x: (x.lower(), x))))
         # TODO: dialplan.all_labels is not a public interface..
         labels_by_name = list(sorted(
-            dialplan.all_labels, key=(lambda x: x.lower())))
+            dialplan.all_labels, key=(lambda x: (x.lower(), x))))
         # TODO: loader._variables is *not* a public interface..
         varlist_by_name = list(sorted(
-            loader._variables.items(), key=(lambda x: x[0].lower())))
+            loader._variables.items(),
+            key=(lambda x: (x[0].lower(), x[0]))))
 
         if args.verbose:
             self.print_contexts(contexts_by_name)
@@ -109,9 +110,9 @@ class Main(MainBase):
 
     def print_distance(self, identifiers):
         id_by_name = sorted(
-            identifiers, key=(lambda x: x.lower()))
+            identifiers, key=(lambda x: (x.lower(), x)))
         id_by_len = sorted(
-            identifiers, key=(lambda x: (len(x), x.lower())))
+            identifiers, key=(lambda x: (len(x), x.lower(), x)))
 
         similar = defaultdict(set)
         for id_list in (id_by_name, id_by_len):
@@ -138,7 +139,7 @@ class Main(MainBase):
         if similar:
             print('Identifiers with similar names include:')
             for identifier in sorted(
-                    similar.keys(), key=(lambda x: x.lower())):
+                    similar.keys(), key=(lambda x: (x.lower(), x))):
                 similar_to = ', '.join(sorted(similar[identifier]))
                 print('  {:32}  [similar to: {}]'.format(
                     identifier, similar_to))
-- 
2.43.0


From 85b151ee651c4d7a9a15fd2e012a544b33dbb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 40/76] fix: do not answer a web request with leftovers of a
 failed one

---
 web/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..a209083 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -122,6 +122,9 @@ class DialplanCheck:
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
 
+        # An earlier request may have failed halfway.
+        MessageDefManager.reset()
+
         parser = FileDialplanParser(opener=opener)
         parser.include(filename)
         dialplan = next(iter(parser))
-- 
2.43.0


From 6cb9e79bfa0b531911f981e71cf9489d4c30fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 41/76] fix: let the chosen spelling of Background last for one
 dialplan only

In a process that checks several dialplans (the web service), the first
one decided the spelling for all others.
---
 asterisklint/app/base.py         | 6 ++++++
 asterisklint/app/vall/builtin.py | 3 +++
 asterisklint/application.py      | 4 ++++
 asterisklint/dialplan.py         | 3 ++-
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index b8dc3a8..7455bd6 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -63,6 +63,12 @@ class AppBase(object):
     def module(self):
         return self.__module__.rsplit('.', 1)[-1]
 
+    def reset(self):
+        """
+        Subclasses may forget what they learned from another dialplan.
+        """
+        pass
+
     def __call__(self, data, where, jump_destinations):
         """
         Subclasses may implement something that populates
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index d55cc33..863ff87 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -47,6 +47,9 @@ class Background(BuiltinAppBase):
     def name(self):
         return self.chosen_spelling or super().name
 
+    def reset(self):
+        self.chosen_spelling = None
+
     def check_availability(self, supplied_name, where):
         if not self.chosen_spelling and supplied_name in (
                 'Background', 'BackGround'):
diff --git a/asterisklint/application.py b/asterisklint/application.py
index 77553e6..5bbe803 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -80,6 +80,10 @@ class AppLoader(metaclass=Singleton):
         self._used_apps.add(lower_app)
         return self._lower_apps[lower_app]
 
+    def reset_apps(self):
+        for app in self._lower_apps.values():
+            app.reset()
+
     def register(self, app):
         lower_app = app.name.lower()
         self._lower_apps[lower_app] = app
diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 988748f..e29f88d 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -13,7 +13,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from .application import App
+from .application import App, AppLoader
 from .config import ConfigAggregator, Context, Varset
 from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
@@ -601,6 +601,7 @@ class Extension(Varset):
 
 class DialplanAggregator(ConfigAggregator):
     def on_begin(self):
+        AppLoader().reset_apps()
         self._dialplan = Dialplan()
         self._prevcontexts = {}
         self._curcontext = None
-- 
2.43.0


From e51d9a2075271f4c6253d0550a0e6c4e42ae73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:50 +0000
Subject: [PATCH 42/76] fix: report includes with a NUL in the name as missing

---
 asterisklint/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 5dae3f4..d5903fd 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -175,7 +175,8 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
-            except OSError:
+            except (OSError, ValueError):
+                # (A ValueError if there is a NUL in the filename.)
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From 7d3cd16fcc453120efd83bbf0496e8a6cfa55bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 43/76] fix: do not crash on func_odbc functions with a NUL in
 the name

---
 asterisklint/func_odbc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..8c2f1f4 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,14 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        super().__init__()
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -236,9 +244,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From fe5da7f54c452ed0e5ed88ad91db874b81a57acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 44/76] fix: report a lone quote after #include as bad quoting

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index d5903fd..3d4eac5 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -159,7 +159,7 @@ class ConfigParser(object):
             W_WSH_CTRL(where)
         rest = rest[idx:]
 
-        if rest[0] == '"' and rest[-1] == '"':
+        if len(rest) > 1 and rest[0] == '"' and rest[-1] == '"':
             rest = rest[1:-1]
         elif rest[0] == '<' and rest[-1] == '>':
             rest = rest[1:-1]
-- 
2.43.0


From 139e1877c0cbf782a4dc70391e0b689b75b6d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 45/76] fix: keep the vertical layout of consecutive includes
 apart

The state of an included file was looked up by file name, and only when
there was another line to look at. Of two includes in a row, the blanks
at the end of the first one were not reported; a file included twice in
a row was treated as one; and blanks before an empty include were
reported as being at the end of the file.
---
 asterisklint/configws.py | 92 +++++++++++++++++++++++++---------------
 asterisklint/file.py     |  8 ++++
 2 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index 8c13ef3..4166e04 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -29,22 +29,19 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 class VswContext(object):
     """
-    We need a separate context object to keep state per file. Because of
-    how the parser works, we won't get any notifications about file
-    switches, other than that the "where" changes. This VswContext and
-    the VswContextStack keep track of the changes and of the
-    file-specific state.
+    We need a separate context object to keep state per file. This
+    VswContext and the VswContextStack keep track of the file switches
+    and of the file-specific state.
     """
-    def __init__(self, where):
-        self.filename = where.filename
+    def __init__(self):
         self.bof = True
         self.blanks = []
         self.last_context_varsets = 0
-
-    def is_where(self, where):
-        return self.filename == where.filename
+        # True if the last thing in this file was an include.
+        self.has_included = False
 
     def handle(self, element):
+        self.has_included = False
         if isinstance(element, EmptyLine):
             self.blanks.append(element)
         else:
@@ -105,7 +102,7 @@ class VswContext(object):
                 yield blank
         self.blanks = []
 
-    def handle_eof(self, report_eof_blanks=True):
+    def handle_eof(self):
         if not self.blanks:
             return
 
@@ -130,7 +127,7 @@ class VswContext(object):
                 yield blank
 
         # Check tail whitespace and report on that.
-        if eof_blanks and report_eof_blanks:
+        if eof_blanks and not self.has_included:
             for blank in eof_blanks:
                 yield blank
             W_WSV_EOF(self.blanks[-1].where)
@@ -146,31 +143,47 @@ class VswContext(object):
 
 
 class VswContextStack(list):
-    def handle(self, element):
-        if not self.is_on_stack(element.where):
-            self.append(VswContext(element.where))
-        else:
-            first = True
-            while not self[-1].is_where(element.where):
-                locontext = self.pop()
-                for delayed in locontext.handle_eof(report_eof_blanks=first):
-                    yield delayed
-                first = False
-            assert self, 'eof of last file will not happen here'
+    """
+    The state of all files we're in: the main file, the file that it is
+    including, and so on.
 
+    We cannot go by the name of the files: a file may be included more
+    than once.
+    """
+    def __init__(self):
+        super().__init__()
+        self._delayed = []
+
+    def on_include(self, depth):
+        """
+        The file at this depth is about to include a file. The files
+        included earlier are done.
+        """
+        self._resize(depth)
+        if depth:
+            self[-1].has_included = True
+
+    def handle(self, element, depth):
+        self._resize(depth)
+        for delayed in self._flush():
+            yield delayed
         for delayed in self[-1].handle(element):
             yield delayed
 
-    def is_on_stack(self, where):
-        return any(i.is_where(where) for i in reversed(self))
-
     def handle_eof(self):
-        first = True
-        while self:
-            locontext = self.pop()
-            for delayed in locontext.handle_eof(report_eof_blanks=first):
-                yield delayed
-            first = False
+        self._resize(0)
+        for delayed in self._flush():
+            yield delayed
+
+    def _resize(self, depth):
+        while len(self) > depth:
+            self._delayed.extend(self.pop().handle_eof())
+        while len(self) < depth:
+            self.append(VswContext())
+
+    def _flush(self):
+        delayed, self._delayed = self._delayed, []
+        return delayed
 
 
 class VerticalSpaceWarner(object):
@@ -180,13 +193,22 @@ class VerticalSpaceWarner(object):
     Contexts get one or two leading white lines. Varsets get at most one
     leading white line.
     """
-    def __iter__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         # We use a VswContext object to keep state per "included" file.
         # Every time a file include changes, we push/pop the context
         # stack.
-        stack = VswContextStack()
+        self._vswstack = VswContextStack()
+
+    def include(self, filename):
+        depth = self.include_depth
+        super().include(filename)
+        self._vswstack.on_include(depth)
+
+    def __iter__(self):
+        stack = self._vswstack
         for element in super().__iter__():
-            for delayed in stack.handle(element):
+            for delayed in stack.handle(element, self.include_depth):
                 yield delayed
         for delayed in stack.handle_eof():
             yield delayed
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 1006c56..b1ee361 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -74,6 +74,14 @@ class BinFileReader(object):
         self._generators.append(enumerate(fp))
         self._filenames.append(fp.name)
 
+    @property
+    def include_depth(self):
+        """
+        How many files we're in: 1 if we're reading the main file, 2 if
+        we're reading a file included from there.
+        """
+        return len(self._generators)
+
     def __iter__(self):
         while self._generators:
             try:
-- 
2.43.0


From 4555f8a244a963a09dd26c2f444475cb30175476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 46/76] fix: no hint about ignored dashes in extensions with
 brackets

In an extension without leading underscore the brackets have no meaning,
so a dash between them is ignored as well: 'a[-]b' was reported as
non-canonical form of 'a[]b', unlike 'a-b' for 'ab'.
---
 asterisklint/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 0067c9f..aaa9bc5 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -214,6 +214,8 @@ class Pattern(object):
         return self._is_canonical
 
     def _raw_without_dashes(self):
+        if self.values[0] == self.NOT_A_PATTERN:
+            return self.raw.replace('-', '')
         return ''.join(self.RE_NO_DASH.findall(self.raw))
 
     @staticmethod
-- 
2.43.0


From 8a3e9bdc31016e647ee94d194da20d53f828cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 47/76] fix: do not use a dash in the example number of a
 pattern

Dashes in a number are ignored, so the example of '_[0-9-]X' did not match
that very pattern. A Goto to another priority of the same extension was
reported as a jump to a non-existent one.
---
 asterisklint/pattern.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index aaa9bc5..85b70b2 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -350,6 +350,11 @@ class Pattern(object):
             return range_[0]
         return range_[0] + 0x100
 
+    @staticmethod
+    def _easy_range(num):
+        start = num & 0xff
+        return range(start, start + ((num >> 8) & 0xff))
+
     @property
     def example(self):
         """
@@ -369,7 +374,11 @@ class Pattern(object):
                 elif value[0] in (0x30000, 0x40000):
                     pass  # ignore
                 else:
-                    ret.append(value[0] & 0xff)
+                    # Beware: a dash in a number is ignored, take another
+                    # one if there is any.
+                    chars = (value[1:] or (self._easy_range(value[0]),))[0]
+                    ret.append(chars[1] if len(chars) > 1 and chars[0] == 0x2d
+                               else chars[0])
         else:
             assert False, self.values  # what pattern?
 
-- 
2.43.0


From 4803edc3c5f7e9d5c4d9bb251b25518e37689813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 48/76] fix: the canonical form of '-_2' is not a pattern for
 '2'

An extension that starts with a dash is no pattern, not even if the next
character is an underscore. But its proposed canonical form was.
---
 asterisklint/pattern.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 85b70b2..5f93447 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -230,25 +230,29 @@ class Pattern(object):
             if not self.is_valid:
                 # There is no better form for something that is broken.
                 ret = self.raw
-            elif self.values[0] == self.NOT_A_PATTERN:
+            elif (self.values[0] == self.NOT_A_PATTERN and
+                    self.values[1:2] != ((0x15f,),)):  # '_'
                 ret = self._decode((i[0] & 0xff) for i in self.values[1:])
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             # Beware: without the leading underscore a dash is ignored,
             # and we do not want to introduce another underscore.
-            elif (len(self.values) > 2 and
+            elif (self.values[0] == self.IS_A_PATTERN and
+                    len(self.values) > 2 and
                     self.values[1] != (0x15f,) and  # '_'
                     (0x12d,) not in self.values and  # '-'
                     all(i[0] < 0x200 for i in self.values[1:-1])):
                 ret = self._decode((i[0] & 0xff) for i in self.values[1:-1])
             else:
-                # Okay, so we have a pattern with pattern stuff. Fix it
-                # up.
-                assert self.values[0] == self.IS_A_PATTERN
+                # Okay, so we have a pattern with pattern stuff, or
+                # something that can only be written as one. Fix it up.
+                values = self.values[1:]
+                if self.values[0] == self.IS_A_PATTERN:
+                    values = values[0:-1]
                 try:
                     ret = ('_' + self._canonical_pattern_range(
-                        self.values[1:-1]).decode('utf-8'))
+                        values).decode('utf-8'))
                 except UnicodeDecodeError:
                     # Multibyte characters in a set: we cannot reorder
                     # those bytes into anything legible.
-- 
2.43.0


From 0bb1c3520280afb5e23353eccf0b7d8947718b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 49/76] fix: check the destinations of jumps inside ExecIf

The Goto in ExecIf(${X}?Goto(ctx,1,1)) is as good a jump as any other, but
its destination was forgotten.
---
 asterisklint/app/vall/app_exec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..d95fd55 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -46,10 +46,10 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if iftrue:
-            App(iftrue, where=where)
-        if iffalse:
-            App(iffalse, where=where)
+        for action in (iftrue, iffalse):
+            if action:
+                jump_destinations.extend(
+                    App(action, where=where).jump_destinations)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 2204bd8b3c9770d2a73ceb610e470fedbef1d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 50/76] fix: a backslash before a variable does not escape what
 follows it

---
 asterisklint/app/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index 7455bd6..b6498cb 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -121,7 +121,9 @@ class AppBase(object):
                 # #ret[-1].extend(data[start:i])  # skip char
                 # #start = i + 1
                 # Don't skip it, we want the returned value.
-                pass
+                # (If there was a backslash before it, it escapes the
+                # first character of the value.)
+                skipnext = False
             elif skipnext:
                 skipnext = False
             elif char == '[':
-- 
2.43.0


From de4596600fc740e4b1360688f87627814060de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 51/76] fix: readable variables in messages instead of object
 addresses

---
 asterisklint/variable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 0a098c2..bf5a611 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -166,6 +166,11 @@ class Var(object):
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
+    def __repr__(self):
+        # For use in messages: an address says nothing, and it is
+        # different every time.
+        return repr(str(self))
+
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
         if self.name is not None:
-- 
2.43.0


From f1563d1fd4947e2279f42c757685dd6d90b92831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 52/76] fix: the contents of a substitution are not an
 assignment or application

---
 asterisklint/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index bf5a611..6213283 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -172,9 +172,10 @@ class Var(object):
         return repr(str(self))
 
     def split(self, token=':', maxsplit=-1):
-        # In case we're an atom, pretend we're a list.
+        # In case we're an atom, pretend we're a list. Don't look inside:
+        # we don't know the value.
         if self.name is not None:
-            list_ = [self.name]  # [name]  # (start, length)
+            list_ = [self]       # [atom]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
 
-- 
2.43.0


From b67d435c6051b3246c621a38038675c24adfd1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 53/76] fix: NoOp needs no parentheses after whitespace either

---
 asterisklint/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index 5bbe803..e9abab3 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -165,7 +165,7 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if isinstance(app, str) and app.lower() != 'noop':
+            if isinstance(app, str) and app.strip().lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = ''
         else:
-- 
2.43.0


From 995fa3b7a3dfb4ed81b8a70f8b52f0fd72f9ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 54/76] fix: only ASCII digits make a number

---
 asterisklint/dialplan.py |  6 +++---
 asterisklint/varfun.py   | 10 +++-------
 asterisklint/variable.py |  8 ++++++++
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index e29f88d..39fc90d 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -19,7 +19,7 @@ from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
 from .defines import ErrorDef, WarningDef, HintDef, DupeDefMixin
 from .pattern import H_PAT_NON_CANONICAL, Pattern
-from .varfun import Var
+from .variable import Var, is_number
 from .where import Where
 
 
@@ -474,7 +474,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdecimal():
+            if isinstance(g_prio, str) and is_number(g_prio):
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -515,7 +515,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdecimal():
+            elif is_number(prio):
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 8230097..c03af54 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -21,7 +21,7 @@ from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .expression import Expr
 from .function import ReadFunc, ReadFuncSlice, WriteFunc
-from .variable import Var, VarSlice, VarDynSlice
+from .variable import Var, VarSlice, VarDynSlice, is_number
 from .version import AsteriskVersion
 
 
@@ -401,9 +401,7 @@ class VarLoader(metaclass=Singleton):
             if isinstance(start, Var):
                 # We cannot determine anything more from this.
                 pass
-            elif (start and (
-                    start.isdecimal() or
-                    (start[0] == '-' and start[1:].isdecimal()))):
+            elif is_number(start[1:] if start[0:1] == '-' else start):
                 start = int(start)
             else:
                 E_VAR_SUBSTR_START(where, start=start)
@@ -413,9 +411,7 @@ class VarLoader(metaclass=Singleton):
             if isinstance(length, Var):
                 # We cannot determine anything more from this.
                 pass
-            elif (length and (
-                    length.isdecimal() or
-                    (length[0] == '-' and length[1:].isdecimal()))):
+            elif is_number(length[1:] if length[0:1] == '-' else length):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 6213283..ca9855b 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -246,6 +246,14 @@ class Var(object):
         return v
 
 
+def is_number(value):
+    """
+    Whether this is a number for Asterisk: there may be other digits in
+    unicode, but it does not know about those.
+    """
+    return re.match(r'[0-9]+\Z', value) is not None
+
+
 def sscanf_int(value):
     match = re.match(r'\s*[+-]?[0-9]+', value)
     return int(match.group()) if match else None
-- 
2.43.0


From efce6a0af6d29856d18ca0a72f23718b8e99765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 55/76] fix: numbers of thousands of digits crashed the parser

---
 asterisklint/dialplan.py |  6 +++---
 asterisklint/varfun.py   |  6 +++---
 asterisklint/variable.py | 13 +++++++++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 39fc90d..a60e596 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -19,7 +19,7 @@ from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
 from .defines import ErrorDef, WarningDef, HintDef, DupeDefMixin
 from .pattern import H_PAT_NON_CANONICAL, Pattern
-from .variable import Var, is_number
+from .variable import Var, is_number, to_number
 from .where import Where
 
 
@@ -475,7 +475,7 @@ class DialplanContext(Context):
                     # Never mind.
                     pass
             if isinstance(g_prio, str) and is_number(g_prio):
-                g_prio = int(g_prio)
+                g_prio = to_number(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
 
@@ -516,7 +516,7 @@ class DialplanVarset(object):
             if prio == 'n':
                 prio = None
             elif is_number(prio):
-                prio = int(prio)
+                prio = to_number(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
                 return None
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index c03af54..b58d585 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -21,7 +21,7 @@ from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .expression import Expr
 from .function import ReadFunc, ReadFuncSlice, WriteFunc
-from .variable import Var, VarSlice, VarDynSlice, is_number
+from .variable import Var, VarSlice, VarDynSlice, is_number, to_number
 from .version import AsteriskVersion
 
 
@@ -402,7 +402,7 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif is_number(start[1:] if start[0:1] == '-' else start):
-                start = int(start)
+                start = to_number(start)
             else:
                 E_VAR_SUBSTR_START(where, start=start)
                 start = length = None
@@ -412,7 +412,7 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif is_number(length[1:] if length[0:1] == '-' else length):
-                length = int(length)
+                length = to_number(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
                 if length == 0 or (
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index ca9855b..562d06f 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -254,9 +254,18 @@ def is_number(value):
     return re.match(r'[0-9]+\Z', value) is not None
 
 
+def to_number(value):
+    """
+    Convert to a number like Asterisk does, which looks at 30 characters.
+    (More than a few thousand digits would be refused by int.)
+    """
+    # SOURCE: main/pbx_variables.c -- sscanf(..., "%30d", ...)
+    return int(value[0:30])
+
+
 def sscanf_int(value):
-    match = re.match(r'\s*[+-]?[0-9]+', value)
-    return int(match.group()) if match else None
+    match = re.match(r'\s*([+-]?[0-9]+)', value)
+    return to_number(match.group(1)) if match else None
 
 
 def substring(value, offset, length=None):
-- 
2.43.0


From 4fdb8824c565f8e41ae3bfaeb2133f0ff31e0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 56/76] fix: thousands of nested substitutions or ExecIfs
 crashed the parser

---
 asterisklint/application.py |  9 ++++++---
 asterisklint/varfun.py      | 12 ++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index e9abab3..01125c0 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -138,9 +138,12 @@ class App(object):
         # functions -- first:
         self.data = self.parse_inner(self.data)
 
-        # Run data through app.
-        app(self.data, where=self.where,
-            jump_destinations=self.jump_destinations)
+        # Run data through app. It may contain apps, that contain apps...
+        try:
+            app(self.data, where=self.where,
+                jump_destinations=self.jump_destinations)
+        except RecursionError:
+            E_APP_PARSE_ERROR(self.where, app=self.app, args=self.data)
 
     def parse_inner(self, data):
         """
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index b58d585..ba3a0aa 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -73,6 +73,11 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 LEGAL_VAR_TOKENS = set(string.ascii_letters + string.digits + '_')
 
 
+# Substitutions in substitutions in substitutions. There is no such
+# limit in Asterisk, but nobody needs this many.
+MAX_VAR_DEPTH = 100
+
+
 class VarParseError(ValueError):
     pass
 
@@ -255,7 +260,7 @@ class VarLoader(metaclass=Singleton):
         # FIXME: record variable as used?
         del value
 
-    def parse_variables(self, data, where):
+    def parse_variables(self, data, where, depth=1):
         """
         Parse variables will loop over the data and extract all
         variables. This function mimic the behaviour of Asterisk
@@ -285,8 +290,11 @@ class VarLoader(metaclass=Singleton):
 
                     inner_data = data[(pos + 2):(endpos - 1)]
                     if more_substitutions:
+                        if depth >= MAX_VAR_DEPTH:
+                            raise VarParseError(
+                                'Too many nested substitutions')
                         inner_data = self.parse_variables(
-                            inner_data, where)
+                            inner_data, where, depth=(depth + 1))
 
                     if next_ == '{':
                         inner_data = self._process_variable(
-- 
2.43.0


From d8e8aaa2a507c58134160c90890ecfd285722dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 57/76] fix: texts of the two messages about whitespace around
 apps were swapped

---
 asterisklint/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index 01125c0..be8dc6b 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -25,7 +25,7 @@ from .version import AsteriskVersion
 
 if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
     class E_APP_WSH(ErrorDef):
-        message = 'whitespace before app {app!r} will result in unknown app'
+        message = 'whitespace after app {app!r} will result in unknown app'
 
     class E_APP_PARSE_ERROR(ErrorDef):
         message = 'app {app!r} arguments {args!r} raise a parse error'
@@ -34,7 +34,7 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
         message = 'app {app!r} should have parentheses (only NoOp is exempt)'
 
     class W_APP_WSH(ErrorDef):
-        message = 'unexpected whitespace after app {app!r}'
+        message = 'unexpected whitespace before app {app!r}'
 
 
 class AppLoader(metaclass=Singleton):
-- 
2.43.0


From 7c5381aa63df0d3886b99476e31863df3091d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 58/76] fix: control characters around the equals sign crashed
 the parser

---
 asterisklint/configobj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 8f471bd..a44c3ed 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -88,12 +88,13 @@ class Context(object):
 
 class Varset(object):
     def __init__(self, variable, value, separator, comment, where):
-        clean_separator = separator.strip()
-        if clean_separator == '=>':
+        # Beware: str.strip() does not strip all that is \s in a regex in
+        # every python implementation.
+        if '=>' in separator:
             if separator != ' => ':
                 W_WSH_OBJSET(where)
             self.arrow = True
-        elif clean_separator == '=':
+        else:
             if separator != '=':
                 W_WSH_VARSET(where)
             self.arrow = False
-- 
2.43.0


From b7d478ffb5a97ed3f2d6fcdeb2debac73304835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 59/76] fix: a command that exits while it is loaded ended ls
 without a list

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index b4b1354..9e79c7a 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -139,7 +139,7 @@ def load_command(command, command_path=None):
         command_module = importlib.util.module_from_spec(spec)
         try:
             spec.loader.exec_module(command_module)
-        except Exception as exception:
+        except (Exception, SystemExit) as exception:
             raise NoSuchCommand('Could not load {!r}: {}'.format(
                 command, exception))
 
-- 
2.43.0


From 52b9334aef7431a8871e54fefb7469a0ddbd13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 60/76] fix: ls listed directories and dangling links, hiding
 the real commands

---
 asterisklint/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 9e79c7a..7877e7c 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -67,7 +67,9 @@ def list_commands(args, envs):
             pass
         else:
             for file_ in files:
-                if file_.endswith('.py') and COMMAND_RE.match(file_[0:-3]):
+                if (file_.endswith('.py') and
+                        COMMAND_RE.match(file_[0:-3]) and
+                        os.path.isfile(os.path.join(command_dir, file_))):
                     command_name = file_[0:-3]
                     if command_name not in commands_used:
                         try:
-- 
2.43.0


From 6ad2aa19de8062d72648b92441c9709e041a0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:44 +0000
Subject: [PATCH 61/76] fix: arguments without a command were ignored silently
 at times

---
 asterisklint/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 7877e7c..94b6cf3 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -199,3 +199,5 @@ def main(args, envs):
                   "commands"))
 
         args = parser.parse_args(args)  # will fail/exit, because .. no command
+        # It may take "-- -x" or "-x y" (with a space) for a command.
+        parser.error('invalid command {!r}'.format(args.command))
-- 
2.43.0


From 86ecdce2d865fcea689c75f9d5f73d96446946f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 62/76] fix: a command name may not end with a linefeed

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 94b6cf3..be498ec 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -25,7 +25,7 @@ from . import alintver
 
 # Don't allow leading underscores because then we'd find __init__ as
 # well.
-COMMAND_RE = re.compile(r'^[a-z0-9][a-z0-9_-]*$')
+COMMAND_RE = re.compile(r'^[a-z0-9][a-z0-9_-]*\Z')
 
 
 class NoSuchCommand(ValueError):
-- 
2.43.0


From 4235985c01fd7ec56d52a87a188acddf93e090b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:04 +0000
Subject: [PATCH 63/76] fix: the conditionals converter rewrote the wrong part
 of the line

It replaced the first text on the line that looked like the contents
of the conditional, be it the extension and priority or a comment. And
it bailed out on contents with an escaped semicolon.
---
 contrib/convert_dp_104_to_1100.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/contrib/convert_dp_104_to_1100.py b/contrib/convert_dp_104_to_1100.py
index 199d854..7b388ed 100755
--- a/contrib/convert_dp_104_to_1100.py
+++ b/contrib/convert_dp_104_to_1100.py
@@ -23,6 +23,7 @@ expected question-mark form.
 """
 from collections import defaultdict, namedtuple
 import os
+import re
 import sys
 
 if True:
@@ -54,6 +55,11 @@ class Aggregator(object):
 
 
 class ConvertDp104To1100Mutator(FileMutatorBase):
+    @staticmethod
+    def to_raw(text):
+        # The semicolons are still escaped in the file.
+        return text.encode('utf-8').replace(b';', b'\\;')
+
     def process_issue(self, issue, inline, outfile):
         if issue.app == 'ExecIf':
             assert issue.args, issue
@@ -63,12 +69,18 @@ class ConvertDp104To1100Mutator(FileMutatorBase):
             # BUG: issue.data is not the original raw data, but already
             # parsed data, so it may not stringify back into the
             # original...
-            needle = str(issue.data).encode('utf-8')
-            replacement = '{}?{}'.format(issue.cond, app_with_args)
-            replacement = replacement.encode('utf-8')
-
-            outline = inline.replace(needle, replacement, 1)
-            if inline == outline:
+            needle = self.to_raw('{}({}'.format(issue.app, issue.data))
+            replacement = self.to_raw('{}?{}'.format(
+                issue.cond, app_with_args))
+
+            # Look for the data directly after the app: the data may
+            # look like the other things on the line.
+            match = re.search(re.escape(needle), inline, re.IGNORECASE)
+            if match:
+                outline = (
+                    inline[0:match.start() + len(issue.app) + 1] +
+                    replacement + inline[match.end():])
+            else:
                 raise AssertionError(
                     "We did not replace anything in {!r} "
                     "for issue {!r} and data '{}'".format(
-- 
2.43.0


From 8c1063889d5bd010739490b07c3579559597ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 64/76] fix: the argument of an option is no list of options

VoiceMail(100,g(5)) was reported to have the bad options '(5)'.
---
 asterisklint/app/base.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index b6498cb..e201530 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -43,8 +43,25 @@ class AppOptions(AppArg):
         super().__init__('options')
         self.options = options
 
+    @staticmethod
+    def without_arguments(arg):
+        """
+        The literal option letters, without the arguments they may have:
+        "s" and "g" for "sg(5)".
+        """
+        # SOURCE: main/app.c -- ast_app_parse_options()
+        ret = []
+        arg = list(arg)
+        while arg:
+            option = arg.pop(0)
+            if isinstance(option, str):
+                ret.append(option)
+            if arg and arg[0] == '(' and ')' in arg:
+                del arg[0:arg.index(')') + 1]
+        return ret
+
     def validate(self, arg, where):
-        str_options = [i for i in arg if isinstance(i, str)]
+        str_options = self.without_arguments(arg)
         bad_options = [i for i in str_options if i not in self.options]
         if bad_options:
             E_APP_ARG_BADOPT(where, argno=self.argno, app=self.app,
-- 
2.43.0


From f6788a334f5d6a057c434423918d76e0ec3097ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 65/76] fix: do not read files that include themselves
 endlessly

---
 asterisklint/file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index b1ee361..f0f4c02 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -13,6 +13,9 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import errno
+import os
+
 from .defines import ErrorDef, WarningDef
 from .where import Where
 
@@ -65,6 +68,12 @@ class BinFileReader(object):
         self._opener = opener
 
     def include(self, filename):
+        # A file which includes itself, possibly through other files?
+        if self._filenames:
+            path = os.path.realpath(filename)
+            if any(os.path.realpath(i) == path for i in self._filenames):
+                raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), filename)
+
         fp = self._opener(filename)
 
         if hasattr(fp, 'mode'):
-- 
2.43.0


From 6d4877a400e2ceef7733bf62cc9647b0970780f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:18 +0000
Subject: [PATCH 66/76] fix: do not show a traceback if a file cannot be read

---
 asterisklint/mainutil.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asterisklint/mainutil.py b/asterisklint/mainutil.py
index c0a9141..ac2a762 100644
--- a/asterisklint/mainutil.py
+++ b/asterisklint/mainutil.py
@@ -15,6 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 import argparse
 import os
+import sys
 
 from . import FileFuncOdbcParser
 
@@ -32,7 +33,12 @@ class MainBase(object):
 
     def __call__(self, args, envs):
         args = self.parse_args(args)
-        return self.handle_args(args)
+        try:
+            return self.handle_args(args)
+        except OSError as exc:
+            # For example: the file does not exist.
+            print('asterisklint: {}'.format(exc), file=sys.stderr)
+            return 1
 
 
 class UniqueStore(argparse.Action):
-- 
2.43.0


From feab186175d8dbe8a01af492a1910ae7f9eb6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 67/76] fix: vg: in quotes, only the closing quote counts

---
 contrib/commands/vg.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index ac03499..52e1670 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -60,27 +60,15 @@ class VoipgridCommentReader(object):
 
         arr = [0]
         for i, char in enumerate(data):
-            if char == '"':
-                if arr[-1] == '"':
+            if arr[-1] in ('"', "'"):
+                # In quotes, we only look for the end of them.
+                if char == arr[-1]:
                     arr.pop()
-                else:
-                    arr.append('"')
-            elif char == "'":
-                if arr[-1] == "'":
-                    arr.pop()
-                else:
-                    arr.append("'")
-            elif char == '(':
-                if arr[-1] == '"':
-                    pass
-                else:
-                    arr.append('(')
+            elif char in ('"', "'", '('):
+                arr.append(char)
             elif char == ')':
-                if arr[-1] == '"':
-                    pass
-                else:
-                    if arr[-1] == '(':
-                        arr.pop()
+                if arr[-1] == '(':
+                    arr.pop()
             elif char == ';':
                 if len(arr) == 1:
                     i -= 1
-- 
2.43.0


From 4aa896ff1842a8a00e33ea2a0ba3606c48236118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 68/76] fix: vg: contexts that occur again did not replace the
 earlier ones

---
 contrib/commands/vg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 52e1670..573f56a 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -143,10 +143,8 @@ class VoipgridFileConfigParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileConfigParser = VoipgridFileConfigParser  # noqa
@@ -180,10 +178,8 @@ class VoipgridFileFuncOdbcParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileFuncOdbcParser = VoipgridFileFuncOdbcParser  # noqa
-- 
2.43.0


From aeb38851fe2dfdfeb673d880565642a50a8e332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 69/76] fix: vg: a second [general] or [globals] replaces the
 first, too

---
 contrib/commands/vg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 573f56a..7324026 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -156,10 +156,8 @@ class VoipgridFileDialplanParser(
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
         if context.name == 'general' and self._dialplan._general:
-            assert False, '[general] overridden?'
             self._dialplan._general = None
         elif context.name == 'globals' and self._dialplan._globals:
-            assert False, '[globals] overridden?'
             self._dialplan._globals = None
         elif context.name in self._prevcontexts:
             # Nasty. This is rather fragile, and doesn't even clean up
-- 
2.43.0


From 8d1992108579347cd61797f798dbf28d152a46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 70/76] fix: vg: know the include depth of the line that is
 yielded

---
 contrib/commands/vg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 7324026..d081ba9 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -44,6 +44,14 @@ class VoipgridCommentReader(object):
     the context, data and comments are already split, so both config
     "improvements" are performed without messing with Asterisk itself.
     """
+    _depth = 0
+
+    @property
+    def include_depth(self):
+        # We look one line ahead, but they want to know about the line
+        # that we yielded.
+        return self._depth
+
     @staticmethod
     def voipgrid_comment_split(data, where):
         """
@@ -88,6 +96,9 @@ class VoipgridCommentReader(object):
                 yield prev
                 prev = ()
 
+            if not prev:
+                self._depth = super().include_depth
+
             # We cannot escape whitespace, so no need to keep this
             # around.
             if data.endswith(tuple(' \t')):
-- 
2.43.0


From fbc3f763ebe548a6ab1b8ceabb14ff9cc52e0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:47 +0000
Subject: [PATCH 71/76] fix: look inside of joined variables that are joined
 again

---
 asterisklint/variable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 562d06f..818ebee 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -39,8 +39,16 @@ class Var(object):
     """
     @classmethod
     def join(self, variables):
-        copy = []
+        flat = []
         for var in variables:
+            if isinstance(var, Var) and var.name is None:
+                # This was joined before: its parts are not atoms.
+                flat.extend(var._list)
+            else:
+                flat.append(var)
+
+        copy = []
+        for var in flat:
             if not isinstance(var, (str, Var)):
                 raise TypeError(
                     'Variables can only consist of strings and other '
-- 
2.43.0


From 22a2e2b8f8a59c154dfe5f9e978eedfc9f81ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:40 +0000
Subject: [PATCH 72/76] fix: no canonical pattern that cannot be written as
 such in the file

---
 asterisklint/pattern.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 5f93447..c40c3d2 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -224,6 +224,12 @@ class Pattern(object):
         # a character, so keep any stray bytes.
         return bytes(values).decode('utf-8', 'surrogateescape')
 
+    def _starts_like_separator(self):
+        # Whether the first character would be taken for a part of the
+        # "=>" and the blanks after it, if there was no underscore.
+        start = self._decode((i[0] & 0xff) for i in self.values[1:-1])[0]
+        return start == '>' or start.isspace()
+
     @property
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
@@ -237,10 +243,12 @@ class Pattern(object):
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             # Beware: without the leading underscore a dash is ignored,
-            # and we do not want to introduce another underscore.
+            # and we do not want to introduce another underscore. And
+            # what comes after "exten =>" does not start with a blank.
             elif (self.values[0] == self.IS_A_PATTERN and
                     len(self.values) > 2 and
                     self.values[1] != (0x15f,) and  # '_'
+                    not self._starts_like_separator() and
                     (0x12d,) not in self.values and  # '-'
                     all(i[0] < 0x200 for i in self.values[1:-1])):
                 ret = self._decode((i[0] & 0xff) for i in self.values[1:-1])
@@ -291,7 +299,8 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3 and start + 1 != 0x5d:  # not ']'
+                        elif (length == 3 and
+                                start + 1 not in (0x2c, 0x5d)):  # ',' ']'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -306,10 +315,11 @@ class Pattern(object):
     def _canonical_pattern_add_range(self, ret, binstr):
         assert binstr
         ret.append(0x5b)
-        dash = (0x2d in binstr)
+        # A ']' can only be in here if it is in the middle of a range. So
+        # can a ',' in a dialplan: there is a '+' and a '-' around it then.
+        dash = (0x2d in binstr and not (0x2b in binstr and 0x2c in binstr))
         if dash:
             binstr.remove(0x2d)
-        # A ']' can only be in here if it is in the middle of a range.
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -320,7 +330,7 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3 and range_[0] + 1 != 0x5d:
+                if length <= 3 and range_[0] + 1 not in (0x2c, 0x5d):
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From 51e81f4d630dc28594fb65fb3d2089c0576e4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:11 +0000
Subject: [PATCH 73/76] fix: make_patterns_canonical: skip the same blanks as
 the parser

---
 contrib/make_patterns_canonical.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contrib/make_patterns_canonical.py b/contrib/make_patterns_canonical.py
index c61c558..bbdd9d8 100755
--- a/contrib/make_patterns_canonical.py
+++ b/contrib/make_patterns_canonical.py
@@ -22,6 +22,7 @@ changing the pattern from the current form to the expected form.
 """
 from collections import defaultdict, namedtuple
 import os
+import re
 import sys
 
 if True:
@@ -52,10 +53,12 @@ class Aggregator(object):
 
 class MakePatternsCanonicalMutator(FileMutatorBase):
     def process_issue(self, issue, inline, outfile):
-        # Split between "exten =>" and the rest.
-        linehead, linetail = inline.split(b'=', 1)
-        pattern = linetail.lstrip(b'>').lstrip()
-        linehead += b'=' + linetail[0:len(linetail) - len(pattern)]
+        # Split between "exten =>" and the rest. (The parser takes any
+        # unicode whitespace for a blank.)
+        linehead = re.match(
+            r'[^=]*=>?\s*', inline.decode('utf-8', 'surrogateescape')
+        ).group().encode('utf-8', 'surrogateescape')
+        pattern = inline[len(linehead):]
 
         # The semicolons are still escaped in the file.
         needle = issue.needle.replace(b';', b'\\;')
-- 
2.43.0


From 626c6b7fcdb12c8edda9e9bafebf09e6359e3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 74/76] fix: convert_dp_104_to_1100: do not rewrite the comment

---
 contrib/convert_dp_104_to_1100.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contrib/convert_dp_104_to_1100.py b/contrib/convert_dp_104_to_1100.py
index 7b388ed..27c9ce8 100755
--- a/contrib/convert_dp_104_to_1100.py
+++ b/contrib/convert_dp_104_to_1100.py
@@ -74,8 +74,10 @@ class ConvertDp104To1100Mutator(FileMutatorBase):
                 issue.cond, app_with_args))
 
             # Look for the data directly after the app: the data may
-            # look like the other things on the line.
-            match = re.search(re.escape(needle), inline, re.IGNORECASE)
+            # look like the other things on the line. It is not in the
+            # comment.
+            code = re.match(br'(?:[^;]|(?<=\\);)*', inline).group()
+            match = re.search(re.escape(needle), code, re.IGNORECASE)
             if match:
                 outline = (
                     inline[0:match.start() + len(issue.app) + 1] +
-- 
2.43.0


From 08de094d452b116ade659d925db81ad432f01028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:32 +0000
Subject: [PATCH 75/76] fix: an empty label is not a label that can be jumped
 to

---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index a60e596..866c257 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -302,7 +302,8 @@ class DialplanContext(Context):
                         if exten.prio == priority:
                             return exten
                     elif isinstance(priority, str):
-                        if exten.label == priority:
+                        # (An empty priority is no label at all.)
+                        if priority and exten.label == priority:
                             return exten
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
-- 
2.43.0


From 36a976464c1941769103bf2d137ac4aee58f063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:44 +0000
Subject: [PATCH 76/76] fix: rewrite a file with more than one name only once

---
 asterisklint/helper/mutator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 207484a..02eee00 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -37,7 +37,14 @@ class FileMutatorBase(object):
         mutator.request_permission_and_process()
     """
     def __init__(self, issues_per_file):
-        self.issues_per_file = issues_per_file
+        # The same file may be known by more than one name, but it is
+        # processed only once.
+        self.issues_per_file = {}
+        names = {}
+        for filename in sorted(issues_per_file):
+            name = names.setdefault(os.path.realpath(filename), filename)
+            self.issues_per_file.setdefault(name, []).extend(
+                issues_per_file[filename])
         self.filenames = list(sorted(self.issues_per_file.keys()))
 
     def request_permission_and_process(self):
-- 
2.43.0

