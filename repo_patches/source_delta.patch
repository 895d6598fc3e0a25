From 4b288ead1d76244b2d00c7586fcad8f3e33a69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:05 +0000
Subject: [PATCH 01/42] fix: merge overlapping and preceding changes correctly
 in Changes.add

The start of the merged region was never moved back when a later change
was located before the existing region.
---
 parce/treebuilderutil.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..93a2749 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -87,21 +87,13 @@ class Changes:
             self.removed = removed
             self.added = added
             return
-        # determine the offset for removed and added
-        if start + removed < self.start:
-            offset = self.start - start - removed
-        elif start > self.start + self.added:
-            offset = start - self.start - self.added
-        else:
-            offset = 0
-        # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        # the region that includes both the existing and the new change
+        head = min(self.start, start)
+        tail = max(self.start + self.added, start + removed)
         # set the new values
-        self.start = min(self.start, start)
-        self.removed += removed + offset
-        self.added += added + offset
+        self.removed += tail - head - self.added
+        self.added = tail - head - removed + added
+        self.start = head
 
     def has_changes(self):
         """Return True when there are actually changes."""
-- 
2.43.0


From 98e889b92d9f687ba2ca8bb5d09b4439416c0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 02/42] fix: Observable.emit calls every connected slot once,
 also when slots (dis)connect

Callbacks that disconnected themselves or others while being called caused
other callbacks to be skipped, or the wrong one to be removed.
---
 parce/util.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..6ddc164 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -374,26 +374,31 @@ class Observable:
 
         """
         s = contextlib.ExitStack()
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        # callbacks may connect and disconnect callbacks while being called
+        for observer in tuple(self._callbacks.get(event, ())):
+            if not any(o is observer for o in self._callbacks.get(event, ())):
+                continue    # was disconnected by another callback
+            if observer.once:
+                self._remove_observer(event, observer)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
             if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+                self._remove_observer(event, observer)
         return s
 
+    def _remove_observer(self, event, observer):
+        """Remove this very observer from the callbacks, if it is still there."""
+        slots = self._callbacks.get(event, ())
+        for i, o in enumerate(slots):
+            if o is observer:
+                del slots[i]
+                if not slots:
+                    del self._callbacks[event]
+                break
+
 
 class Switch:
     """A context manager that evaluates to True when in a context, else to False.
-- 
2.43.0


From 0250e59d6c0488ac9a1b174a3aadec29b482272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 03/42] fix: detect the UTF-32-LE byte order mark, which starts
 with the UTF-16-LE one

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 6ddc164..16598d0 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -729,10 +729,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
-        (codecs.BOM_UTF16_LE, 'utf_16_le'),
-        (codecs.BOM_UTF16_BE, 'utf_16_be'),
         (codecs.BOM_UTF32_LE, 'utf_32_le'),
         (codecs.BOM_UTF32_BE, 'utf_32_be'),
+        (codecs.BOM_UTF16_LE, 'utf_16_le'),
+        (codecs.BOM_UTF16_BE, 'utf_16_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From a7507fc22c8b6681936f778fba13c981bd588215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:45 +0000
Subject: [PATCH 04/42] fix: the lexer skips a character when a zero-width
 target is circular or has no effect, instead of looping forever

---
 parce/lexer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..573eb96 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,11 +156,15 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
-                        state = (pos, len(lexicons), len(target.push))
-                        if state in circular:
-                            if target.push and pos < len(text):
+                        noop = not target.pop and not target.push
+                        state = (pos, tuple(lexicons), target.push)
+                        if noop or state in circular:
+                            # same state again, or nothing to do: skip a character
+                            if noop or target.push:
+                                if pos >= len(text):
+                                    return
                                 pos += 1
-                            circular.clear()
+                                circular.clear()
                         else:
                             circular.add(state)
                         lexicons.extend(target.push)
-- 
2.43.0


From 65929c9b79d2d1eaf8ed3b5e8bccd54141c5a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:45 +0000
Subject: [PATCH 05/42] fix: do not match the empty string forever in a lexicon
 with a default target

---
 parce/lexicon.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..f491497 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -424,11 +424,12 @@ class Lexicon:
                     m = match(text, pos)
                     if m:
                         yield token(m)
-                        pos = m.end()
-                    else:
-                        if pos < len(text):
-                            yield pos, "", None, None, default_target
-                        break
+                        if m.end() > pos:
+                            pos = m.end()
+                            continue
+                    if pos < len(text):
+                        yield pos, "", None, None, default_target
+                    break
         else:
             finditer = rx.finditer
             def parse(text, pos):
-- 
2.43.0


From 49182446b3c8fd64b44b49146663d415fa1eceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 06/42] fix: discard the collected edits when they turn out to
 overlap

---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 7937365f1f3c4763b06b76788132fbd3ea380634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 07/42] fix: update all cursors correctly when several changes
 are made at once

---
 parce/document.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..e5fa624 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,23 +81,18 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        cursors = [(c, c.pos, c.end) for c in self._cursors]
+        offset = 0
+        # all changes and the original cursor positions refer to the old text
         for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
-                    if end >= c.pos:
-                        c.pos = start
-                    else:
-                        c.pos += start + len(text) - end
-                if c.end is not None and c.end >= start:
-                    if end >= c.end:
-                        c.end = start + len(text)
-                    else:
-                        c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
+            new_start = start + offset
+            new_end = new_start + len(text)
+            offset = new_end - end
+            for c, c_pos, c_end in cursors:
+                if c_pos > start:
+                    c.pos = new_start if end >= c_pos else c_pos + offset
+                if c_end is not None and c_end >= start:
+                    c.end = new_end if end >= c_end else c_end + offset
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From 551fe58e859cb8034ebcdef0df63d509881a9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 08/42] fix: emit undo_available and redo_available also when
 the last undo or redo step is used

---
 parce/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index e5fa624..5a5143a 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -369,7 +369,8 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
+            with self._check_undo_state():
+                changes, modified = stack.pop()
             with switch, self:
                 for start, end, text in changes:
                     self[start:end] = text
-- 
2.43.0


From 7baec62895173f418d3cdaa39da1d5e58c7874be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:57 +0000
Subject: [PATCH 09/42] fix: Registry.find consults the fallback also when the
 registry itself is empty

---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From 4de6f2a622b236084b755f823ac5dcb399fa0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 10/42] fix: an !important CSS declaration is not overridden by
 one of lower precedence, empty values are no error

---
 parce/css.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..06144ef 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -400,14 +400,13 @@ class Style:
         for rule in self.rules:
             for key, value in rule.properties.items():
                 important = False
-                if value[-1] == '!important':
+                if value[-1:] == ['!important']:
                     value = value[:-1]
                     important = True
-                if key not in result:
+                if key not in result or (important and key not in important_properties):
                     result[key] = value
-                elif important and key not in important_properties:
-                    result[key] = value
-                    important_properties.add(key)
+                    if important:
+                        important_properties.add(key)
         return result
 
 
-- 
2.43.0


From 1ee61d418c4636a1da2503e339767ebfc354f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 11/42] fix: a normal declaration does not override an
 !important one in the same CSS rule

---
 parce/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 06144ef..dce00be 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -933,7 +933,8 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
-                d[prop] = values
+                if values[-1:] == ['!important'] or d.get(prop, [])[-1:] != ['!important']:
+                    d[prop] = values
         return d
 
     def declaration(self, items):
-- 
2.43.0


From cafd0fb20ab2059e755cc85dd3b20f3d485a26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 12/42] fix: find quoted CSS strings

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index dce00be..a95c806 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From f9a8793b011f1423604024b7057a38046adb6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 13/42] fix: zero, fractional and percentage values in rgb()
 and rgba() colors

---
 parce/css.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index a95c806..024e664 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1279,7 +1279,7 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
         if r != -1: r = self.get_number_value(r, 255)
         g = next(values, -1)
@@ -1300,10 +1300,10 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
         if n < 0: n = 0
         if n > maximum: n = maximum
-        return n
+        return type(maximum)(n)
 
 
 class Value:
-- 
2.43.0


From da8631b53e47e0ad158b2d62127a82d3adadb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 14/42] fix: a CSS rule without selectors is no error

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 024e664..774d479 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1381,7 +1381,7 @@ def calculate_specificity(prelude):
                 clss += total('attribute_selector', 'class_selector', 'pseudo_class')
                 elts += total('element_selector', 'pseudo_element')
         specificities.append((ids, clss, elts))
-    return max(specificities)
+    return max(specificities, default=(0, 0, 0))
 
 
 def color2hex(color):
-- 
2.43.0


From 0b04d03b29d85d30f1ad11082d326a0bdb713a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 15/42] fix: the CSS universal selector and selectors needing
 backtracking match all elements they describe

---
 parce/css.py | 61 ++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 774d479..03b3cfb 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -561,46 +561,31 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
+        *selectors, operator = selectors[:-1] or [None]
+        if not selectors:
+            return True
+        if operator == ">":
+            # parent should match
+            element = self.get_parent()
+            return element is not None and element.match_selectors(selectors)
+        elif operator == " ":
+            # an ancestor should match
+            element = self.get_parent()
+            while element is not None:
+                if element.match_selectors(selectors):
+                    return True
                 element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
-        return True
+            return False
+        elif operator == "+":
+            # immediate sibling should match
+            element = self.previous_sibling()
+            return element is not None and element.match_selectors(selectors)
+        else: # operator == "~":
+            # a sibling should match
+            return any(element.match_selectors(selectors)
+                       for element in self.previous_siblings())
 
     def match_selector(self, selector):
         """Match with a single CSS selector dictionary.
-- 
2.43.0


From 5a762c1bc4da34e5913df4cfa01bee293c6625da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 16/42] fix: CSS attribute selectors with an empty value

---
 parce/css.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 03b3cfb..935c9b3 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -610,7 +610,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -623,6 +623,9 @@ class AbstractElement:
                 elif operator == "|=":
                     if text != value and not value.startswith(text + "-"):
                         return False
+                elif not text:
+                    # the other operators never match an empty value
+                    return False
                 elif operator == "^=":
                     if not value.startswith(text):
                         return False
@@ -978,7 +981,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 09e205b41e8c485ce805a9633be07cb7e4d715c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 17/42] fix: a CSS escape that is no valid codepoint yields the
 replacement character

---
 parce/css.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/css.py b/parce/css.py
index 935c9b3..15e6159 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1178,6 +1178,8 @@ class CssTransform(Transform):
             codepoint = int(value, 16)
         except ValueError:
             return value
+        if codepoint > 0x10ffff:
+            return '\ufffd'
         return chr(codepoint)
 
     def get_string(self, items):
-- 
2.43.0


From bbe772dcf635dc2e1db507f4b9da82af4f09220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 18/42] fix: TextFormat only reads Value instances, and accepts
 empty font properties

---
 parce/theme.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..7485962 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,8 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # values may also contain delimiters, like a comma
+            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
 
     def __bool__(self):
         """Return True if at least one property is set."""
@@ -461,8 +462,7 @@ class TextFormat:
 
     @_dispatch("font-style")
     def read_font_style(self, values):
-        v = values[0]
-        for n in values[1:] + [None]:
+        for v, n in zip(values, values[1:] + [None]):
             if v.text in ("normal", "italic"):
                 self.font_style = v.text
                 return
@@ -472,7 +472,6 @@ class TextFormat:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                     return
-            v = n
 
     @_dispatch("font-variant-caps")
     def read_font_variant_caps(self, values):
-- 
2.43.0


From 68394821437ca6df727a2e488f4bc777b0f8e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 19/42] fix: StyleSheet: @import without media query

---
 parce/css.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 15e6159..1d7f07f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -223,6 +223,7 @@ class StyleSheet:
 
         """
         filenames = {filename}
+        imported_filenames = []
 
         def get_import_rules(values):
             """Yield rules from an @import at-rule.
@@ -232,7 +233,7 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
                     fname = os.path.join(os.path.dirname(filename), fname)
                     # avoid circular @import references
@@ -245,7 +246,7 @@ class StyleSheet:
                             s = cls.from_css(icss, fname, path, allow_import)
                             yield Condition("import", values, s)
                         else:
-                            self._imported_filenames.append(fname)
+                            imported_filenames.append(fname)
                             yield from get_rules(icss)
                     return
 
@@ -272,7 +273,9 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        sheet = cls(get_rules(css), filename)
+        sheet._imported_filenames.extend(imported_filenames)
+        return sheet
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
@@ -484,7 +487,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
-- 
2.43.0


From f214d451df64c6327c292647988e77c03ec401f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:36 +0000
Subject: [PATCH 20/42] fix: Transformer.invalidate_node accepts nodes that are
 not in the cache

---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..be9d4de 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -397,7 +397,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From a9e1238035d2d44694bad440b1de94e003b10eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 21/42] fix: merge_adjacent yields tuples by default

---
 parce/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/util.py b/parce/util.py
index 16598d0..e243c65 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -687,6 +687,8 @@ def merge_adjacent(stream, factory=tuple):
     or any other type to wrap the streams items in.
 
     """
+    if factory is tuple:
+        factory = lambda *args: args
     stream = iter(stream)
     for pos, end, *rest in stream:
         for npos, nend, *nrest in stream:
-- 
2.43.0


From 836c230fb5191abd6a0921e4717ed5aa2af36305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 22/42] fix: a Range between two adjacent tokens has no tokens

---
 parce/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..9800164 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -1004,6 +1004,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From d5d6c56027c85d78440bc66fc598c00e9da885b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:23 +0000
Subject: [PATCH 23/42] fix: format_ranges with several themes yields only the
 tokens in the range, and formats regions without tokens

---
 parce/formatter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..9c6c750 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -165,8 +165,6 @@ class AbstractFormatter:
 
         """
         r = tree.range(start, end)
-        if not r:
-            return
 
         format_caches = self.format_caches()   # caches for all added themes
         cache = format_caches.get              # quick access
@@ -176,6 +174,10 @@ class AbstractFormatter:
             # there is no default theme, don't yield tokens and use empty fc
             fc = FormatCache(None, None, lambda action: None,
                 lambda role, state: None, None)
+            r = None
+
+        if not r:
+            # there are no tokens in the specified region
             def tokens():
                 return
                 yield
@@ -202,7 +204,7 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
+                    n = nodes = context[slice_]
                     stack = []
                     i = 0
                     while True:
@@ -220,6 +222,8 @@ class AbstractFormatter:
                                 n = n.parent
                                 check_lang(n.lexicon.language)
                                 i = stack.pop() + 1
+                                if not stack:
+                                    n = nodes   # the slice we started with
                             else:
                                 break
 
-- 
2.43.0


From d9193c255a265d8693f80980881f28d85d5be10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 24/42] fix: Node.ancestors stops at the root when upto is not
 an ancestor

---
 parce/tree.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parce/tree.py b/parce/tree.py
index 9800164..0f2e7d0 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -190,15 +190,11 @@ class Node:
 
         """
         node = self.parent
-        if upto and upto.parent is not None:
-            p = upto.parent
-            while node is not None and node is not p:
-                yield node
-                node = node.parent
-        else:
-            while node is not None:
-                yield node
-                node = node.parent
+        while node is not None:
+            yield node
+            if node is upto:
+                break
+            node = node.parent
 
     def ancestors_with_index(self, upto=None):
         """Yield the ancestors(upto), and the index of each node in the parent."""
-- 
2.43.0


From c6775a142f5429bb1f6ac4fd39a2a95d6fc7d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 25/42] fix: do not evaluate dynamic actions for groups that
 did not contribute to the match

---
 parce/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/lexer.py b/parce/lexer.py
index 573eb96..7485ce5 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -177,6 +177,8 @@ class Lexer:
 
     def filter_actions(self, action, pos, text, match):
         """Handle filtering via DynamicAction instances."""
+        if text is None:
+            return  # a group that did not contribute to the match
         if isinstance(action, Item):
             if isinstance(action, ActionItem):
                 yield from action.replace(self, pos, text, match)
-- 
2.43.0


From 2d4eef5541a2e45853990783ff71dac8f1ecb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 26/42] fix: do not use a plain string search in a lexicon with
 re.VERBOSE

---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index f491497..e3fb596 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0


From cfbf401034cabf1bde5b3adc031ded6d1faee882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:40 +0000
Subject: [PATCH 27/42] fix: Node.delete removes the emptied parent contexts,
 not other nodes

---
 parce/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 0f2e7d0..28988cd 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -308,7 +308,8 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
+        # get the indices first, an empty context can't be found on position
+        for parent, index in tuple(self.ancestors_with_index()):
             del parent[index]
             if len(parent):
                 return parent
-- 
2.43.0


From 2813cba3337ea00c7a2e19ae69a723f908089e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 28/42] fix: keep the last valid token when a tree build is
 restarted by a new change

---
 parce/treebuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..7fe51a6 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,11 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    # keep the tokens that remained the same, events follow them
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From 0de0cf01e2862ee4584eaf793666cd9cd973b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:41 +0000
Subject: [PATCH 29/42] fix: also update the root lexicon when it changes to a
 derivate of the same lexicon

---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 7fe51a6..a6a0f1c 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -387,7 +387,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From f6e98ff963dc78bb2b8433764c71e8fc3c892230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:49 +0000
Subject: [PATCH 30/42] fix: transform_text handles untransformed contexts like
 transform_tree

---
 parce/transform.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index be9d4de..d709ac0 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,20 +214,23 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
-            Returns the tree and the next event (if any), with adapted pop
-            value.
+            The ``lexemes`` are the ones that belong to the last of the
+            lexicons. Returns the tree and the next event (if any), with
+            adapted pop value.
 
             """
             tree = context = Context(lexicons[0], None)
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
-                    for pop in range(target.pop, 0):
+                    # pop is what remains to be popped after leaving context
+                    for pop in range(target.pop + 1, 1):
                         if context is tree:
                             return tree, Event(make_target(pop, target.push), lexemes)
                         context = context.parent
@@ -280,7 +283,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +291,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From 0433a4f49d79e6d3bf1386221906327f706f6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 31/42] fix: the sibling queries accept the root node

---
 parce/query.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parce/query.py b/parce/query.py
index 9687785..920bc27 100644
--- a/parce/query.py
+++ b/parce/query.py
@@ -505,29 +505,33 @@ class Query:
     def right(self):
         """Yield the right sibling, if any."""
         for n in self:
-            n = n.right_sibling()
-            if n:
-                yield n
+            if n.parent:    # the root has no siblings
+                n = n.right_sibling()
+                if n:
+                    yield n
 
     @pquery
     def left(self):
         """Yield the left sibling, if any."""
         for n in self:
-            n = n.left_sibling()
-            if n:
-                yield n
+            if n.parent:    # the root has no siblings
+                n = n.left_sibling()
+                if n:
+                    yield n
 
     @pquery
     def right_siblings(self):
         """Yield the right siblings, if any."""
         for n in self:
-            yield from n.right_siblings()
+            if n.parent:    # the root has no siblings
+                yield from n.right_siblings()
 
     @pquery
     def left_siblings(self):
         """Yield the left siblings, if any."""
         for n in self:
-            yield from n.left_siblings()
+            if n.parent:    # the root has no siblings
+                yield from n.left_siblings()
 
     @query
     def map(self, function):
-- 
2.43.0


From 1daca5c787cbea424c2b117054d61d1c76b693ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:51 +0000
Subject: [PATCH 32/42] fix: target.variations accepts an index that is a
 dynamic item

---
 parce/ruleitem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index c295554..817eff7 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -268,7 +268,10 @@ class target(RuleItem):
             yield value
         else:
             index, arg = value
-            yield self._lexicons[index]
+            if isinstance(index, Item):
+                yield from self._lexicons
+            else:
+                yield self._lexicons[index]
 
     def _repr_args(self):
         return (self._value, *self._lexicons)
-- 
2.43.0


From 96c5b6708def697a0303e3bbce03d23a3d728122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 33/42] fix: IO.find_encoding also finds coding: without en, as
 documented

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..f8ccb7d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
         if m:
             return m.group(1)
 
-- 
2.43.0


From b6a1c97c239f425aad8ffc9a125b813bcaa44872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 34/42] fix: ignore an encoding mentioned in the text that is
 not a usable text encoding

---
 parce/docio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index f8ccb7d..26946a8 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -39,7 +39,6 @@ see if an encoding is defined there, and use that for I/O operations.
 
 """
 
-import codecs
 import collections
 import io
 import os
@@ -335,8 +334,8 @@ def _validate_encoding(encoding):
     """
     if encoding:
         try:
-            codecs.lookup(encoding)
+            "".encode(encoding)     # LookupError if unknown or not a text encoding
             return encoding
-        except LookupError:
+        except (LookupError, ValueError):
             pass
 
-- 
2.43.0


From 0bd8b98f76866e7e8def896d3151f5851e8f4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:00 +0000
Subject: [PATCH 35/42] fix: a document read with a UTF-16 or UTF-32 byte order
 mark is saved with one

---
 parce/docio.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 26946a8..60ecc7c 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -56,6 +56,12 @@ DecodeResult.encoding.__doc__ = "The encoding that was specified or determined,
 
 
 DEFAULT_ENCODING = "utf-8"      #: The general default encoding, if a Language does not define another.
+_BOM_WRITING_ENCODINGS = {
+    "utf_16_le": "utf-16",
+    "utf_16_be": "utf-16",
+    "utf_32_le": "utf-32",
+    "utf_32_be": "utf-32",
+}
 TEMP_TEXT_MAXSIZE = 5000        #: The maximum size of a text snippet that is searched for an encoding.
 
 
@@ -298,9 +304,10 @@ def decode_data(
     actual_read_enc = read_enc or doc_enc or encoding or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING
 
     # If no encoding was specified, remember the encoding set in the document
-    # or determined via the BOM.
+    # or determined via the BOM (in a form that writes the BOM again, otherwise
+    # the saved data could not be recognized anymore).
     if not encoding:
-        encoding = doc_enc or read_enc
+        encoding = doc_enc or _BOM_WRITING_ENCODINGS.get(read_enc, read_enc)
 
     # now let Python decode the text
     text = io.TextIOWrapper(io.BytesIO(data), actual_read_enc, errors, newline).read()
-- 
2.43.0


From d7cf4cdc721ac016fbaddf84137e8f90cb12fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 36/42] fix: encode_text uses the default encoding of the
 language like decode_data when the text mentions an unusable one

---
 parce/docio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 60ecc7c..7956b2a 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -324,8 +324,8 @@ def encode_text(text, root_lexicon=None, encoding=None, newline=None):
     """
     if not encoding:
         h = IO.get(root_lexicon)
-        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])
-                    or h.default_encoding()) or DEFAULT_ENCODING
+        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])) \
+                    or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING
     b = io.BytesIO()
     with io.TextIOWrapper(b, encoding=encoding, newline=newline) as f:
         f.write(text)
-- 
2.43.0


From b11b22da22edc0cd4172db55ece26ffdee522db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 37/42] fix: a document read with a UTF-8 byte order mark is
 also saved with one

---
 parce/docio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/docio.py b/parce/docio.py
index 7956b2a..50eab58 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -57,6 +57,7 @@ DecodeResult.encoding.__doc__ = "The encoding that was specified or determined,
 
 DEFAULT_ENCODING = "utf-8"      #: The general default encoding, if a Language does not define another.
 _BOM_WRITING_ENCODINGS = {
+    "utf-8": "utf-8-sig",
     "utf_16_le": "utf-16",
     "utf_16_be": "utf-16",
     "utf_32_le": "utf-32",
-- 
2.43.0


From 6b934dfe7feda7fbb764e3f91aa418ea7f07bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:46 +0000
Subject: [PATCH 38/42] fix: a font size or font style without unit or angle
 does not keep that of another text format

---
 parce/theme.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parce/theme.py b/parce/theme.py
index 7485962..10bc1fa 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -444,6 +444,7 @@ class TextFormat:
                           "large", "x-large", "xx-large", "xxx-large",
                           "larger", "smaller"):
                 self.font_size = v.text
+                self.font_size_unit = None
                 return
             elif v.number is not None:
                 self.font_size = v.number
@@ -465,9 +466,13 @@ class TextFormat:
         for v, n in zip(values, values[1:] + [None]):
             if v.text in ("normal", "italic"):
                 self.font_style = v.text
+                self.font_style_angle = None
+                self.font_style_angle_unit = None
                 return
             elif v.text == "oblique":
                 self.font_style = v.text
+                self.font_style_angle = None
+                self.font_style_angle_unit = None
                 if n and n.number is not None:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
-- 
2.43.0


From 33cbc20905f3cbbf00130032428f71c878db52e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:19 +0000
Subject: [PATCH 39/42] fix: leave the at-rule after the block of a nested CSS
 at-rule, so the rules after it are found

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..5138ede 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -228,7 +228,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule contexts
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From 0a74bfcd4c6e4a0a1074f8f37e11594bfc03abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:38 +0000
Subject: [PATCH 40/42] fix: the indent of a whitespace-only line is its
 whitespace

---
 parce/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..69e06f9 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,9 +302,9 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text) - len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From 1ec3d54b8fec4dc2612813b43f978cb2b99be995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:52 +0000
Subject: [PATCH 41/42] fix: write a font-stretch percentage with its percent
 sign

---
 parce/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 10bc1fa..afa196b 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -347,7 +347,7 @@ class TextFormat:
         elif self.font_style:
             yield "font-style", self.font_style
         if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+            yield "font-stretch", self.font_stretch if isinstance(self.font_stretch, str) else "{}%".format(self.font_stretch)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
-- 
2.43.0


From 9278fa71d17a6d0c960bcdf6c4237595575df9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:46 +0000
Subject: [PATCH 42/42] fix: transparent is a CSS colour

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 1d7f07f..224d3e8 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1072,7 +1072,7 @@ class CssTransform(Transform):
             funcargs = items[-1].obj
             return self.get_css_function_call(text, funcargs)
         from .lang.css_words import CSS3_NAMED_COLORS
-        if action is a.Literal.Color or text in CSS3_NAMED_COLORS:
+        if action is a.Literal.Color or text in CSS3_NAMED_COLORS or text == "transparent":
             color = self.get_named_color(text)
             return Value(color=color, text=text)
         return Value(text=text)
-- 
2.43.0

