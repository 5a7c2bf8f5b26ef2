From 22af0fe7cb0c3c934659d2b7f0ce72f9bceecf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 01/57] fix: diagnose empty labels and unterminated strings
 instead of crashing or dropping text

---
 necroassembler/tokenizer.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..802513f 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -1,13 +1,24 @@
 '''Exposes the assembly source code tokenization features'''
+from necroassembler.exceptions import AssemblerException
 from necroassembler.statements import Instruction, Directive, Label
 
 
-class InvalidLabel(Exception):
-    '''Raised when a label is specified after other tokens'''
+class InvalidLabel(AssemblerException):
+    '''Raised when a label is empty or specified after other tokens'''
+
+    message = 'invalid label'
 
     def __init__(self, tokenizer):
-        super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+        super().__init__(tokenizer.location)
+
+
+class UnterminatedString(AssemblerException):
+    '''Raised when a quote is never closed'''
+
+    message = 'unterminated string'
+
+    def __init__(self, tokenizer):
+        super().__init__(tokenizer.location)
 
 
 class Tokenizer:
@@ -22,6 +33,13 @@ class Tokenizer:
         self.line = 1
         self.context = context
 
+    @property
+    def location(self):
+        '''Human readable position of the Tokenizer'''
+        if self.context is not None:
+            return 'at line {0} of {1}'.format(self.line, self.context)
+        return 'at line {0}'.format(self.line)
+
     def step(self, char):
         """Advances the Tokenizer State Machine
 
@@ -87,10 +105,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
@@ -142,3 +159,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedString(self)
-- 
2.43.0


From c18bbe6b8f5a88fc8bf6876e1739b3462f5eb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 02/57] fix: a text operand pattern must not match its single
 characters (LD (0),A became LD (C),A)

---
 necroassembler/cpu/lr35902.py | 2 +-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..524c214 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -100,7 +100,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', ('C', '$FF00+C'), ')', 'A') or instr.match('[', ('C', '$FF00+C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..13e20d4 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -71,7 +71,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -89,7 +89,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From 90542e5ef71366e0290c9932740ad9da17b85276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 03/57] fix: do not substitute defines and macro arguments
 inside quoted text

---
 necroassembler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 9242d22..402f817 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -144,6 +144,9 @@ def is_valid_name(name):
 def substitute_with_dict(tokens, _dict, start):
     for i in range(start, len(tokens)):
         name = tokens[i]
+        # quoted text is data, never touch it
+        if name[0] in ('"', '\''):
+            continue
         # simple case first
         if name in _dict:
             tokens[i] = _dict[name]
-- 
2.43.0


From ebbd8313b12e42a1d62359e9c987379d07da06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 04/57] fix: redefining a name (or a macro parameter named as a
 define) must not substitute the name itself

---
 necroassembler/statements.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 13e20d4..d9d7c49 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -121,11 +121,20 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        if key.upper() == 'DEFINE':
+            # the name being defined must not be replaced by its old value
+            substitute_with_dict(self.tokens, assembler.defines, 2)
+        elif key.upper() == 'MACRO':
+            # macro parameters hide the defines with the same name
+            name = self.tokens[1:2]
+            substitute_with_dict(name, assembler.defines, 0)
+            self.tokens[1:2] = name
+        else:
+            # skip directive for defines substitution
+            substitute_with_dict(self.tokens, assembler.defines, 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From 0c81b0cf87be86590e05f6671ab7a8ea75128e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 05/57] fix: tolerate empty define values when looking for
 quoted text

---
 necroassembler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 402f817..2dcfe7c 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -145,7 +145,7 @@ def substitute_with_dict(tokens, _dict, start):
     for i in range(start, len(tokens)):
         name = tokens[i]
         # quoted text is data, never touch it
-        if name[0] in ('"', '\''):
+        if name[:1] in ('"', '\''):
             continue
         # simple case first
         if name in _dict:
-- 
2.43.0


From 472201e244c9ea235b688d6087a682ea6118b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 06/57] fix: quoted operator characters and empty operands must
 not crash the expression parser

---
 necroassembler/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..fd01113 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -309,7 +309,7 @@ class Assembler:
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
-        if token[0] == '\'' and token[2] == '\'':
+        if len(token) == 3 and token[0] == '\'' and token[2] == '\'':
             return ord(token[1:2]), False
 
         for prefix in self.hex_prefixes:
@@ -832,6 +832,9 @@ class Assembler:
     def _get_math_formula(self, token):
         pre_formula = ''
         post_formula = ''
+        # the operators are plain data in a quoted char
+        if token.startswith('\''):
+            return token, pre_formula, post_formula
         for char in token:
             if char in ('<', '>'):
                 pre_formula += char
-- 
2.43.0


From 655f20438e6fbb68610e07293282d5ff583e27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 07/57] fix: suffixed hexadecimal numbers with letters were
 taken as labels

---
 necroassembler/assembler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index fd01113..68ac487 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -330,8 +331,10 @@ class Assembler:
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
+                # a leading digit distinguishes numbers from names
+                digits = token[:-len(suffix)]
+                if digits[:1].isdigit() and all(x in hexdigits for x in digits):
+                    return int(digits, 16), False
 
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
-- 
2.43.0


From 6127832240cc97f67c6e9e2bf86435eba721cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 08/57] fix: .log with an unknown argument must be diagnosed

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 68ac487..ea42d1e 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -590,7 +590,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 526861da3329f590b70b49c706f12abd975d580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 09/57] fix: an expression starting with a signed number was
 taken as a label

---
 necroassembler/assembler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index ea42d1e..3546e66 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -848,9 +848,8 @@ class Assembler:
         valid_chars = 0
         for char in token[len(pre_formula):]:
             if not in_math:
-                if char in ('+', '-', '*', '/', '&', '|'):
-                    if valid_chars < 1:
-                        break
+                # an operator in front is the sign of the first operand
+                if valid_chars > 0 and char in ('+', '-', '*', '/', '&', '|'):
                     in_math = True
                     post_formula += char
                 else:
-- 
2.43.0


From 11d74e7979a88a48d04215b99a3bcec3c65f1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 10/57] fix: the last byte of a bounded org was not filled

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 3546e66..e203e14 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -199,7 +199,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.pc <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From e88d6cfc0a3d0a7a50249693a00235781b8c1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 11/57] fix: overrunning a bounded org must be diagnosed, and a
 rejected org must not change the current one

---
 necroassembler/assembler.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index e203e14..1c2e5ae 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -199,6 +199,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
+            self._check_org_overrun()
             if self.pc <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
@@ -486,28 +487,35 @@ class Assembler:
         previous_org_end = self.current_org_end
         previous_org_counter = self.org_counter
 
-        self.current_org = start
-        self.current_org_end = end
-        self.org_counter = 0
         # check if need to fill
         if previous_org_end > 0:
+            self._check_org_overrun()
             # overlap check:
-            if previous_org + previous_org_counter > self.current_org:
+            if previous_org + previous_org_counter > start:
                 raise AddressOverlap()
             # NOTE: we have to NOT set org_counter here! (leave it as 0, as this is a new one .org)
             # new org is is higher than the previous end
-            if self.current_org > previous_org_end:
+            if start > previous_org_end:
                 blob = bytes([self.fill_value] * ((previous_org_end + 1) -
                                                   (previous_org + previous_org_counter)))
                 self.assembled_bytes += blob
             # new org is lower than previous end but higher than previous start
-            elif self.current_org <= previous_org_end and self.current_org > previous_org:
-                blob = bytes([self.fill_value] * (self.current_org -
+            elif start > previous_org:
+                blob = bytes([self.fill_value] * (start -
                                                   (previous_org + previous_org_counter)))
                 self.assembled_bytes += blob
             else:
                 raise AddressOverlap()
 
+        self.current_org = start
+        self.current_org_end = end
+        self.org_counter = 0
+
+    def _check_org_overrun(self):
+        # a bounded org cannot contain more than its (inclusive) size
+        if self.pc > self.current_org_end + 1:
+            raise AddressOverlap()
+
     def directive_org(self, instr):
         if len(instr.tokens) not in (2, 3):
             raise InvalidArgumentsForDirective(instr)
-- 
2.43.0


From fe2e6cd6f1f98030e66b2736a8d5447251c6e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 12/57] fix: an included file must not close the bounded org of
 the including one

---
 necroassembler/assembler.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 1c2e5ae..d8b8b0b 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -183,19 +183,7 @@ class Assembler:
         self.macro_recording = None
 
     def assemble(self, code, context=None):
-        tokenizer = Tokenizer(context=context)
-        tokenizer.parse(code)
-
-        for statement in tokenizer.statements:
-            current_index = len(self.assembled_bytes)
-            statement.assemble(self)
-            if self.log:
-                new_index = len(self.assembled_bytes)
-                if new_index == current_index:
-                    print('not assembled {0}'.format(statement))
-                else:
-                    print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
-                                                                     ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
+        self._assemble_source(code, context)
 
         # check if we need to fill something
         if self.current_org_end > 0:
@@ -211,6 +199,21 @@ class Assembler:
             self.sections[self.current_section]['size'] = len(
                 self.assembled_bytes) - self.sections[self.current_section]['offset']
 
+    def _assemble_source(self, code, context):
+        tokenizer = Tokenizer(context=context)
+        tokenizer.parse(code)
+
+        for statement in tokenizer.statements:
+            current_index = len(self.assembled_bytes)
+            statement.assemble(self)
+            if self.log:
+                new_index = len(self.assembled_bytes)
+                if new_index == current_index:
+                    print('not assembled {0}'.format(statement))
+                else:
+                    print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
+                                                                     ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
+
     def assemble_file(self, filename):
         with open(filename) as f:
             self.assemble(f.read(), filename)
@@ -745,7 +748,7 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self._assemble_source(f.read(), context=filename)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From 026642d97171e004de82a034b80510cc4950be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 13/57] fix: .goto and .upto compared addresses with the size
 of the image

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d8b8b0b..bc4fea9 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -625,7 +625,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -641,7 +641,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.org_counter:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From f016a67daa4edc433b15554b50f8c9054b27acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 14/57] fix: negative (or zero) sizes for .fill, .ram, .align
 and .repeat must be diagnosed

---
 necroassembler/assembler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index bc4fea9..bfc5bfe 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -608,8 +608,8 @@ class Assembler:
     def directive_fill(self, instr):
         if len(instr.tokens) not in (2, 3):
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
-        if size is None:
+        size = self.parse_integer(instr.tokens[1], 64, True)
+        if size is None or size < 0:
             raise InvalidArgumentsForDirective(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -654,7 +654,7 @@ class Assembler:
     def directive_ram(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
@@ -662,8 +662,8 @@ class Assembler:
     def directive_align(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
-        if size is None:
+        size = self.parse_integer(instr.tokens[1], 64, True)
+        if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
 
         mod = (self.current_org + self.org_counter) % size
@@ -676,7 +676,7 @@ class Assembler:
             raise UnsupportedNestedRepeat(instr)
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-- 
2.43.0


From c8e24b9e1abf9794eef1f771ea8421f503bd29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 15/57] fix: label references and reserved space inside .repeat
 were not repeated

---
 necroassembler/assembler.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index bfc5bfe..3e7b0d9 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+import copy
 from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
@@ -680,17 +681,31 @@ class Assembler:
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-        self.repeat = (size, len(self.assembled_bytes))
+        self.repeat = (size, len(self.assembled_bytes),
+                       self.current_org, self.org_counter)
 
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
 
-        size, index = self.repeat
+        size, index, org, org_counter = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
-        for i in range(0, size-1):
-            self.append_assembled_bytes(blob)
+        # space taken by each copy (reserved addresses included)
+        space = len(blob)
+        if org == self.current_org:
+            space = self.org_counter - org_counter
+        references = [(address, data) for address, data in self.labels_addresses.items()
+                      if address >= index]
+        for i in range(1, size):
+            # each copy has its own label references
+            for address, data in references:
+                data = copy.copy(data)
+                if data.relative != 0:
+                    data.relative += space * i
+                self.labels_addresses[address + len(blob) * i] = data
+            self.assembled_bytes += blob
+            self.org_counter += space
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From 799238b7390fa62813d816e7a3d01bb9821cd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 16/57] fix: label values printed as text must respect the
 range of their directive

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 3e7b0d9..966b93d 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -241,10 +241,6 @@ class Assembler:
                     self, address, data)
                 absolute_address = true_address
 
-            if data.hook:
-                data.hook(address, true_address)
-                continue
-
             if absolute_address % data.alignment != 0:
                 raise AlignmentError(label)
 
@@ -257,6 +253,10 @@ class Assembler:
             if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
                 raise NotInBitRange(true_address, total_bits, label)
 
+            if data.hook:
+                data.hook(address, true_address)
+                continue
+
             if data.filter:
                 true_address = data.filter(true_address)
 
-- 
2.43.0


From ad450480ec2488cbeb5bcc512370d6749ba49856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 17/57] fix: diagnose macros without name or arguments and keep
 macros intact after a failed call

---
 necroassembler/assembler.py  | 2 ++
 necroassembler/macros.py     | 7 +++++--
 necroassembler/statements.py | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 966b93d..dfe4a1e 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -172,6 +172,8 @@ class Assembler:
     def macro_start(self, instr):
         if self.macro_recording is not None:
             raise UnsupportedNestedMacro(instr)
+        if len(instr.tokens) < 2:
+            raise InvalidArgumentsForDirective(instr)
         self.macro_recording = Macro(instr.tokens[1:])
         key = instr.tokens[1]
         if not self.case_sensitive:
diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..4c6c453 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -34,5 +34,8 @@ class Macro:
                 
             substitute_with_dict(instr.tokens, macro_dict, 0)
 
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                instr.assemble(assembler)
+            finally:
+                # a failed call must not damage the macro
+                instr.tokens = original_tokens
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index d9d7c49..c9f5423 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From b3504e966a2f159b0a3a8a7e2c9f40fddcd9a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 18/57] fix: malformed numbers and divisions by zero must be
 diagnosed, not leak internal errors

---
 necroassembler/assembler.py  | 10 ++++++++--
 necroassembler/exceptions.py | 12 ++++++++++++
 necroassembler/statements.py |  6 +++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index dfe4a1e..6ab8fb5 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -9,7 +9,8 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        UnsupportedNestedRepeat,
                                        AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed,
                                        InvalidArgumentsForDirective, LabelNotAllowed, InvalidDefine,
-                                       SectionAlreadyDefined, SymbolAlreadyExported)
+                                       SectionAlreadyDefined, SymbolAlreadyExported,
+                                       InvalidNumber, DivisionByZero)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
 
@@ -365,7 +366,10 @@ class Assembler:
 
     def parse_integer(self, token, number_of_bits, signed):
         token, pre_formula, post_formula = self._get_math_formula(token)
-        value, decimal = self._internal_parse_integer(token)
+        try:
+            value, decimal = self._internal_parse_integer(token)
+        except ValueError:
+            raise InvalidNumber(token) from None
         if value is None:
             return None
         value = self.apply_math_formula(pre_formula, post_formula, value)
@@ -458,6 +462,8 @@ class Assembler:
             elif command == '*':
                 value *= arg_value
             elif command == '/':
+                if arg_value == 0:
+                    raise DivisionByZero(post_formula)
                 value //= arg_value
             elif command == '&':
                 value &= arg_value
diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 46bdb9a..02fd71c 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -122,3 +122,15 @@ class InvalidDefine(AssemblerException):
 
 class LabelNotAllowed(AssemblerException):
     message = 'label not allowed here'
+
+
+class InvalidNumber(AssemblerException):
+    def __init__(self, token):
+        self.message = 'invalid number "{0}"'.format(token)
+        super().__init__()
+
+
+class DivisionByZero(AssemblerException):
+    def __init__(self, formula):
+        self.message = 'division by zero in "{0}"'.format(formula)
+        super().__init__()
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index c9f5423..42da447 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -113,7 +113,11 @@ class Label(Statement):
             raise LabelAlreadyDefined(self)
         if not is_valid_name(key):
             raise InvalidLabel(self)
-        if assembler.parse_integer(key, 64, False) is not None:
+        try:
+            is_number = assembler.parse_integer(key, 64, False) is not None
+        except AssemblerException:
+            is_number = True
+        if is_number:
             raise InvalidLabel(self)
         assembler.labels[key] = {
             'base': assembler.org_counter,
-- 
2.43.0


From 9a58d8933610d9e85d1c15e0b4142f74b6cc7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 19/57] fix: directive errors must be library errors reporting
 the source position

---
 necroassembler/statements.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 42da447..49a7418 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -1,5 +1,6 @@
 from necroassembler.exceptions import (InvalidOpCodeArguments, UnknownInstruction, LabelNotAllowedInMacro,
-                                       InvalidInstruction, UnknownDirective, LabelAlreadyDefined, InvalidLabel, AssemblerException)
+                                       InvalidInstruction, UnknownDirective, LabelAlreadyDefined, InvalidLabel, AssemblerException,
+                                       InvalidArgumentsForDirective)
 from necroassembler.utils import substitute_with_dict, is_valid_name
 
 
@@ -143,4 +144,15 @@ class Directive(Statement):
             substitute_with_dict(self.tokens, assembler.defines, 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
-        assembler.directives[key](self)
+        try:
+            assembler.directives[key](self)
+        except AssemblerException as exc:
+            # ensure the position is always reported
+            if str(self) not in exc.args[0]:
+                exc.args = (exc.args[0] + ' ' + str(self),)
+            raise exc from None
+        except OSError:
+            # missing files and similar are not source code errors
+            raise
+        except Exception:
+            raise InvalidArgumentsForDirective(self)
-- 
2.43.0


From 4b31ba6cf9ae94ed1df70653df214114375f77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 20/57] fix: a rejected instruction must not leave label
 references behind

---
 necroassembler/assembler.py  | 4 ++++
 necroassembler/statements.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 6ab8fb5..523931d 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -316,6 +316,10 @@ class Assembler:
         label_data.filter = filter
         self.labels_addresses[index] = label_data
 
+    def discard_label_translations(self, start):
+        for index in [x for x in self.labels_addresses if x >= start]:
+            del self.labels_addresses[index]
+
     def _internal_parse_integer(self, token):
         # first check for an ascii char
         if len(token) == 3 and token[0] == '\'' and token[2] == '\'':
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 49a7418..bb3f840 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -42,16 +42,19 @@ class Instruction(Statement):
             raise UnknownInstruction(self)
         instruction = assembler.instructions[key]
         if callable(instruction):
+            address = len(assembler.assembled_bytes)
             try:
                 blob = instruction(self)
                 if blob is None:
                     # do not add 'self' here, will be added in the exception
                     raise InvalidInstruction()
             except AssemblerException as exc:
+                assembler.discard_label_translations(address)
                 # trick for adding more infos to the exception
                 exc.args = (exc.args[0] + ' ' + str(self),)
                 raise exc from None
             except:
+                assembler.discard_label_translations(address)
                 # here we have a non-AssemblerException, so we
                 # need to report the whole exceptions chain
                 raise InvalidInstruction(self)
-- 
2.43.0


From 82b364a37ccdd0f2b79a2ff30fbbaf899f9ff11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 21/57] fix: suffixed hexadecimal numbers like 0dh were read as
 malformed decimal or binary ones

---
 necroassembler/assembler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 523931d..a585004 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -325,6 +325,14 @@ class Assembler:
         if len(token) == 3 and token[0] == '\'' and token[2] == '\'':
             return ord(token[1:2]), False
 
+        # suffixed hexadecimals first, as their digits (0b1h, 0d0h) can look like prefixes
+        for suffix in self.hex_suffixes:
+            if token.endswith(suffix):
+                # a leading digit distinguishes numbers from names
+                digits = token[:-len(suffix)]
+                if digits[:1].isdigit() and all(x in hexdigits for x in digits):
+                    return int(digits, 16), False
+
         for prefix in self.hex_prefixes:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 16), False
@@ -341,13 +349,6 @@ class Assembler:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 10), True
 
-        for suffix in self.hex_suffixes:
-            if token.endswith(suffix):
-                # a leading digit distinguishes numbers from names
-                digits = token[:-len(suffix)]
-                if digits[:1].isdigit() and all(x in hexdigits for x in digits):
-                    return int(digits, 16), False
-
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
                 if token[:-len(suffix)].isdigit():
-- 
2.43.0


From 9ff36c4f128d6a472fdc697a7b739e0848212d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 22/57] fix: expressions must accept labels defined later in
 any of their terms

---
 necroassembler/assembler.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index a585004..20ba829 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -377,7 +377,11 @@ class Assembler:
             raise InvalidNumber(token) from None
         if value is None:
             return None
-        value = self.apply_math_formula(pre_formula, post_formula, value)
+        try:
+            value = self.apply_math_formula(pre_formula, post_formula, value)
+        except UnknownLabel:
+            # not yet defined, postpone to linking phase
+            return None
 
         # check for invalid combos
         if not decimal and value < 0:
@@ -480,20 +484,33 @@ class Assembler:
     def get_label_absolute_address(self, label):
         return label['org'] + label['base']
 
-    def get_label_absolute_address_by_name(self, name):
+    def _get_label_expression_value(self, name, start):
         name, pre_formula, post_formula = self._get_math_formula(name)
-        if not name in self.labels:
+        if name in self.labels:
+            value = self.get_label_relative_address(self.labels[name], start)
+        elif post_formula:
+            # a number followed by labels
+            try:
+                value, _ = self._internal_parse_integer(name)
+            except ValueError:
+                raise InvalidNumber(name) from None
+            if value is None:
+                return None
+        else:
             return None
-        return self.apply_math_formula(pre_formula, post_formula, self.get_label_absolute_address(self.labels[name]))
+        try:
+            return self.apply_math_formula(pre_formula, post_formula, value)
+        except UnknownLabel:
+            return None
+
+    def get_label_absolute_address_by_name(self, name):
+        return self._get_label_expression_value(name, 0)
 
     def get_label_relative_address(self, label, start):
         return self.get_label_absolute_address(label) - start
 
     def get_label_relative_address_by_name(self, name, start):
-        name, pre_formula, post_formula = self._get_math_formula(name)
-        if not name in self.labels:
-            return None
-        return self.apply_math_formula(pre_formula, post_formula, self.get_label_relative_address(self.labels[name], start))
+        return self._get_label_expression_value(name, start)
 
     def change_org(self, start, end=0):
 
-- 
2.43.0


From 7c54445ac9d23ca0adf1bbef13c29ad12ab542ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 23/57] fix: a relative reference based at address zero was
 treated as absolute

---
 necroassembler/assembler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 20ba829..295441f 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -230,7 +230,7 @@ class Assembler:
         for address in self.labels_addresses:
             data = self.labels_addresses[address]
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -306,7 +306,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -404,10 +404,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
@@ -731,7 +731,7 @@ class Assembler:
             # each copy has its own label references
             for address, data in references:
                 data = copy.copy(data)
-                if data.relative != 0:
+                if data.relative is not None:
                     data.relative += space * i
                 self.labels_addresses[address + len(blob) * i] = data
             self.assembled_bytes += blob
-- 
2.43.0


From 0a8a542a8814532e86542b3bc6b46687741c3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 24/57] fix: the digits of a hexadecimal number ($A) must not
 be replaced by a define or macro argument of that name

---
 necroassembler/macros.py     |  3 ++-
 necroassembler/statements.py | 12 ++++++++----
 necroassembler/utils.py      | 10 +++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index 4c6c453..afa70f0 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -32,7 +32,8 @@ class Macro:
             for macro_arg_index, macro_arg in enumerate(macro_args):
                 macro_dict[macro_arg] = args[macro_arg_index]
                 
-            substitute_with_dict(instr.tokens, macro_dict, 0)
+            substitute_with_dict(instr.tokens, macro_dict,
+                                 0, assembler.hex_prefixes)
 
             try:
                 instr.assemble(assembler)
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index bb3f840..7183d0d 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -25,7 +25,8 @@ class Instruction(Statement):
             return
 
         # apply defines
-        substitute_with_dict(self.tokens, assembler.defines, 0)
+        substitute_with_dict(self.tokens, assembler.defines,
+                             0, assembler.hex_prefixes)
 
         key = self.tokens[0]
         if not assembler.case_sensitive:
@@ -136,15 +137,18 @@ class Directive(Statement):
             key = key.upper()
         if key.upper() == 'DEFINE':
             # the name being defined must not be replaced by its old value
-            substitute_with_dict(self.tokens, assembler.defines, 2)
+            substitute_with_dict(self.tokens, assembler.defines,
+                                 2, assembler.hex_prefixes)
         elif key.upper() == 'MACRO':
             # macro parameters hide the defines with the same name
             name = self.tokens[1:2]
-            substitute_with_dict(name, assembler.defines, 0)
+            substitute_with_dict(name, assembler.defines,
+                                 0, assembler.hex_prefixes)
             self.tokens[1:2] = name
         else:
             # skip directive for defines substitution
-            substitute_with_dict(self.tokens, assembler.defines, 1)
+            substitute_with_dict(self.tokens, assembler.defines,
+                                 1, assembler.hex_prefixes)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         try:
diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 2dcfe7c..ff8e39d 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -141,7 +141,11 @@ def is_valid_name(name):
     return True
 
 
-def substitute_with_dict(tokens, _dict, start):
+def substitute_with_dict(tokens, _dict, start, hex_prefixes=()):
+    def is_number(prefix, digits):
+        # the digits of a prefixed hexadecimal number ($A) are not a name
+        return prefix.endswith(tuple(hex_prefixes)) and all(x in string.hexdigits for x in digits)
+
     for i in range(start, len(tokens)):
         name = tokens[i]
         # quoted text is data, never touch it
@@ -159,14 +163,14 @@ def substitute_with_dict(tokens, _dict, start):
                 accumulator += char
                 continue
             if accumulator:
-                if accumulator in _dict:
+                if accumulator in _dict and not is_number(rebuilt_token, accumulator):
                     accumulator = _dict[accumulator]
                 rebuilt_token += accumulator
                 accumulator = ''
             rebuilt_token += char
 
         if accumulator:
-            if accumulator in _dict:
+            if accumulator in _dict and not is_number(rebuilt_token, accumulator):
                 accumulator = _dict[accumulator]
             rebuilt_token += accumulator
 
-- 
2.43.0


From c0df7f9780370189b4e2188c6d8a8974f4f2849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 25/57] fix: diagnose macros calling themselves endlessly

---
 necroassembler/statements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 7183d0d..d3d5989 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -36,7 +36,11 @@ class Instruction(Statement):
             macro = assembler.macros[key]
             if len(self.tokens) - 1 < len(macro.args):
                 raise InvalidOpCodeArguments(self)
-            macro.assemble(assembler, self.tokens)
+            try:
+                macro.assemble(assembler, self.tokens)
+            except RecursionError:
+                # the macro calls itself endlessly
+                raise InvalidInstruction(self) from None
             return
 
         if not key in assembler.instructions:
-- 
2.43.0


From 0e0d4db523136fb792546c16df50d647a3eaf0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 26/57] fix: text in .dw and .dd must follow the byte order of
 the processor, without byte order marks

---
 necroassembler/assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 295441f..1058c1f 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -577,7 +577,8 @@ class Assembler:
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf16')
+                blob = token[1:-1].encode(
+                    'utf-16-be' if self.big_endian else 'utf-16-le')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=16, size=2)
@@ -591,7 +592,8 @@ class Assembler:
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf32')
+                blob = token[1:-1].encode(
+                    'utf-32-be' if self.big_endian else 'utf-32-le')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=32, size=4)
-- 
2.43.0


From 0c02f41239e533ebf48b078063216b64df1a20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 27/57] fix: an unterminated string must be reported on the
 line of its opening quote

---
 necroassembler/tokenizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 802513f..4defc40 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -31,6 +31,7 @@ class Tokenizer:
         self.tokens = []
         self.case_sensitive = case_sensitive
         self.line = 1
+        self.quote_line = 1
         self.context = context
 
     @property
@@ -118,12 +119,14 @@ class Tokenizer:
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.quote_line = self.line
         self.state = self._state_string
 
     def _token_char(self):
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.quote_line = self.line
         self.state = self._state_char
 
     def _state_token(self, char):
@@ -160,4 +163,5 @@ class Tokenizer:
             if byte == '\n':
                 self.line += 1
         if self.state not in (self._state_token, self._state_comment):
+            self.line = self.quote_line
             raise UnterminatedString(self)
-- 
2.43.0


From 052c8b8161c979493dfb65fb167fa26d54d87b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 28/57] fix: 6502 branches ignored surplus operands

---
 necroassembler/cpu/mos6502.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..3a4b07f 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -84,6 +84,8 @@ class AssemblerMOS6502(Assembler):
         self.register_instruction('PLP', b'\x28')
 
     def _manage_branching(self, instr, code):
+        if not instr.match(ADDRESS):
+            raise InvalidMode()
         arg = instr.tokens[1]
         address = self.parse_integer_or_label(
             label=arg, bits_size=8,
-- 
2.43.0


From b88b7202f6e6543f9351c170093ba61513498ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 29/57] fix: LR35902 SP offsets, ($FF00+C) loads and the BRA
 alias

---
 necroassembler/cpu/lr35902.py | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 524c214..755013f 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -16,12 +16,18 @@ def _is_number(token):
 
 
 def _is_ldh(token):
+    token = token.upper()
     return token.startswith('$FF00+') and token != '$FF00+C'
 
 
+def _is_sp_offset(token):
+    return token.upper().startswith(('SP+', 'SP-'))
+
+
 VALUE = _is_value
 NUMBER = _is_number
 LDH = _is_ldh
+SP_OFFSET = _is_sp_offset
 
 
 class AssemblerLR35902(Assembler):
@@ -35,7 +41,6 @@ class AssemblerLR35902(Assembler):
     def register_instructions(self):
         self.register_instruction('NOP', b'\x00')
         self.register_instruction('RRCA', b'\x0F')
-        self.register_instruction('BRA', b'\x1F')
         self.register_instruction('HALT', b'\x76')
         self.register_instruction('DI', b'\xF3')
         self.register_instruction('EI', b'\xFB')
@@ -60,6 +65,14 @@ class AssemblerLR35902(Assembler):
                                             relative=self.pc + 2)
         return pack_8s(value)
 
+    def _signed8(self, arg):
+        # a signed quantity, not the distance from the program counter
+        value = self.parse_integer_or_label(label=arg, bits_size=8,
+                                            offset=1,
+                                            size=1,
+                                            relative=0)
+        return pack_8s(value)
+
     def _data16(self, arg):
         value = self.parse_integer_or_label(
             label=arg, bits_size=16, offset=1, size=2)
@@ -103,6 +116,9 @@ class AssemblerLR35902(Assembler):
             if instr.match('(', ('C', '$FF00+C'), ')', 'A') or instr.match('[', ('C', '$FF00+C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
+            if instr.match('A', '(', ('C', '$FF00+C'), ')') or instr.match('A', '[', ('C', '$FF00+C'), ']'):
+                return pack_byte(kwargs['a_ind_c'])
+
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
                 value = self._data8(instr.tokens[2][6:])
                 return pack_byte(kwargs['ind_a8_a']) + value
@@ -120,9 +136,9 @@ class AssemblerLR35902(Assembler):
                 return pack_byte(kwargs[reg16_d + '_' + reg16_s])
 
             if instr.match(REGS16, VALUE):
-                if self._reg_name(instr.tokens[1]) + '_r8' in kwargs:
-                    reg16, value = instr.apply(self._reg_name, self._rel8)
-                    return pack_byte(kwargs[reg16 + '_r8']) + value
+                if self._reg_name(instr.tokens[1]) + '_s8' in kwargs:
+                    reg16, value = instr.apply(self._reg_name, self._signed8)
+                    return pack_byte(kwargs[reg16 + '_s8']) + value
                 reg16, value = instr.apply(self._reg_name, self._data16)
                 return pack_byte(kwargs[reg16 + '_d16']) + value
 
@@ -206,14 +222,11 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
-            value = None
-            if instr.tokens[2].startswith('SP+'):
-                value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
-                value = self._rel8(instr.tokens[2][2:])
-            if value is not None:
-                return pack_byte(0xF8) + value
+        if instr.match('HL', SP_OFFSET):
+            offset = instr.tokens[2][2:]
+            if offset.startswith('+'):
+                offset = offset[1:]
+            return pack_byte(0xF8) + self._signed8(offset)
         return self._build_opcode(instr,
                                   bc_d16=0x01,
                                   ind_bc_a=0x02,
@@ -779,7 +792,7 @@ class AssemblerLR35902(Assembler):
                                   hl_hl=0x29,
                                   hl_sp=0x39,
                                   a_d8=0xC6,
-                                  sp_r8=0xE8,
+                                  sp_s8=0xE8,
                                   a_ind_hl=0x86)
 
     @opcode('ADC')
-- 
2.43.0


From ae184886ffd2b734193f97b8d579a1b7d786998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 30/57] fix: Z80 index forms shadowed by (nn), LD (IX+d),n,
 displacement labels and BIT b,(IX+d) encoding

---
 necroassembler/cpu/z80.py | 136 ++++----------------------------------
 1 file changed, 12 insertions(+), 124 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..f8745f9 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -623,70 +623,14 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IX+d', ')'),
@@ -1072,70 +1016,14 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IY+d', ')'),
@@ -1288,7 +1176,8 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return arg.upper() not in REGS8+REGS16 and not (
+            self._is_index_x(arg) or self._is_index_y(arg))
 
     def _is_index_x(self, arg):
         return (
@@ -1344,35 +1233,35 @@ class Z80OpCode:
             size=1,
             bits_size=8,
             offset=len(base),
-            signed=True
+            relative=0
         ))
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1384,8 +1273,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 3115d8ae149fb715fca75e041a347876bd39c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 31/57] fix: 8086 operand offsets, [BP], MOV/POP memory forms
 and surplus operands

---
 necroassembler/cpu/intel8086.py | 36 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..2dbd246 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=modrm['offset'] + 1,
             signed=True))
     return blob
 
@@ -38,7 +38,8 @@ def _get_modrm_mod(arg):
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        # mod 00 is the direct address
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
@@ -182,13 +183,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=modrm['offset']))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=modrm['offset']))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -207,7 +208,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
@@ -299,7 +300,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=modrm['offset'] + 1))
 
 
 def _Ap(instr, assembler, index, modrm):
@@ -453,7 +454,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -506,8 +507,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
@@ -550,10 +551,10 @@ OPCODES_TABLE = (
     # extended opcodes
     (0xF706, 'DIV', _Ev),
     (0xF704, 'MUL', _Ev),
-    (0xD004, 'SHL', _Eb),
-    (0xD104, 'SHL', _Ev),
-    (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD004, 'SHL', _Eb, _1),
+    (0xD104, 'SHL', _Ev, _1),
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -582,7 +583,14 @@ class Intel8086OpCode:
             index = 1
             skip = False
             full_blob = b''
+            # forget what a previous (failed) variant left
+            self.assembler.discard_label_translations(
+                len(self.assembler.assembled_bytes))
             for arg in args:
+                if index >= len(instr.tokens):
+                    skip = True
+                    break
+                modrm['offset'] = 1 + len(full_blob)
                 delta_and_blob = arg(instr, self.assembler, index, modrm)
                 if not delta_and_blob or not delta_and_blob[0]:
                     skip = True
@@ -590,7 +598,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From dc8841345566b4defb8b463dd81d2c325ad5d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 32/57] fix: MIPS32 or/xor/nor/sub/mult/div, sltu/sltiu
 opcodes, logical immediates, jalr link register, branch alignment

---
 necroassembler/cpu/mips32.py | 65 ++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..10869fd 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import AlignmentError, LabelNotAllowed
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -53,20 +53,24 @@ class AssemblerMIPS32(Assembler):
         return value
 
     def _abs_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits=(25, 0),
-                                           bits_size=32,
-                                           filter=lambda x: (
-                                               x & 0x0fffffff) >> 2,
-                                           size=4) >> 2
+        return (self.parse_integer_or_label(label=token,
+                                            bits=(25, 0),
+                                            bits_size=32,
+                                            filter=lambda x: (
+                                                x & 0x0fffffff) >> 2,
+                                            size=4) & 0x0fffffff) >> 2
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits_size=18,
+                                            bits=(15, 0),
+                                            filter=lambda x: x >> 2,
+                                            relative=self.pc + 4,
+                                            alignment=4,
+                                            size=4)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
 
     def _immediate32(self, high):
         def _high(token):
@@ -103,7 +107,7 @@ class AssemblerMIPS32(Assembler):
     def _div_mult(self, instr, func):
         if instr.match(REGS, REGS):
             rs, rt = instr.apply(_reg, _reg)
-        return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
+            return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
 
     def _arith_log_i(self, instr, op, signed):
         if instr.match(REGS, REGS, IMMEDIATE):
@@ -187,35 +191,35 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -243,19 +247,19 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
@@ -275,7 +279,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +287,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
@@ -311,7 +315,10 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        if instr.match(REGS):
+            rs, = instr.apply(_reg)
+            # the return address goes in $ra
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), 31), ((5, 0), 0b001001))
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From e2eb3a32f3ac0d0a706727b333ee194b5bff5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 33/57] fix: Thumb load/store offsets and opcodes, sp/pc
 arithmetic, literal loads, shifts by 32, misaligned branch numbers

---
 necroassembler/cpu/thumb.py | 126 +++++++++++++++++++++++++-----------
 1 file changed, 87 insertions(+), 39 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..129aaec 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AlignmentError, AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -20,7 +20,7 @@ def _label(token):
 
 
 def _interrupt(token):
-    return token.isdigit()
+    return token[:1].isdigit()
 
 
 IMMEDIATE = _immediate
@@ -57,15 +57,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
-        return self.parse_integer_or_label(label=arg,
-                                           size=2,
-                                           bits_size=(
-                                               bits[0] - bits[1]) + 1 + (alignment//2),
-                                           bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
-                                           alignment=alignment,
-                                           relative=self.pc + 4)
+        value = self.parse_integer_or_label(label=arg,
+                                            size=2,
+                                            bits_size=(
+                                                bits[0] - bits[1]) + 1 + (alignment//2),
+                                            bits=bits,
+                                            filter=lambda x: x >> (
+                                                alignment//2),
+                                            alignment=alignment,
+                                            relative=self.pc + 4)
+        if value % alignment != 0:
+            raise AlignmentError(arg)
+        return value
 
     def _imm(self, arg):
         value = self.parse_integer(arg[1:], 8, False)
@@ -73,15 +76,55 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    def _scaled(self, arg, bits, scale):
+        value = self.parse_integer(arg[1:], 16, False)
+        if value is None:
+            raise InvalideImmediateValue()
+        if value % scale != 0:
+            raise AlignmentError(arg)
+        if value // scale >= (1 << bits):
+            raise NotInBitRange(value, bits)
+        return value // scale
+
+    def _half5(self, arg):
+        return self._scaled(arg, 5, 2)
+
+    def _word5(self, arg):
+        return self._scaled(arg, 5, 4)
+
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        return self._scaled(arg, 8, 4)
+
+    def _literal(self, arg):
+        def offset(value):
+            # the literal must follow the instruction
+            if value < 0:
+                raise NotInBitRange(value, 10, arg[1:])
+            return value >> 2
+
+        if self.parse_integer(arg[1:], 16, False) is not None:
+            return self._word8(arg)
+        self.add_label_translation(label=arg[1:],
+                                   size=2,
+                                   # the sign bit is never used
+                                   bits_size=11,
+                                   bits=(7, 0),
+                                   alignment=4,
+                                   filter=offset,
+                                   # bit 1 of pc must be turned off
+                                   relative=(self.pc + 4) & ~(0b10))
+        return 0
+
+    def _shift_right(self, instr, op):
+        rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+        if imm == 0:
+            # no shift
+            op = 0
+        elif imm == 32:
+            imm = 0
+        elif imm > 32:
+            raise NotInBitRange(imm, 5)
+        return self._build_opcode(op, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
@@ -97,7 +140,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
@@ -132,15 +175,13 @@ class AssemblerThumb(Assembler):
     @opcode('LSR')
     def _lsr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
-            return self._build_opcode(0b0000100000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
+            return self._shift_right(instr, 0b0000100000000000)
         return self._alu(instr, 0b0011)
 
     @opcode('ASR')
     def _asr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
-            return self._build_opcode(0b0001000000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
+            return self._shift_right(instr, 0b0001000000000000)
         return self._alu(instr, 0b0100)
 
     @opcode('ADD')
@@ -164,14 +205,19 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._word8)
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._word8)
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm = self.parse_integer(instr.tokens[2][1:], 10, True)
+            if imm is None:
+                raise InvalideImmediateValue()
+            if imm % 4 != 0:
+                raise AlignmentError(instr.tokens[2])
+            # sign and magnitude
+            return self._build_opcode(0b1011000000000000, ((7, 7), 1 if imm < 0 else 0), ((6, 0), abs(imm) >> 2))
 
     @opcode('SUB')
     def _sub(self, instr):
@@ -283,8 +329,8 @@ class AssemblerThumb(Assembler):
     @opcode('LDR')
     def _ldr(self, instr):
         if instr.match(LOW_REGS, '[', PC, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(low_reg, None, None, self._literal, None)
+            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
@@ -293,12 +339,12 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._word5, None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
@@ -317,11 +363,11 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, self._half5, None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
@@ -347,8 +393,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._word5, None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
@@ -369,7 +415,9 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
+            if address % 2 != 0:
+                raise AlignmentError(offset)
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
@@ -460,7 +508,7 @@ class AssemblerThumb(Assembler):
     @opcode('SWI')
     def _swi(self, instr):
         if instr.match(INTERRUPT):
-            return self._build_opcode(0b1101111100000000, ((7, 0), int(instr.tokens[1])))
+            return self._build_opcode(0b1101111100000000, ((7, 0), self.parse_integer(instr.tokens[1], 8, False)))
 
     @opcode('PUSH')
     def _push(self, instr):
-- 
2.43.0


From 5b9c7ed1a251984675a3c75e96570f323c96feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 34/57] fix: labels in signed fields are range-checked as
 signed, also inside repeats

---
 necroassembler/assembler.py     | 13 +++++++++----
 necroassembler/cpu/intel8086.py |  3 +--
 necroassembler/cpu/lr35902.py   |  2 +-
 necroassembler/cpu/z80.py       |  2 +-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 1058c1f..e58e68c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -46,6 +46,7 @@ class LabelData:
     bits = None
     hook = None
     filter = None
+    signed = False
 
     def __init__(self, label, size, bits_size, relative):
         self.label = label
@@ -250,10 +251,12 @@ class Assembler:
             size = data.size
             total_bits = data.bits_size
 
-            if not is_relative and true_address < 0:
+            is_signed = is_relative or data.signed
+
+            if not is_signed and true_address < 0:
                 raise OnlyForwardAddressesAllowed(label, true_address)
 
-            if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
+            if not in_bit_range_decimal(true_address, total_bits, signed=is_signed):
                 raise NotInBitRange(true_address, total_bits, label)
 
             if data.hook:
@@ -306,7 +309,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=None, hook=None):
+                              relative=None, hook=None, signed=False):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -314,6 +317,7 @@ class Assembler:
         label_data.bits = bits
         label_data.hook = hook
         label_data.filter = filter
+        label_data.signed = signed
         self.labels_addresses[index] = label_data
 
     def discard_label_translations(self, start):
@@ -420,7 +424,8 @@ class Assembler:
                                        alignment=alignment,
                                        bits=bits,
                                        filter=filter,
-                                       hook=hook)
+                                       hook=hook,
+                                       signed=signed)
             return 0
         return value
 
diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 2dbd246..14185a4 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,8 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=modrm['offset'] + 1,
-            signed=True))
+            offset=modrm['offset'] + 1))
     return blob
 
 
diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 755013f..040e776 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -70,7 +70,7 @@ class AssemblerLR35902(Assembler):
         value = self.parse_integer_or_label(label=arg, bits_size=8,
                                             offset=1,
                                             size=1,
-                                            relative=0)
+                                            signed=True)
         return pack_8s(value)
 
     def _data16(self, arg):
diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index f8745f9..380985c 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1233,7 +1233,7 @@ class Z80OpCode:
             size=1,
             bits_size=8,
             offset=len(base),
-            relative=0
+            signed=True
         ))
 
     def add_variant(self, code, args):
-- 
2.43.0


From 61a1d8ea8b0d3d82bf7dea8f630f9e06bfd44ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 35/57] fix: 68000 surplus operands, sized DBT/DBF, index
 register case, byte-size and misaligned branch checks

---
 necroassembler/cpu/mc68000.py | 96 +++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..d6e197e 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AlignmentError, AssemblerException, InvalidOpCodeArguments, NotInBitRange
 
 
 class InvalidMode(AssemblerException):
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
@@ -55,9 +55,11 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    # ignore the size
+    condition = token.split('.')[0].upper()
+    if condition == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(condition)
 
 
 def _indexed_reg(token):
@@ -248,6 +250,34 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, *args, **kwargs):
+        mode = self._mode(instr, *args, **kwargs)
+        # nothing can follow the last operand
+        if mode[0] != len(instr.tokens):
+            raise InvalidOpCodeArguments()
+        return mode
+
+    def _displacement(self, token, size, offset):
+        def not_zero(value):
+            # a zero 8 bit displacement means that a 16 bit one follows
+            if size == 1 and value == 0:
+                raise NotInBitRange(value, 8, token)
+            return value
+
+        if self.parse_integer(token, size * 8, True) == 0:
+            not_zero(0)
+        value = self.parse_integer_or_label(token,
+                                            size=2,
+                                            bits_size=size * 8,
+                                            bits=(size * 8 - 1, 0),
+                                            alignment=2,  # here is safe to check for alignment
+                                            offset=offset,
+                                            filter=not_zero,
+                                            relative=self.pc+2)
+        if value % 2 != 0:
+            raise AlignmentError(token)
+        return value
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -260,11 +290,12 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -275,35 +306,39 @@ class AssemblerMC68000(Assembler):
         if instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
+    def _size_is(self, instr, size):
+        # the size is optional when the operand implies it
+        return '.' not in instr.tokens[0] or _s_light(instr.tokens[0])[0] == size
+
     @opcode('ori', 'ori.w', 'ori.b', 'ori.l')
     def _ori(self, instr):
-        if instr.match(IMMEDIATE, 'CCR'):
+        if instr.match(IMMEDIATE, 'CCR') and self._size_is(instr, 1):
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000000000111100) + packed
-        if instr.match(IMMEDIATE, 'SR'):
+        if instr.match(IMMEDIATE, 'SR') and self._size_is(instr, 2):
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000000001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('andi', 'andi.w', 'andi.b', 'andi.l')
     def _andi(self, instr):
-        if instr.match(IMMEDIATE, 'CCR'):
+        if instr.match(IMMEDIATE, 'CCR') and self._size_is(instr, 1):
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000001000111100) + packed
-        if instr.match(IMMEDIATE, 'SR'):
+        if instr.match(IMMEDIATE, 'SR') and self._size_is(instr, 2):
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000001001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -313,7 +348,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -323,23 +358,23 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('eori', 'eori.w', 'eori.b', 'eori.l')
     def _eori(self, instr):
-        if instr.match(IMMEDIATE, 'CCR'):
+        if instr.match(IMMEDIATE, 'CCR') and self._size_is(instr, 1):
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000101000111100) + packed
-        if instr.match(IMMEDIATE, 'SR'):
+        if instr.match(IMMEDIATE, 'SR') and self._size_is(instr, 2):
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000101001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -349,13 +384,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -375,20 +410,10 @@ class AssemblerMC68000(Assembler):
             condition = _cond(instr.tokens[0][1:])
             op_size, _ = _s_dark(instr.tokens[0])
             if op_size == 1:
-                value = self.parse_integer_or_label(instr.tokens[1],
-                                                    size=2,
-                                                    bits_size=8,
-                                                    bits=(7, 0),
-                                                    alignment=2,  # here is safe to check for alignment
-                                                    relative=self.pc+2)
+                value = self._displacement(instr.tokens[1], 1, 0)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
-                value = self.parse_integer_or_label(instr.tokens[1],
-                                                    size=2,
-                                                    bits_size=16,
-                                                    alignment=2,  # here is safe to check for alignment
-                                                    offset=2,
-                                                    relative=self.pc+2)
+                value = self._displacement(instr.tokens[1], 2, 2)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition)) + pack_be16u(value)
 
     @opcode('dbt', 'dbf', 'dbra', 'dbhi', 'dbls', 'dbcc', 'dbcs', 'dbne', 'dbeq', 'dbvc', 'dbvs', 'dbpl', 'dbmi', 'dbge', 'dblt', 'dbgt', 'dble',
@@ -398,17 +423,12 @@ class AssemblerMC68000(Assembler):
         if instr.match(D_REGS, DISPLACEMENT):
             condition = _cond(instr.tokens[0][2:])
             d_reg = _reg(instr.tokens[1])
-            value = self.parse_integer_or_label(instr.tokens[2],
-                                                size=2,
-                                                bits_size=16,
-                                                alignment=2,  # here is safe to check for alignment
-                                                offset=2,
-                                                relative=self.pc+2)
+            value = self._displacement(instr.tokens[2], 2, 2)
             return self._build_opcode(0b0101000011001000, ((11, 8), condition), ((2, 0), d_reg)) + pack_be16u(value)
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From 828133a3d241850d51d6dacf93c93900bba58d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 36/57] fix: PowerPC r0, extra forms hidden by unsupported
 ones, bctr opcode, branch displacements in bytes, mcrfs field

---
 necroassembler/cpu/powerpc.py | 97 ++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..24ee6a8 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,4 +1,5 @@
 from necroassembler import Assembler
+from necroassembler.exceptions import AlignmentError
 from necroassembler.utils import pack_be32u, pack_bits
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
@@ -9,8 +10,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
@@ -34,26 +33,36 @@ def _freg(token, assembler=None, bits=None):
 
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
-
-    return token not in GREGS+FREGS
+        # the two low bits of the displacement are not encoded
+        value = assembler.parse_integer_or_label(token,
+                                                 size=4,
+                                                 bits_size=(
+                                                     bits[0] - bits[1] + 3),
+                                                 bits=bits,
+                                                 alignment=4,
+                                                 filter=lambda x: x >> 2,
+                                                 relative=assembler.pc)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
+    return token.lower() not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
-    return token not in GREGS+FREGS
+        # the two low bits of the address are not encoded
+        value = assembler.parse_integer_or_label(token,
+                                                 size=4,
+                                                 bits_size=(
+                                                     bits[0] - bits[1] + 3),
+                                                 bits=bits,
+                                                 alignment=4,
+                                                 filter=lambda x: x >> 2,
+                                                 signed=True)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
+    return token.lower() not in GREGS+FREGS
 
 
 def _si(token, assembler=None, bits=None):
@@ -63,7 +72,7 @@ def _si(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _hi(token, assembler=None, bits=None):
@@ -73,7 +82,7 @@ def _hi(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _ui(token, assembler=None, bits=None):
@@ -83,7 +92,7 @@ def _ui(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num(token, assembler=None, bits=None):
@@ -93,7 +102,7 @@ def _num(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num0(token, assembler=None, bits=None):
@@ -103,7 +112,7 @@ def _num0(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _snum(token, assembler=None, bits=None):
@@ -113,7 +122,7 @@ def _snum(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 SGREG = None
@@ -697,8 +706,8 @@ OPCODES_TABLE = [
     [0xfc000040, "fcmpo",   [[23, 3, _num],    [16, 5, _freg], [11, 5, _freg]]],
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
-    [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 3, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
@@ -1324,23 +1333,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, base, condition):
+        self.conditions.append((base, condition))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for base, condition in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1355,23 +1363,20 @@ class AssemblerPowerPC(Assembler):
 
     def register_instructions(self):
         for entry in OPCODES_TABLE:
-            name = entry[1]
+            base, name = entry[:2]
 
             # already defined ?
             if name.upper() in self.instructions:
-                if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
-                else:
-                    self.instructions[name.upper()].add_condition(None)
-                continue
-
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
-            if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode = self.instructions[name.upper()]
             else:
-                powerpc_opcode.add_condition(None)
-            self.register_instruction(entry[1], powerpc_opcode)
+                powerpc_opcode = PowerPCOPCode(self, name)
+                self.register_instruction(name, powerpc_opcode)
+
+            condition = entry[2] if len(entry) > 2 else None
+            # operands of a kind not supported yet must not hide the other forms
+            if condition is not None and any([item[2] is None for item in condition]):
+                continue
+            powerpc_opcode.add_condition(base, condition)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 5000aa104ba5af01229068f4c6362679e74ea835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 37/57] fix: x86 surplus operands are refused, near branches
 get 32-bit displacements outside 16-bit mode

---
 necroassembler/cpu/x86.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 10b4d6b..fffb626 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -464,7 +464,7 @@ def _Jvds(instr, base, assembler, index, modrm):
             return 1, base, pack_le32u(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 4,
-                size=2, bits_size=16, offset=len(base)))
+                size=4, bits_size=32, offset=len(base)))
 
 
 def _Eq(instr, base, assembler, index, modrm):
@@ -1969,6 +1969,8 @@ class X86OpCode:
                     index += new_index
                     full_blob += new_blob
             if not skip:
+                if index != len(instr.tokens):
+                    raise InvalidOpCodeArguments(instr)
                 return pack_byte(*new_base) + full_blob
 
 
-- 
2.43.0


From 705e42628837bf27676e002aac03cd538073f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 38/57] fix: Thumb literal loads repeated at another alignment

---
 necroassembler/cpu/thumb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 129aaec..475a208 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -97,8 +97,10 @@ class AssemblerThumb(Assembler):
 
     def _literal(self, arg):
         def offset(value):
+            # bit 1 of pc is turned off
+            value = (value + 2) & ~0b11
             # the literal must follow the instruction
-            if value < 0:
+            if value < 0 or value > 1020:
                 raise NotInBitRange(value, 10, arg[1:])
             return value >> 2
 
@@ -111,8 +113,7 @@ class AssemblerThumb(Assembler):
                                    bits=(7, 0),
                                    alignment=4,
                                    filter=offset,
-                                   # bit 1 of pc must be turned off
-                                   relative=(self.pc + 4) & ~(0b10))
+                                   relative=self.pc + 4)
         return 0
 
     def _shift_right(self, instr, op):
-- 
2.43.0


From cf75e3de44854a2c3740b991009be5da1b1ac6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 39/57] fix: several labels in one instruction word no longer
 replace each other

---
 necroassembler/assembler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index e58e68c..bcd4381 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -228,8 +228,7 @@ class Assembler:
             handle.write(self.assembled_bytes)
 
     def _resolve_labels(self, linker):
-        for address in self.labels_addresses:
-            data = self.labels_addresses[address]
+        for (address, _), data in self.labels_addresses.items():
             label = data.label
             is_relative = data.relative is not None
 
@@ -318,11 +317,12 @@ class Assembler:
         label_data.hook = hook
         label_data.filter = filter
         label_data.signed = signed
-        self.labels_addresses[index] = label_data
+        # an instruction word can hold several labels in different bits
+        self.labels_addresses[(index, bits)] = label_data
 
     def discard_label_translations(self, start):
-        for index in [x for x in self.labels_addresses if x >= start]:
-            del self.labels_addresses[index]
+        for key in [x for x in self.labels_addresses if x[0] >= start]:
+            del self.labels_addresses[key]
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
@@ -732,7 +732,7 @@ class Assembler:
         space = len(blob)
         if org == self.current_org:
             space = self.org_counter - org_counter
-        references = [(address, data) for address, data in self.labels_addresses.items()
+        references = [(address, data) for (address, _), data in self.labels_addresses.items()
                       if address >= index]
         for i in range(1, size):
             # each copy has its own label references
@@ -740,7 +740,7 @@ class Assembler:
                 data = copy.copy(data)
                 if data.relative is not None:
                     data.relative += space * i
-                self.labels_addresses[address + len(blob) * i] = data
+                self.labels_addresses[(address + len(blob) * i, data.bits)] = data
             self.assembled_bytes += blob
             self.org_counter += space
 
-- 
2.43.0


From cc42ca8a7c027edab3d1657528d8cb718518d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 40/57] fix: ELF symbol table, exports and unresolved
 references

---
 necroassembler/linker.py | 43 +++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..c402c75 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -6,6 +6,10 @@ class RelocationNotImplemented(AssemblerException):
     message = 'please subclass the ELF class and implement the \'relocate\' method'
 
 
+class SymbolWithoutSection(AssemblerException):
+    message = 'exported symbol is not part of a section'
+
+
 class Dummy:
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         raise UnknownLabel(symbol_data.label)
@@ -59,7 +63,8 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        # the null symbol is the only local one
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -70,6 +75,16 @@ class ELF:
 
     def link(self, assembler):
 
+        relocations, self.relocations = self.relocations, {}
+        for address, symbol_data in relocations.items():
+            self.relocate(address, symbol_data)
+
+        for symbol_name in assembler.exports:
+            if symbol_name not in assembler.labels:
+                raise UnknownLabel(symbol_name)
+            if assembler.labels[symbol_name]['section'] is None:
+                raise SymbolWithoutSection(symbol_name)
+
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
         for section_name, section_data in assembler.sections.items():
@@ -103,18 +118,22 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is always the null one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            section_data = assembler.sections[symbol_data['section']]
+            symbol_value = assembler.get_label_relative_address(
+                symbol_data, section_data['start'])
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
-                               0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
+                               symbol_data['elf_string_offset'], symbol_value, 0,
+                               0x10, 0, section_data['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               section_data['elf_section_index'] + 1, symbol_value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
@@ -128,12 +147,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
-                                0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
-                                len(assembler.sections) + 4, len(assembler.sections) + 1)
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+                                        0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
+                                        len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
-                                0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
-                                len(assembler.sections) + 4, len(assembler.sections) + 1)
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+                                        0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
+                                        len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From e4820ce4c39f444068a55128a51f6ef14fb540b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 41/57] fix: NES bank counts belong at bytes 4 and 5 of the
 header

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 6e3040a4491b0aa701a3c7d1145db0a70a78084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 42/57] fix: Game Boy global checksum does not include itself

---
 necroassembler/platforms/gameboy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..e8bfd18 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -162,7 +162,9 @@ class AssemblerGameboy(AssemblerLR35902):
                 int(self.assembled_bytes[i]) - 1
         self.assembled_bytes[0x14d] = header_checksum & 0xFF
 
-        # global checksum
+        # global checksum (its own bytes are not part of it)
+        self.assembled_bytes[0x14e] = 0
+        self.assembled_bytes[0x14f] = 0
         global_checksum = 0
         for byte in self.assembled_bytes:
             global_checksum += int(byte)
-- 
2.43.0


From 1d0cff86ce980432025d270663971777fd011ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 43/57] fix: PSX stack pointer field, Genesis checksum of
 odd-sized images

---
 necroassembler/platforms/genesis.py | 4 +++-
 necroassembler/platforms/psx.py     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 938991f..8e9b86a 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -13,7 +13,9 @@ def main():
     header_checksum = 0
     for i in range(0x200, len(asm.assembled_bytes), 2):
         high = asm.assembled_bytes[i]
-        low = asm.assembled_bytes[i+1]
+        # the last word can be incomplete
+        low = asm.assembled_bytes[i+1] if i + \
+            1 < len(asm.assembled_bytes) else 0
         header_checksum += (high << 8) | low
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From ba0b8e9486936bd5d901760989554f83ae6208b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 44/57] fix: PSX header is complete for empty programs

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index fdb170e..ce8582c 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -29,6 +29,7 @@ def main():
         output.seek(0x4C)
         output.write(
             'Sony Computer Entertainment Inc. for Europe area'.encode('ascii'))
+        output.truncate(0x800)
         output.seek(0x800)
         output.write(asm.assembled_bytes)
 
-- 
2.43.0


From 704b99f5c5045b04abaddc546e2f95477c9eb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 45/57] fix: a lone argument is not a destination to overwrite

---
 necroassembler/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index bcd4381..8805d3a 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -949,6 +949,8 @@ class Assembler:
         try:
             *sources, destination = sys.argv[1:]
         except ValueError:
+            sources = []
+        if not sources:
             print('usage: {0} <sources> <destination>'.format(
                 os.path.basename(sys.argv[0])))
             return
-- 
2.43.0


From db63099e89790c4eb0a7d737f61f6a4b4684955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 46/57] fix: console tools assemble every source instead of
 overwriting the second one

---
 necroassembler/platforms/gba.py     |  6 ++++--
 necroassembler/platforms/genesis.py |  6 ++++--
 necroassembler/platforms/nes.py     | 10 ++++++----
 necroassembler/platforms/psx.py     |  6 ++++--
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/necroassembler/platforms/gba.py b/necroassembler/platforms/gba.py
index db0028a..135ebaf 100644
--- a/necroassembler/platforms/gba.py
+++ b/necroassembler/platforms/gba.py
@@ -3,8 +3,10 @@ from necroassembler.cpu.thumb import AssemblerThumb
 
 def main():
     import sys
+    first, *others, destination = sys.argv[1:]
     asm = AssemblerThumb()
-    asm.assemble_file(sys.argv[1])
+    for source in (first, *others):
+        asm.assemble_file(source)
     asm.link()
 
     # fix checksums
@@ -15,7 +17,7 @@ def main():
         header_checksum = header_checksum - int(asm.assembled_bytes[i])
     asm.assembled_bytes[0xBD] = (header_checksum - 0x19) & 0xFF
 
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
 
 if __name__ == '__main__':
diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 8e9b86a..9e12960 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -3,8 +3,10 @@ from necroassembler.cpu.mc68000 import AssemblerMC68000
 
 def main():
     import sys
+    first, *others, destination = sys.argv[1:]
     asm = AssemblerMC68000()
-    asm.assemble_file(sys.argv[1])
+    for source in (first, *others):
+        asm.assemble_file(source)
     asm.link()
 
     # fix checksums
@@ -20,7 +22,7 @@ def main():
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
 
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
 
 if __name__ == '__main__':
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index d5f3405..e6f5292 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -118,13 +118,15 @@ class AssemblerNES(AssemblerMOS6502):
 
 def main():
     import sys
+    first, *others, destination = sys.argv[1:]
     asm = AssemblerNES()
-    asm.assemble_file(sys.argv[1])
+    for source in (first, *others):
+        asm.assemble_file(source)
     asm.link()
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
     # rom debug symbols
-    with open(sys.argv[2] + '.0.nl', 'wb') as nl_file:
+    with open(destination + '.0.nl', 'wb') as nl_file:
         for label in asm.labels:
             address = asm.get_label_absolute_address_by_name(label)
             if 0x8000 <= address <= 0xFFFF:
@@ -132,7 +134,7 @@ def main():
                     address, label).encode('ascii'))
 
     # ram debug symbols
-    with open(sys.argv[2] + '.ram.nl', 'wb') as nl_file:
+    with open(destination + '.ram.nl', 'wb') as nl_file:
         for label in asm.labels:
             address = asm.get_label_absolute_address_by_name(label)
             if 0x0000 <= address <= 0x7FF:
diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index ce8582c..ce10f74 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -9,15 +9,17 @@ class AssemberPSX(AssemblerMIPS32):
 
 def main():
     import sys
+    first, *others, destination = sys.argv[1:]
     asm = AssemberPSX()
-    asm.assemble_file(sys.argv[1])
+    for source in (first, *others):
+        asm.assemble_file(source)
     asm.link()
 
     padding = len(asm.assembled_bytes) % 2048
     if padding != 0:
         asm.assembled_bytes += bytes(2048 - padding)
 
-    with open(sys.argv[2], 'wb') as output:
+    with open(destination, 'wb') as output:
         output.write('PS-X EXE'.encode('ascii'))
         output.seek(0x10)
         output.write(b'\x00\x00\x01\x80')  # pc 0x80010000
-- 
2.43.0


From a503856bc34d18b94df6a636f7c7953efe08ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 47/57] fix: unbound_match without patterns

---
 necroassembler/statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index d3d5989..cef8712 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -103,7 +103,7 @@ class Instruction(Statement):
                 elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
-        return True, start+index+1
+        return True, start+len(args)
 
     def apply(self, *args, start=1):
         out = []
-- 
2.43.0


From c95a7839682658d4faeca9a1adc77dcaf0bee87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 48/57] fix: .cartridge at the start of a bounded region

---
 necroassembler/platforms/gameboy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index e8bfd18..d5478a8 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -50,7 +50,8 @@ class AssemblerGameboy(AssemblerLR35902):
         if len(self.assembled_bytes) != 256:
             raise InvalidCartidgeHeaderOffset(instr)
 
-        self.change_org(0x100, self.current_org_end)
+        if self.pc != 0x100:
+            self.change_org(0x100, self.current_org_end)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From 56860d6e3b5dcc6722aa3b26c5dce60a66330d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 49/57] fix: x86 instructions without operands lost their first
 bytes or their second one

---
 necroassembler/cpu/x86.py | 198 +++++++++++++++++++-------------------
 1 file changed, 99 insertions(+), 99 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index fffb626..4e55df3 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -877,7 +877,7 @@ OPCODES_TABLE = (
     (0x90, 'XCHG', _Zvqp),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
-    (0x90, 'PAUSE'),
+    (0xf390, 'PAUSE'),
     (0x98, 'CBW'),
     (0x98, 'CWDE'),
     (0x98, 'CBW'),
@@ -979,7 +979,7 @@ OPCODES_TABLE = (
     (0xc1, 'SAL', _Evqp, _Ib),
     (0xc1, 'SHL', _Evqp, _Ib),
     (0xc1, 'SAR', _Evqp, _Ib),
-    (0xc2, 'RETN'),
+    (0xc2, 'RETN', _Iw),
     (0xc3, 'RETN'),
     (0xc3, 'RET'),
     (0xc6, 'MOV', _Eb, _Ib),
@@ -1038,9 +1038,9 @@ OPCODES_TABLE = (
     (0xd3, 'SAL', _Evqp, _CL),
     (0xd3, 'SHL', _Evqp, _CL),
     (0xd3, 'SAR', _Evqp, _CL),
-    (0xd4, 'AAM'),
+    (0xd40a, 'AAM'),
     (0xd4, 'AMX', _Ib),
-    (0xd5, 'AAD'),
+    (0xd50a, 'AAD'),
     (0xd5, 'ADX', _Ib),
     (0xd6, 'SALC'),
     (0xd6, 'SETALC'),
@@ -1050,10 +1050,10 @@ OPCODES_TABLE = (
     (0xd8, 'FADD', _ST, _EST),
     (0xd8, 'FMUL', _Msr),
     (0xd8, 'FMUL', _ST, _EST),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOMP'),
-    (0xd8, 'FCOMP'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d9, 'FCOMP'),
+    (0xd8d9, 'FCOMP'),
     (0xd8, 'FSUB', _Msr),
     (0xd8, 'FSUB', _ST, _EST),
     (0xd8, 'FSUBR', _Msr),
@@ -1063,57 +1063,57 @@ OPCODES_TABLE = (
     (0xd8, 'FDIVR', _Msr),
     (0xd8, 'FDIVR', _ST, _EST),
     (0xd9, 'FLD', _ESsr),
-    (0xd9, 'FXCH'),
-    (0xd9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
     (0xd9, 'FST', _Msr),
-    (0xd9, 'FNOP'),
+    (0xd9d0, 'FNOP'),
     (0xd9, 'FSTP', _Msr),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FLDENV', _Me),
-    (0xd9, 'FCHS'),
-    (0xd9, 'FABS'),
-    (0xd9, 'FTST'),
-    (0xd9, 'FXAM'),
+    (0xd9e0, 'FCHS'),
+    (0xd9e1, 'FABS'),
+    (0xd9e4, 'FTST'),
+    (0xd9e5, 'FXAM'),
     (0xd9, 'FLDCW', _Mw),
-    (0xd9, 'FLD1'),
-    (0xd9, 'FLDL2T'),
-    (0xd9, 'FLDL2E'),
-    (0xd9, 'FLDPI'),
-    (0xd9, 'FLDLG2'),
-    (0xd9, 'FLDLN2'),
-    (0xd9, 'FLDZ'),
+    (0xd9e8, 'FLD1'),
+    (0xd9e9, 'FLDL2T'),
+    (0xd9ea, 'FLDL2E'),
+    (0xd9eb, 'FLDPI'),
+    (0xd9ec, 'FLDLG2'),
+    (0xd9ed, 'FLDLN2'),
+    (0xd9ee, 'FLDZ'),
     (0xd9, 'FNSTENV', _Me),
     (0xd9, 'FSTENV', _Me),
-    (0xd9, 'F2XM1'),
-    (0xd9, 'FYL2X'),
-    (0xd9, 'FPTAN'),
-    (0xd9, 'FPATAN'),
-    (0xd9, 'FXTRACT'),
-    (0xd9, 'FPREM1'),
-    (0xd9, 'FDECSTP'),
-    (0xd9, 'FINCSTP'),
+    (0xd9f0, 'F2XM1'),
+    (0xd9f1, 'FYL2X'),
+    (0xd9f2, 'FPTAN'),
+    (0xd9f3, 'FPATAN'),
+    (0xd9f4, 'FXTRACT'),
+    (0xd9f5, 'FPREM1'),
+    (0xd9f6, 'FDECSTP'),
+    (0xd9f7, 'FINCSTP'),
     (0xd9, 'FNSTCW', _Mw),
     (0xd9, 'FSTCW', _Mw),
-    (0xd9, 'FPREM'),
-    (0xd9, 'FYL2XP1'),
-    (0xd9, 'FSQRT'),
-    (0xd9, 'FSINCOS'),
-    (0xd9, 'FRNDINT'),
-    (0xd9, 'FSCALE'),
-    (0xd9, 'FSIN'),
-    (0xd9, 'FCOS'),
+    (0xd9f8, 'FPREM'),
+    (0xd9f9, 'FYL2XP1'),
+    (0xd9fa, 'FSQRT'),
+    (0xd9fb, 'FSINCOS'),
+    (0xd9fc, 'FRNDINT'),
+    (0xd9fd, 'FSCALE'),
+    (0xd9fe, 'FSIN'),
+    (0xd9ff, 'FCOS'),
     (0xda, 'FIADD', _Mdi),
     (0xda, 'FCMOVB', _ST, _EST),
     (0xda, 'FIMUL', _Mdi),
     (0xda, 'FCMOVE', _ST, _EST),
-    (0xda, 'FICOM'),
+    (0xda, 'FICOM', _Mdi),
     (0xda, 'FCMOVBE', _ST, _EST),
-    (0xda, 'FICOMP'),
+    (0xda, 'FICOMP', _Mdi),
     (0xda, 'FCMOVU', _ST, _EST),
     (0xda, 'FISUB', _Mdi),
     (0xda, 'FISUBR', _Mdi),
-    (0xda, 'FUCOMPP'),
+    (0xdae9, 'FUCOMPP'),
     (0xda, 'FIDIV', _Mdi),
     (0xda, 'FIDIVR', _Mdi),
     (0xdb, 'FILD', _Mdi),
@@ -1124,19 +1124,19 @@ OPCODES_TABLE = (
     (0xdb, 'FCMOVNBE', _ST, _EST),
     (0xdb, 'FISTP', _Mdi),
     (0xdb, 'FCMOVNU', _ST, _EST),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FENI'),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FDISI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FNCLEX'),
-    (0xdb, 'FCLEX'),
-    (0xdb, 'FNINIT'),
-    (0xdb, 'FINIT'),
-    (0xdb, 'FNSETPM'),
-    (0xdb, 'FSETPM'),
-    (0xdb, 'FNSETPM'),
+    (0xdbe0, 'FNENI'),
+    (0x9bdbe0, 'FENI'),
+    (0xdbe0, 'FNENI'),
+    (0xdbe1, 'FNDISI'),
+    (0x9bdbe1, 'FDISI'),
+    (0xdbe1, 'FNDISI'),
+    (0xdbe2, 'FNCLEX'),
+    (0x9bdbe2, 'FCLEX'),
+    (0xdbe3, 'FNINIT'),
+    (0x9bdbe3, 'FINIT'),
+    (0xdbe4, 'FNSETPM'),
+    (0x9bdbe4, 'FSETPM'),
+    (0xdbe4, 'FNSETPM'),
     (0xdb, 'FLD', _Mer),
     (0xdb, 'FUCOMI', _ST),
     (0xdb, 'FCOMI', _ST),
@@ -1145,12 +1145,12 @@ OPCODES_TABLE = (
     (0xdc, 'FADD', _EST, _ST),
     (0xdc, 'FMUL', _Mdr),
     (0xdc, 'FMUL', _EST, _ST),
-    (0xdc, 'FCOM'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOMP'),
-    (0xdc, 'FCOMP3'),
-    (0xdc, 'FCOMP3'),
+    (0xdc, 'FCOM', _Mdr),
+    (0xdcd1, 'FCOM2'),
+    (0xdcd1, 'FCOM2'),
+    (0xdc, 'FCOMP', _Mdr),
+    (0xdcd9, 'FCOMP3'),
+    (0xdcd9, 'FCOMP3'),
     (0xdc, 'FSUB', _Mdr),
     (0xdc, 'FSUBR', _EST, _ST),
     (0xdc, 'FSUBR', _Mdr),
@@ -1162,49 +1162,49 @@ OPCODES_TABLE = (
     (0xdd, 'FLD', _Mdr),
     (0xdd, 'FFREE', _EST),
     (0xdd, 'FISTTP', _Mqi),
-    (0xdd, 'FXCH4'),
-    (0xdd, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
     (0xdd, 'FST', _Mdr),
     (0xdd, 'FST', _EST),
     (0xdd, 'FSTP', _Mdr),
     (0xdd, 'FSTP', _EST),
     (0xdd, 'FRSTOR', _Mst),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOMP'),
-    (0xdd, 'FUCOMP'),
+    (0xdde1, 'FUCOM'),
+    (0xdde1, 'FUCOM'),
+    (0xdde9, 'FUCOMP'),
+    (0xdde9, 'FUCOMP'),
     (0xdd, 'FNSAVE', _Mst),
     (0xdd, 'FSAVE', _Mst),
     (0xdd, 'FNSTSW', _Mw),
     (0xdd, 'FSTSW', _Mw),
     (0xde, 'FIADD', _Mwi),
     (0xde, 'FADDP', _EST, _ST),
-    (0xde, 'FADDP'),
+    (0xdec1, 'FADDP'),
     (0xde, 'FIMUL', _Mwi),
     (0xde, 'FMULP', _EST, _ST),
-    (0xde, 'FMULP'),
-    (0xde, 'FICOM'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FICOMP'),
-    (0xde, 'FCOMPP'),
+    (0xdec9, 'FMULP'),
+    (0xde, 'FICOM', _Mwi),
+    (0xded1, 'FCOMP5'),
+    (0xded1, 'FCOMP5'),
+    (0xde, 'FICOMP', _Mwi),
+    (0xded9, 'FCOMPP'),
     (0xde, 'FISUB', _Mwi),
     (0xde, 'FSUBRP', _EST, _ST),
-    (0xde, 'FSUBRP'),
+    (0xdee1, 'FSUBRP'),
     (0xde, 'FISUBR', _Mwi),
     (0xde, 'FSUBP', _EST, _ST),
-    (0xde, 'FSUBP'),
+    (0xdee9, 'FSUBP'),
     (0xde, 'FIDIV', _Mwi),
     (0xde, 'FDIVRP', _EST, _ST),
-    (0xde, 'FDIVRP'),
+    (0xdef1, 'FDIVRP'),
     (0xde, 'FIDIVR', _Mwi),
     (0xde, 'FDIVP', _EST, _ST),
-    (0xde, 'FDIVP'),
+    (0xdef9, 'FDIVP'),
     (0xdf, 'FILD', _Mwi),
     (0xdf, 'FFREEP', _EST),
     (0xdf, 'FISTTP', _Mwi),
-    (0xdf, 'FXCH7'),
-    (0xdf, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
     (0xdf, 'FIST', _Mwi),
     (0xdf, 'FSTP8', _EST),
     (0xdf, 'FSTP8', _EST),
@@ -1262,10 +1262,10 @@ OPCODES_TABLE = (
     (0xf6, 'TEST', _Eb),
     (0xf6, 'NOT', _Eb),
     (0xf6, 'NEG', _Eb),
-    (0xf6, 'MUL'),
-    (0xf6, 'IMUL'),
-    (0xf6, 'DIV'),
-    (0xf6, 'IDIV'),
+    (0xf6, 'MUL', _Eb),
+    (0xf6, 'IMUL', _Eb),
+    (0xf6, 'DIV', _Eb),
+    (0xf6, 'IDIV', _Eb),
     (0xf7, 'TEST', _Evqp),
     (0xf7, 'TEST', _Evqp),
     (0xf7, 'NOT', _Evqp),
@@ -1300,25 +1300,25 @@ OPCODES_TABLE = (
     (0xf00, 'LTR', _Ew),
     (0xf00, 'VERR', _Ew),
     (0xf00, 'VERW', _Ew),
-    (0xf00, 'JMPE'),
+    (0xf00, 'JMPE', _Ev),
     (0xf01, 'SGDT', _Ms),
-    (0xf01, 'VMCALL'),
-    (0xf01, 'VMLAUNCH'),
-    (0xf01, 'VMRESUME'),
-    (0xf01, 'VMXOFF'),
+    (0xf01c1, 'VMCALL'),
+    (0xf01c2, 'VMLAUNCH'),
+    (0xf01c3, 'VMRESUME'),
+    (0xf01c4, 'VMXOFF'),
     (0xf01, 'SIDT', _Ms),
-    (0xf01, 'MONITOR'),
-    (0xf01, 'MWAIT'),
+    (0xf01c8, 'MONITOR'),
+    (0xf01c9, 'MWAIT'),
     (0xf01, 'LGDT', _Ms),
-    (0xf01, 'XGETBV'),
-    (0xf01, 'XSETBV'),
+    (0xf01d0, 'XGETBV'),
+    (0xf01d1, 'XSETBV'),
     (0xf01, 'LIDT', _Ms),
     (0xf01, 'SMSW', _Mw),
     (0xf01, 'SMSW', _Rvqp),
     (0xf01, 'LMSW', _Ew),
     (0xf01, 'INVLPG', _M),
-    (0xf01, 'SWAPGS'),
-    (0xf01, 'RDTSCP'),
+    (0xf01f8, 'SWAPGS'),
+    (0xf01f9, 'RDTSCP'),
     (0xf02, 'LAR', _Gvqp, _Mw),
     (0xf02, 'LAR', _Gvqp, _Rv),
     (0xf03, 'LSL', _Gvqp, _Mw),
@@ -1778,11 +1778,11 @@ OPCODES_TABLE = (
     (0xfae, 'STMXCSR', _Md),
     (0xfae, 'XSAVE', _M),
     (0xfae, 'XSAVE', _M),
-    (0xfae, 'LFENCE'),
+    (0xfaee8, 'LFENCE'),
     (0xfae, 'XRSTOR', _M),
     (0xfae, 'XRSTOR', _M),
-    (0xfae, 'MFENCE'),
-    (0xfae, 'SFENCE'),
+    (0xfaef0, 'MFENCE'),
+    (0xfaef8, 'SFENCE'),
     (0xfae, 'CLFLUSH', _Mb),
     (0xfaf, 'IMUL', _Gvqp, _Evqp),
     (0xfb0, 'CMPXCHG', _Eb, _Gb),
@@ -1790,7 +1790,7 @@ OPCODES_TABLE = (
     (0xfb3, 'BTR', _Evqp, _Gvqp),
     (0xfb6, 'MOVZX', _Gvqp, _Eb),
     (0xfb7, 'MOVZX', _Gvqp, _Ew),
-    (0xfb8, 'JMPE'),
+    (0xfb8, 'JMPE', _Ap),
     (0xfb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
     (0xfba, 'BT', _Evqp),
@@ -1947,7 +1947,7 @@ class X86OpCode:
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) == 1:
-                    return pack_byte(base)
+                    return base.to_bytes((base.bit_length() + 7) // 8, 'big')
                 raise InvalidOpCodeArguments(instr)
             if len(instr.tokens) < 2:
                 continue
-- 
2.43.0


From 0e97c84641b9fd8f83aa175e5326ff745717766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 50/57] fix: x86 operand sizes, addressing modes, opcode
 extensions and label offsets

---
 necroassembler/cpu/x86.py | 819 +++++++++++++++++---------------------
 1 file changed, 376 insertions(+), 443 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 4e55df3..1e85085 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1,7 +1,6 @@
 from necroassembler import Assembler, directive
 from necroassembler.exceptions import InvalidOpCodeArguments, InvalidArgumentsForDirective
-from necroassembler.utils import (pack_byte, pack_le16u, pack_le32u,
-                                  pack_le64u, pack_bits, pack_le16s, pack_le32s, pack_le64s, match)
+from necroassembler.utils import pack_byte, pack_bits, match
 from necroassembler.statements import Instruction
 
 REGS8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
@@ -14,686 +13,566 @@ SEGMENTS = ('ES', 'CS', 'SS', 'DS')
 ALL_REGS = REGS8 + REGS16 + REGS32 + REGS64 + CREGS + SEGMENTS
 
 
-def _build_modrm(assembler, base, modrm):
-    blob = pack_byte(pack_bits(0,
-                               ((7, 6), modrm['mod']),
-                               ((5, 3), modrm['reg']),
-                               ((2, 0), modrm['rm'])))
-
-    if modrm.get('displacement') is not None:
-        if modrm['bits'] == 16:
-            blob += pack_le16s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=2,
-                bits_size=16,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 32:
-            blob += pack_le32s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=4,
-                bits_size=32,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 64:
-            blob += pack_le64s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=8,
-                bits_size=64,
-                offset=len(base),
-                signed=True))
-    return blob
-
-
-def _get_modrm_mod(arg):
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b000, 3, None
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b001, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b010, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b011, 3, None
-    if match(arg, ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b100, 1, None
-    if match(arg, ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b101, 1, None
-    if match(arg, ('BP', 'EBP', 'RBP')):
-        return 0b00, 0b110, 1, None
-    if match(arg, ('BX', 'EBX', 'RBX')):
-        return 0b00, 0b111, 1, None
-    # displacement (16 bit only)
-    if match(arg, 'BX', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b000, 5, arg[3] + arg[4]
-    if match(arg, 'BX', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b001, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b010, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b011, 5, arg[3] + arg[4]
-    if match(arg, 'SI', ('+', '-'), None):
-        return 0b10, 0b100, 3, arg[1] + arg[2]
-    if match(arg, 'DI', ('+', '-'), None):
-        return 0b10, 0b101, 3, arg[1] + arg[2]
-    if match(arg, 'BP', ('+', '-'), None):
-        return 0b10, 0b110, 3, arg[1] + arg[2]
-    if match(arg, 'BX', ('+', '-'), None):
-        return 0b10, 0b111, 3, arg[1] + arg[2]
-    raise InvalidOpCodeArguments()
-
-
-def _apply_Z(base, reg, regs):
-    value = regs.index(reg.upper())
-    base[-1] |= value
-    return base
-
-
-def _Eb(instr, base, assembler, index, modrm):
-    pass
-
-
-def _Gb(instr, base, assembler, index, modrm):
-    pass
-
-
-def _Evqp(instr, base, assembler, index, modrm):
-    arg = instr.tokens[index].upper()
-    if arg in REGS16:
-        modrm['mod'] = 3
-        modrm['rm'] = REGS16.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-
-    if arg in REGS32:
-        modrm['mod'] = 3
-        modrm['rm'] = REGS32.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-
-    if arg in REGS64:
-        modrm['mod'] = 3
-        modrm['rm'] = REGS64.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-
-    if arg == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
+def _gpr(assembler, name, modrm):
+    # the number of a general register of the size of the instruction
+    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):
+        if name in regs:
+            if bits == 64 and assembler.bits != 64:
+                return None
+            if modrm.setdefault('bits', bits) != bits:
+                return None
+            return regs.index(name)
+    return None
+
+
+def _memory(instr, assembler, index, modrm):
+    try:
+        end_index = instr.tokens.index(']', index+1)
+    except ValueError:
+        raise InvalidOpCodeArguments(instr)
+    arg = tuple(token.upper() for token in instr.tokens[index+1:end_index])
+    displacement = None
+    if len(arg) > 2 and arg[-2] in ('+', '-') and arg[-1] not in ALL_REGS:
+        displacement = instr.tokens[end_index-2].replace(
+            '+', '') + instr.tokens[end_index-1]
+        arg = arg[:-2]
+    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):
+        base = dict(zip(regs, REGS16)).get(arg[0] if arg else None)
+        if base is None:
+            continue
+        if (bits == 64) != (assembler.bits == 64) and 32 != bits:
+            return None
+        if base not in ('BX', 'BP', 'SI', 'DI'):
+            return None
+        if len(arg) == 1:
+            index_reg = None
+        elif match(arg, ('BX', 'EBX', 'RBX', 'BP', 'EBP', 'RBP'), '+', (regs[6], regs[7])):
+            index_reg = regs.index(arg[2])
+        else:
             return None
+        if displacement is None and base == 'BP' and not (bits == 16 and index_reg):
+            # without a displacement it would be something else
+            modrm['mod'] = 1
+            modrm['displacement'] = ('0', 1, 8, False)
+        elif displacement is None:
+            modrm['mod'] = 0
+        else:
+            modrm['mod'] = 2
+            size = 2 if bits == 16 else 4
+            modrm['displacement'] = (displacement, size, size * 8, bits == 64)
+        if bits == 16:
+            if index_reg is None:
+                modrm['rm'] = ('SI', 'DI', 'BP', 'BX').index(base) + 4
+            else:
+                modrm['rm'] = (0 if base == 'BX' else 2) + index_reg - 6
+        elif index_reg is None:
+            modrm['rm'] = REGS16.index(base)
+        else:
+            modrm['rm'] = 4
+            modrm['sib'] = pack_bits(
+                0, ((5, 3), index_reg), ((2, 0), REGS16.index(base)))
+        modrm['address_bits'] = bits
+        return end_index + 1 - index
+    return None
 
 
-def _Gvqp(instr, base, assembler, index, modrm):
-    reg = instr.tokens[index].upper()
-    if reg in REGS16:
-        modrm['reg'] = REGS16.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
-    if reg in REGS32:
-        modrm['reg'] = REGS32.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
-    if reg in REGS64:
-        modrm['reg'] = REGS64.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
-
-
-def _Zvqp(instr, base, assembler, index, modrm):
-    reg = instr.tokens[index].upper()
-    if reg in REGS32:
-        base = _apply_Z(base, reg, REGS32)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 32
-        return 1, base, b''
-    if reg in REGS64:
-        base = _apply_Z(base, reg, REGS64)
-        modrm['bits'] = 64
-        return 1, base, b''
-    if reg in REGS16:
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 16
-        base = _apply_Z(base, reg, REGS16)
-        return 1, base, b''
+def _digit(value):
+    # the opcode extension stored in the modrm byte
+    def digit(instr, assembler, index, modrm):
+        modrm['reg'] = value
+        return 0
+    return digit
+
+
+def _Eb(instr, assembler, index, modrm):
+    pass
 
 
-def _Rvqp(instr, base, assembler, index, modrm):
+def _Gb(instr, assembler, index, modrm):
     pass
 
 
-def _AL(instr, base, assembler, index, modrm):
+def _Evqp(instr, assembler, index, modrm):
+    if instr.tokens[index] == '[':
+        # a register has to give the size
+        modrm['sized'] = True
+        return _memory(instr, assembler, index, modrm)
+    modrm['rm'] = _gpr(assembler, instr.tokens[index].upper(), modrm)
+    modrm['mod'] = 3
+    return None if modrm['rm'] is None else 1
+
+
+def _Gvqp(instr, assembler, index, modrm):
+    modrm['reg'] = _gpr(assembler, instr.tokens[index].upper(), modrm)
+    return None if modrm['reg'] is None else 1
+
+
+def _Zvqp(instr, assembler, index, modrm):
+    modrm['z'] = _gpr(assembler, instr.tokens[index].upper(), modrm)
+    return None if modrm['z'] is None else 1
+
+
+def _Rvqp(instr, assembler, index, modrm):
     pass
 
 
-def _CL(instr, base, assembler, index, modrm):
+def _AL(instr, assembler, index, modrm):
     pass
 
 
-def _DX(instr, base, assembler, index, modrm):
+def _CL(instr, assembler, index, modrm):
     pass
 
 
-def _Ib(instr, base, assembler, index, modrm):
+def _DX(instr, assembler, index, modrm):
     pass
 
 
-def _Ivds(instr, base, assembler, index, modrm):
-    if instr.tokens[index].upper() not in ALL_REGS + ('[', ']'):
-        if 'bits' in modrm:
-            if modrm['bits'] == 16:
-                return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
-            if modrm['bits'] == 32:
-                return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+def _Ib(instr, assembler, index, modrm):
+    pass
 
 
-def _rAX(instr, base, assembler, index, modrm):
-    if instr.tokens[index].upper() == 'AX':
-        modrm['bits'] = 16
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'EAX':
-        modrm['bits'] = 32
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'RAX':
-        modrm['bits'] = 64
-        return 1, base, b''
+def _Ivds(instr, assembler, index, modrm):
+    if instr.tokens[index].upper() not in ALL_REGS + ('[', ']') and 'bits' in modrm:
+        size = min(modrm['bits'] // 8, 4)
+        # sign-extended to 64 bit
+        modrm['immediate'] = (
+            instr.tokens[index], size, size * 8, modrm['bits'] == 64)
+        return 1
 
 
-def _Zv(instr, base, assembler, index, modrm):
+def _rAX(instr, assembler, index, modrm):
+    if _gpr(assembler, instr.tokens[index].upper(), modrm) == 0:
+        return 1
+
+
+def _Zv(instr, assembler, index, modrm):
     pass
 
 
-def _Zvq(instr, base, assembler, index, modrm):
-    reg = instr.tokens[index].upper()
-    if reg in REGS64:
-        base = _apply_Z(base, reg, REGS64)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 64
-        return 1, base, b''
-    if reg in REGS16:
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 16
-        base = _apply_Z(base, reg, REGS16)
-        return 1, base, b''
+def _Zvq(instr, assembler, index, modrm):
+    if instr.tokens[index].upper() in REGS16 + REGS64:
+        modrm['no_rex'] = True
+        return _Zvqp(instr, assembler, index, modrm)
 
 
-def _Jbs(instr, base, assembler, index, modrm):
+def _Jbs(instr, assembler, index, modrm):
     pass
 
 
-def _Ibs(instr, base, assembler, index, modrm):
+def _Ibs(instr, assembler, index, modrm):
     pass
 
 
-def _Gv(instr, base, assembler, index, modrm):
+def _Gv(instr, assembler, index, modrm):
     pass
 
 
-def _Ew(instr, base, assembler, index, modrm):
+def _Ew(instr, assembler, index, modrm):
     pass
 
 
-def _Ev(instr, base, assembler, index, modrm):
+def _Ev(instr, assembler, index, modrm):
     pass
 
 
-def _1(instr, base, assembler, index, modrm):
+def _1(instr, assembler, index, modrm):
     pass
 
 
-def _Gdqp(instr, base, assembler, index, modrm):
+def _Gdqp(instr, assembler, index, modrm):
     pass
 
 
-def _Ed(instr, base, assembler, index, modrm):
+def _Ed(instr, assembler, index, modrm):
     pass
 
 
-def _Ivs(instr, base, assembler, index, modrm):
+def _Ivs(instr, assembler, index, modrm):
     pass
 
 
-def _Ibss(instr, base, assembler, index, modrm):
+def _Ibss(instr, assembler, index, modrm):
     pass
 
 
-def _ST(instr, base, assembler, index, modrm):
+def _ST(instr, assembler, index, modrm):
     pass
 
 
-def _EST(instr, base, assembler, index, modrm):
+def _EST(instr, assembler, index, modrm):
     pass
 
 
-def _Mw(instr, base, assembler, index, modrm):
+def _Mw(instr, assembler, index, modrm):
     pass
 
 
-def _Sw(instr, base, assembler, index, modrm):
+def _Sw(instr, assembler, index, modrm):
     pass
 
 
-def _M(instr, base, assembler, index, modrm):
+def _M(instr, assembler, index, modrm):
     if instr.tokens[index] == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base,  b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
-            return None
+        return _memory(instr, assembler, index, modrm)
 
 
-def _Evq(instr, base, assembler, index, modrm):
+def _Evq(instr, assembler, index, modrm):
     pass
 
 
-def _Ap(instr, base, assembler, index, modrm):
+def _Ap(instr, assembler, index, modrm):
     pass
 
 
-def _Ob(instr, base, assembler, index, modrm):
+def _Ob(instr, assembler, index, modrm):
     pass
 
 
-def _Ovqp(instr, base, assembler, index, modrm):
+def _Ovqp(instr, assembler, index, modrm):
     pass
 
 
-def _Zb(instr, base, assembler, index, modrm):
+def _Zb(instr, assembler, index, modrm):
     pass
 
 
-def _Ivqp(instr, base, assembler, index, modrm):
-    if instr.tokens[index].upper() not in ALL_REGS + ('[', ']'):
-        if 'bits' in modrm:
-            if modrm['bits'] == 16:
-                return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
-            if modrm['bits'] == 32:
-                return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
-            if modrm['bits'] == 64:
-                return 1, base, pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=8, bits_size=64, offset=len(base)))
+def _Ivqp(instr, assembler, index, modrm):
+    if instr.tokens[index].upper() not in ALL_REGS + ('[', ']') and 'bits' in modrm:
+        modrm['immediate'] = (
+            instr.tokens[index], modrm['bits'] // 8, modrm['bits'], False)
+        return 1
 
 
-def _Iw(instr, base, assembler, index, modrm):
+def _Iw(instr, assembler, index, modrm):
     pass
 
 
-def _3(instr, base, assembler, index, modrm):
+def _3(instr, assembler, index, modrm):
     pass
 
 
-def _Msr(instr, base, assembler, index, modrm):
+def _Msr(instr, assembler, index, modrm):
     pass
 
 
-def _ESsr(instr, base, assembler, index, modrm):
+def _ESsr(instr, assembler, index, modrm):
     pass
 
 
-def _Me(instr, base, assembler, index, modrm):
+def _Me(instr, assembler, index, modrm):
     pass
 
 
-def _Yb(instr, base, assembler, index, modrm):
+def _Yb(instr, assembler, index, modrm):
     pass
 
 
-def _Ywo(instr, base, assembler, index, modrm):
+def _Ywo(instr, assembler, index, modrm):
     pass
 
 
-def _Yv(instr, base, assembler, index, modrm):
+def _Yv(instr, assembler, index, modrm):
     pass
 
 
-def _Xb(instr, base, assembler, index, modrm):
+def _Xb(instr, assembler, index, modrm):
     pass
 
 
-def _Xwo(instr, base, assembler, index, modrm):
+def _Xwo(instr, assembler, index, modrm):
     pass
 
 
-def _Xv(instr, base, assembler, index, modrm):
+def _Xv(instr, assembler, index, modrm):
     pass
 
 
-def _Yvqp(instr, base, assembler, index, modrm):
+def _Yvqp(instr, assembler, index, modrm):
     pass
 
 
-def _Xvqp(instr, base, assembler, index, modrm):
+def _Xvqp(instr, assembler, index, modrm):
     pass
 
 
-def _I(instr, base, assembler, index, modrm):
+def _I(instr, assembler, index, modrm):
     pass
 
 
-def _BBb(instr, base, assembler, index, modrm):
+def _BBb(instr, assembler, index, modrm):
     pass
 
 
-def _Mdi(instr, base, assembler, index, modrm):
+def _Mdi(instr, assembler, index, modrm):
     pass
 
 
-def _Mer(instr, base, assembler, index, modrm):
+def _Mer(instr, assembler, index, modrm):
     pass
 
 
-def _Mdr(instr, base, assembler, index, modrm):
+def _Mdr(instr, assembler, index, modrm):
     pass
 
 
-def _Mqi(instr, base, assembler, index, modrm):
+def _Mqi(instr, assembler, index, modrm):
     pass
 
 
-def _Mst(instr, base, assembler, index, modrm):
+def _Mst(instr, assembler, index, modrm):
     pass
 
 
-def _Mwi(instr, base, assembler, index, modrm):
+def _Mwi(instr, assembler, index, modrm):
     pass
 
 
-def _Mbcd(instr, base, assembler, index, modrm):
+def _Mbcd(instr, assembler, index, modrm):
     pass
 
 
-def _AX(instr, base, assembler, index, modrm):
+def _AX(instr, assembler, index, modrm):
     pass
 
 
-def _eAX(instr, base, assembler, index, modrm):
+def _eAX(instr, assembler, index, modrm):
     pass
 
 
-def _Jvds(instr, base, assembler, index, modrm):
+def _Jvds(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in ALL_REGS + ('[', ']'):
-        if assembler.bits == 16:
-            return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index],
-                relative=assembler.pc + len(base) + 2,
-                size=2, bits_size=16, offset=len(base)))
+        size = 2 if assembler.bits == 16 else 4
+        modrm['relative'] = (instr.tokens[index], size)
+        return 1
 
-        if assembler.bits in (32, 64):
-            return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                instr.tokens[index],
-                relative=assembler.pc + len(base) + 4,
-                size=4, bits_size=32, offset=len(base)))
 
-
-def _Eq(instr, base, assembler, index, modrm):
+def _Eq(instr, assembler, index, modrm):
     pass
 
 
-def _Mptp(instr, base, assembler, index, modrm):
+def _Mptp(instr, assembler, index, modrm):
     pass
 
 
-def _Ms(instr, base, assembler, index, modrm):
+def _Ms(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
-            modrm['reg'] = 0
+            size = 2 if assembler.bits == 16 else 4
             modrm['mod'] = 0
-            modrm['rm'] = 6
-            if assembler.bits == 16:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)))
-            elif assembler.bits == 32:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)))
-            elif assembler.bits == 64:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)))
+            modrm['rm'] = {16: 6, 32: 5, 64: 4}[assembler.bits]
+            if assembler.bits == 64:
+                # no base and no index, otherwise it would be relative to rip
+                modrm['sib'] = 0x25
+            modrm['displacement'] = (
+                instr.tokens[index+1], size, size * 8, assembler.bits == 64)
+            return 3
 
 
-def _Rv(instr, base, assembler, index, modrm):
+def _Rv(instr, assembler, index, modrm):
     pass
 
 
-def _Vps(instr, base, assembler, index, modrm):
+def _Vps(instr, assembler, index, modrm):
     pass
 
 
-def _Wps(instr, base, assembler, index, modrm):
+def _Wps(instr, assembler, index, modrm):
     pass
 
 
-def _Vss(instr, base, assembler, index, modrm):
+def _Vss(instr, assembler, index, modrm):
     pass
 
 
-def _Wss(instr, base, assembler, index, modrm):
+def _Wss(instr, assembler, index, modrm):
     pass
 
 
-def _Vpd(instr, base, assembler, index, modrm):
+def _Vpd(instr, assembler, index, modrm):
     pass
 
 
-def _Wpd(instr, base, assembler, index, modrm):
+def _Wpd(instr, assembler, index, modrm):
     pass
 
 
-def _Vsd(instr, base, assembler, index, modrm):
+def _Vsd(instr, assembler, index, modrm):
     pass
 
 
-def _Wsd(instr, base, assembler, index, modrm):
+def _Wsd(instr, assembler, index, modrm):
     pass
 
 
-def _Vq(instr, base, assembler, index, modrm):
+def _Vq(instr, assembler, index, modrm):
     pass
 
 
-def _Uq(instr, base, assembler, index, modrm):
+def _Uq(instr, assembler, index, modrm):
     pass
 
 
-def _Mq(instr, base, assembler, index, modrm):
+def _Mq(instr, assembler, index, modrm):
     pass
 
 
-def _Wq(instr, base, assembler, index, modrm):
+def _Wq(instr, assembler, index, modrm):
     pass
 
 
-def _Mb(instr, base, assembler, index, modrm):
+def _Mb(instr, assembler, index, modrm):
     pass
 
 
-def _Rd(instr, base, assembler, index, modrm):
+def _Rd(instr, assembler, index, modrm):
     reg = instr.tokens[index].upper()
-    if reg in REGS32:
+    if reg in REGS32 and assembler.bits != 64:
         modrm['mod'] = 3
         modrm['rm'] = REGS32.index(reg)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+        return 1
 
 
-def _Cd(instr, base, assembler, index, modrm):
+def _Cd(instr, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in CREGS:
         modrm['reg'] = CREGS.index(reg)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
+        return 1
 
 
-def _Hd(instr, base, assembler, index, modrm):
+def _Hd(instr, assembler, index, modrm):
     pass
 
 
-def _Rq(instr, base, assembler, index, modrm):
-    pass
+def _Rq(instr, assembler, index, modrm):
+    reg = instr.tokens[index].upper()
+    if reg in REGS64 and assembler.bits == 64:
+        modrm['mod'] = 3
+        modrm['rm'] = REGS64.index(reg)
+        return 1
 
 
-def _Cq(instr, base, assembler, index, modrm):
-    pass
+def _Cq(instr, assembler, index, modrm):
+    return _Cd(instr, assembler, index, modrm)
 
 
-def _Hq(instr, base, assembler, index, modrm):
+def _Hq(instr, assembler, index, modrm):
     pass
 
 
-def _Dd(instr, base, assembler, index, modrm):
+def _Dd(instr, assembler, index, modrm):
     pass
 
 
-def _Dq(instr, base, assembler, index, modrm):
+def _Dq(instr, assembler, index, modrm):
     pass
 
 
-def _Td(instr, base, assembler, index, modrm):
+def _Td(instr, assembler, index, modrm):
     pass
 
 
-def _Qpi(instr, base, assembler, index, modrm):
+def _Qpi(instr, assembler, index, modrm):
     pass
 
 
-def _Edqp(instr, base, assembler, index, modrm):
+def _Edqp(instr, assembler, index, modrm):
     pass
 
 
-def _Mps(instr, base, assembler, index, modrm):
+def _Mps(instr, assembler, index, modrm):
     pass
 
 
-def _Mpd(instr, base, assembler, index, modrm):
+def _Mpd(instr, assembler, index, modrm):
     pass
 
 
-def _Ppi(instr, base, assembler, index, modrm):
+def _Ppi(instr, assembler, index, modrm):
     pass
 
 
-def _Wpsq(instr, base, assembler, index, modrm):
+def _Wpsq(instr, assembler, index, modrm):
     pass
 
 
-def _Pq(instr, base, assembler, index, modrm):
+def _Pq(instr, assembler, index, modrm):
     pass
 
 
-def _Qq(instr, base, assembler, index, modrm):
+def _Qq(instr, assembler, index, modrm):
     pass
 
 
-def _Vdq(instr, base, assembler, index, modrm):
+def _Vdq(instr, assembler, index, modrm):
     pass
 
 
-def _Wdq(instr, base, assembler, index, modrm):
+def _Wdq(instr, assembler, index, modrm):
     pass
 
 
-def _Udq(instr, base, assembler, index, modrm):
+def _Udq(instr, assembler, index, modrm):
     pass
 
 
-def _Md(instr, base, assembler, index, modrm):
+def _Md(instr, assembler, index, modrm):
     pass
 
 
-def _Mdq(instr, base, assembler, index, modrm):
+def _Mdq(instr, assembler, index, modrm):
     pass
 
 
-def _Gd(instr, base, assembler, index, modrm):
+def _Gd(instr, assembler, index, modrm):
     pass
 
 
-def _Gq(instr, base, assembler, index, modrm):
+def _Gq(instr, assembler, index, modrm):
     pass
 
 
-def _Mvqp(instr, base, assembler, index, modrm):
+def _Mvqp(instr, assembler, index, modrm):
     pass
 
 
-def _Rdqp(instr, base, assembler, index, modrm):
+def _Rdqp(instr, assembler, index, modrm):
     pass
 
 
-def _Eqp(instr, base, assembler, index, modrm):
+def _Eqp(instr, assembler, index, modrm):
     pass
 
 
-def _Ups(instr, base, assembler, index, modrm):
+def _Ups(instr, assembler, index, modrm):
     pass
 
 
-def _Upd(instr, base, assembler, index, modrm):
+def _Upd(instr, assembler, index, modrm):
     pass
 
 
-def _Qd(instr, base, assembler, index, modrm):
+def _Qd(instr, assembler, index, modrm):
     pass
 
 
-def _Nq(instr, base, assembler, index, modrm):
+def _Nq(instr, assembler, index, modrm):
     pass
 
 
-def _Edq(instr, base, assembler, index, modrm):
+def _Edq(instr, assembler, index, modrm):
     pass
 
 
-def _Mstx(instr, base, assembler, index, modrm):
+def _Mstx(instr, assembler, index, modrm):
     pass
 
 
-def _G(instr, base, assembler, index, modrm):
+def _G(instr, assembler, index, modrm):
     pass
 
 
-def _Mdqp(instr, base, assembler, index, modrm):
+def _Mdqp(instr, assembler, index, modrm):
     pass
 
 
@@ -744,12 +623,12 @@ OPCODES_TABLE = (
     (0x34, 'XOR', _AL, _Ib),
     (0x35, 'XOR', _rAX, _Ivds),
     (0x37, 'AAA'),
-    (0x38, 'CMP', _Eb),
-    (0x39, 'CMP', _Evqp),
-    (0x3a, 'CMP', _Gb),
-    (0x3b, 'CMP', _Gvqp),
-    (0x3c, 'CMP', _AL),
-    (0x3d, 'CMP', _rAX),
+    (0x38, 'CMP', _Eb, _Gb),
+    (0x39, 'CMP', _Evqp, _Gvqp),
+    (0x3a, 'CMP', _Gb, _Eb),
+    (0x3b, 'CMP', _Gvqp, _Evqp),
+    (0x3c, 'CMP', _AL, _Ib),
+    (0x3d, 'CMP', _rAX, _Ivds),
     (0x3e, 'TAKEN'),
     (0x3f, 'AAS'),
     (0x40, 'INC', _Zv),
@@ -783,9 +662,9 @@ OPCODES_TABLE = (
     (0x63, 'MOVSXD', _Gdqp, _Ed),
     (0x64, 'ALTER'),
     (0x68, 'PUSH', _Ivs),
-    (0x69, 'IMUL', _Gvqp, _Evqp),
+    (0x69, 'IMUL', _Gvqp, _Evqp, _Ivds),
     (0x6a, 'PUSH', _Ibss),
-    (0x6b, 'IMUL', _Gvqp, _Evqp),
+    (0x6b, 'IMUL', _Gvqp, _Evqp, _Ibs),
     (0x6c, 'INS', _Yb, _DX),
     (0x6c, 'INSB'),
     (0x6d, 'INS', _Ywo, _DX),
@@ -836,14 +715,14 @@ OPCODES_TABLE = (
     (0x80, 'SUB', _Eb, _Ib),
     (0x80, 'XOR', _Eb, _Ib),
     (0x80, 'CMP', _Eb),
-    (0x81, 'ADD', _Evqp, _Ivds),
-    (0x81, 'OR', _Evqp, _Ivds),
-    (0x81, 'ADC', _Evqp, _Ivds),
-    (0x81, 'SBB', _Evqp, _Ivds),
-    (0x81, 'AND', _Evqp, _Ivds),
-    (0x81, 'SUB', _Evqp, _Ivds),
-    (0x81, 'XOR', _Evqp, _Ivds),
-    (0x81, 'CMP', _Evqp),
+    (0x81, 'ADD', _digit(0), _Evqp, _Ivds),
+    (0x81, 'OR', _digit(1), _Evqp, _Ivds),
+    (0x81, 'ADC', _digit(2), _Evqp, _Ivds),
+    (0x81, 'SBB', _digit(3), _Evqp, _Ivds),
+    (0x81, 'AND', _digit(4), _Evqp, _Ivds),
+    (0x81, 'SUB', _digit(5), _Evqp, _Ivds),
+    (0x81, 'XOR', _digit(6), _Evqp, _Ivds),
+    (0x81, 'CMP', _digit(7), _Evqp, _Ivds),
     (0x82, 'ADD', _Eb, _Ib),
     (0x82, 'OR', _Eb, _Ib),
     (0x82, 'ADC', _Eb, _Ib),
@@ -859,11 +738,11 @@ OPCODES_TABLE = (
     (0x83, 'AND', _Evqp, _Ibs),
     (0x83, 'SUB', _Evqp, _Ibs),
     (0x83, 'XOR', _Evqp, _Ibs),
-    (0x83, 'CMP', _Evqp),
-    (0x84, 'TEST', _Eb),
-    (0x85, 'TEST', _Evqp),
-    (0x86, 'XCHG', _Gb),
-    (0x87, 'XCHG', _Gvqp),
+    (0x83, 'CMP', _Evqp, _Ibs),
+    (0x84, 'TEST', _Eb, _Gb),
+    (0x85, 'TEST', _Evqp, _Gvqp),
+    (0x86, 'XCHG', _Gb, _Eb),
+    (0x87, 'XCHG', _Gvqp, _Evqp),
     (0x88, 'MOV', _Eb, _Gb),
     (0x89, 'MOV', _Evqp, _Gvqp),
     (0x8a, 'MOV', _Gb, _Eb),
@@ -874,7 +753,7 @@ OPCODES_TABLE = (
     (0x8e, 'MOV', _Sw, _Ew),
     (0x8f, 'POP', _Ev),
     (0x8f, 'POP', _Evq),
-    (0x90, 'XCHG', _Zvqp),
+    (0x90, 'XCHG', _Zvqp, _rAX),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
     (0xf390, 'PAUSE'),
@@ -925,8 +804,8 @@ OPCODES_TABLE = (
     (0xa7, 'CMPSW'),
     (0xa7, 'CMPSD'),
     (0xa7, 'CMPSQ'),
-    (0xa8, 'TEST', _AL),
-    (0xa9, 'TEST', _rAX),
+    (0xa8, 'TEST', _AL, _Ib),
+    (0xa9, 'TEST', _rAX, _Ivds),
     (0xaa, 'STOS', _Yb),
     (0xaa, 'STOSB'),
     (0xab, 'STOS', _Ywo),
@@ -983,7 +862,7 @@ OPCODES_TABLE = (
     (0xc3, 'RETN'),
     (0xc3, 'RET'),
     (0xc6, 'MOV', _Eb, _Ib),
-    (0xc7, 'MOV', _Evqp, _Ivds),
+    (0xc7, 'MOV', _digit(0), _Evqp, _Ivds),
     (0xc8, 'ENTER', _Iw),
     (0xc8, 'ENTER', _Iw),
     (0xc9, 'LEAVE'),
@@ -1266,14 +1145,14 @@ OPCODES_TABLE = (
     (0xf6, 'IMUL', _Eb),
     (0xf6, 'DIV', _Eb),
     (0xf6, 'IDIV', _Eb),
-    (0xf7, 'TEST', _Evqp),
-    (0xf7, 'TEST', _Evqp),
-    (0xf7, 'NOT', _Evqp),
-    (0xf7, 'NEG', _Evqp),
-    (0xf7, 'MUL', _Evqp),
-    (0xf7, 'IMUL', _Evqp),
-    (0xf7, 'DIV', _Evqp),
-    (0xf7, 'IDIV', _Evqp),
+    (0xf7, 'TEST', _digit(0), _Evqp, _Ivds),
+    (0xf7, 'TEST', _digit(0), _Evqp, _Ivds),
+    (0xf7, 'NOT', _digit(2), _Evqp),
+    (0xf7, 'NEG', _digit(3), _Evqp),
+    (0xf7, 'MUL', _digit(4), _Evqp),
+    (0xf7, 'IMUL', _digit(5), _Evqp),
+    (0xf7, 'DIV', _digit(6), _Evqp),
+    (0xf7, 'IDIV', _digit(7), _Evqp),
     (0xf8, 'CLC'),
     (0xf9, 'STC'),
     (0xfa, 'CLI'),
@@ -1282,8 +1161,8 @@ OPCODES_TABLE = (
     (0xfd, 'STD'),
     (0xfe, 'INC', _Eb),
     (0xfe, 'DEC', _Eb),
-    (0xff, 'INC', _Evqp),
-    (0xff, 'DEC', _Evqp),
+    (0xff, 'INC', _digit(0), _Evqp),
+    (0xff, 'DEC', _digit(1), _Evqp),
     (0xff, 'CALL', _Ev),
     (0xff, 'CALL', _Eq),
     (0xff, 'CALLF', _Mptp),
@@ -1301,22 +1180,22 @@ OPCODES_TABLE = (
     (0xf00, 'VERR', _Ew),
     (0xf00, 'VERW', _Ew),
     (0xf00, 'JMPE', _Ev),
-    (0xf01, 'SGDT', _Ms),
+    (0xf01, 'SGDT', _digit(0), _Ms),
     (0xf01c1, 'VMCALL'),
     (0xf01c2, 'VMLAUNCH'),
     (0xf01c3, 'VMRESUME'),
     (0xf01c4, 'VMXOFF'),
-    (0xf01, 'SIDT', _Ms),
+    (0xf01, 'SIDT', _digit(1), _Ms),
     (0xf01c8, 'MONITOR'),
     (0xf01c9, 'MWAIT'),
-    (0xf01, 'LGDT', _Ms),
+    (0xf01, 'LGDT', _digit(2), _Ms),
     (0xf01d0, 'XGETBV'),
     (0xf01d1, 'XSETBV'),
-    (0xf01, 'LIDT', _Ms),
+    (0xf01, 'LIDT', _digit(3), _Ms),
     (0xf01, 'SMSW', _Mw),
     (0xf01, 'SMSW', _Rvqp),
     (0xf01, 'LMSW', _Ew),
-    (0xf01, 'INVLPG', _M),
+    (0xf01, 'INVLPG', _digit(7), _M),
     (0xf01f8, 'SWAPGS'),
     (0xf01f9, 'RDTSCP'),
     (0xf02, 'LAR', _Gvqp, _Mw),
@@ -1763,24 +1642,24 @@ OPCODES_TABLE = (
     (0xf9f, 'SETNLE', _Eb),
     (0xf9f, 'SETG', _Eb),
     (0xfa2, 'CPUID'),
-    (0xfa3, 'BT', _Evqp),
-    (0xfa4, 'SHLD', _Evqp, _Gvqp),
-    (0xfa5, 'SHLD', _Evqp, _Gvqp),
+    (0xfa3, 'BT', _Evqp, _Gvqp),
+    (0xfa4, 'SHLD', _Evqp, _Gvqp, _Ib),
+    (0xfa5, 'SHLD', _Evqp, _Gvqp, _CL),
     (0xfaa, 'RSM'),
     (0xfab, 'BTS', _Evqp, _Gvqp),
-    (0xfac, 'SHRD', _Evqp, _Gvqp),
-    (0xfad, 'SHRD', _Evqp, _Gvqp),
+    (0xfac, 'SHRD', _Evqp, _Gvqp, _Ib),
+    (0xfad, 'SHRD', _Evqp, _Gvqp, _CL),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXRSTOR', _Mstx),
     (0xfae, 'FXRSTOR', _Mstx),
     (0xfae, 'LDMXCSR', _Md),
     (0xfae, 'STMXCSR', _Md),
-    (0xfae, 'XSAVE', _M),
-    (0xfae, 'XSAVE', _M),
+    (0xfae, 'XSAVE', _digit(4), _M),
+    (0xfae, 'XSAVE', _digit(4), _M),
     (0xfaee8, 'LFENCE'),
-    (0xfae, 'XRSTOR', _M),
-    (0xfae, 'XRSTOR', _M),
+    (0xfae, 'XRSTOR', _digit(5), _M),
+    (0xfae, 'XRSTOR', _digit(5), _M),
     (0xfaef0, 'MFENCE'),
     (0xfaef8, 'SFENCE'),
     (0xfae, 'CLFLUSH', _Mb),
@@ -1791,9 +1670,9 @@ OPCODES_TABLE = (
     (0xfb6, 'MOVZX', _Gvqp, _Eb),
     (0xfb7, 'MOVZX', _Gvqp, _Ew),
     (0xfb8, 'JMPE', _Ap),
-    (0xfb8, 'POPCNT', _Gvqp, _Evqp),
+    (0xf30fb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
-    (0xfba, 'BT', _Evqp),
+    (0xfba, 'BT', _Evqp, _Ib),
     (0xfba, 'BTS', _Evqp, _Ib),
     (0xfba, 'BTR', _Evqp, _Ib),
     (0xfba, 'BTC', _Evqp, _Ib),
@@ -1802,8 +1681,8 @@ OPCODES_TABLE = (
     (0xfbd, 'BSR', _Gvqp, _Evqp),
     (0xfbe, 'MOVSX', _Gvqp, _Eb),
     (0xfbf, 'MOVSX', _Gvqp, _Ew),
-    (0xfc0, 'XADD', _Eb),
-    (0xfc1, 'XADD', _Evqp),
+    (0xfc0, 'XADD', _Eb, _Gb),
+    (0xfc1, 'XADD', _Evqp, _Gvqp),
     (0xfc2, 'CMPPS', _Vps, _Wps),
     (0xfc2, 'CMPSS', _Vss, _Wss),
     (0xfc2, 'CMPPD', _Vpd, _Wpd),
@@ -1922,7 +1801,16 @@ OPCODES_TABLE = (
     (0xffe, 'PADDD', _Vdq, _Wdq)
 )
 
-OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
+# operand size of the instructions without operands
+OPCODES_IMPLICIT_BITS = {
+    16: ('INSW', 'OUTSW', 'MOVSW', 'CMPSW', 'STOSW', 'LODSW', 'SCASW', 'CBW', 'CWD'),
+    32: ('INSD', 'OUTSD', 'MOVSD', 'CMPSD', 'STOSD', 'LODSD', 'SCASD', 'CWDE', 'CDQ',
+         'PUSHAD', 'POPAD', 'PUSHFD', 'POPFD', 'IRETD'),
+    64: ('MOVSQ', 'CMPSQ', 'STOSQ', 'LODSQ', 'SCASQ', 'CDQE', 'CQO', 'IRETQ', 'PUSHFQ', 'POPFQ')
+}
+OPCODES_NO_REX = ('PUSHFQ', 'POPFQ')
+OPCODES_NOT_64 = ('DAA', 'DAS', 'AAA', 'AAS', 'AAM', 'AAD', 'PUSHA', 'PUSHAD', 'POPA', 'POPAD',
+                  'PUSHFD', 'POPFD', 'INTO', 'SALC', 'SETALC')
 
 
 class X86OpCode:
@@ -1935,43 +1823,88 @@ class X86OpCode:
     def add_condition(self, base, args):
         self.conditions.append((base, args))
 
+    def _encode(self, base, modrm):
+        assembler = self.assembler
+        opcode = base.to_bytes(max(1, (base.bit_length() + 7) // 8), 'big')
+        if 'z' in modrm:
+            opcode = opcode[:-1] + pack_byte(opcode[-1] | modrm['z'])
+        blob = b''
+        if modrm.get('address_bits', assembler.bits) != assembler.bits:
+            blob += b'\x67'
+        bits = modrm.get('bits')
+        if bits is None and 'sized' in modrm:
+            raise InvalidOpCodeArguments()
+        if bits in (16, 32) and (bits == 16) != (assembler.bits == 16):
+            blob += b'\x66'
+        if len(opcode) == 3 and opcode[0] == 0xF3:
+            # mandatory prefix
+            blob += opcode[:1]
+            opcode = opcode[1:]
+        if bits == 64 and 'no_rex' not in modrm:
+            blob += b'\x48'
+        blob += opcode
+        if 'rm' in modrm:
+            blob += pack_byte(pack_bits(0,
+                                        ((7, 6), modrm['mod']),
+                                        ((5, 3), modrm['reg']),
+                                        ((2, 0), modrm['rm'])))
+        if 'sib' in modrm:
+            blob += pack_byte(modrm['sib'])
+        for field in ('displacement', 'immediate'):
+            if field in modrm:
+                token, size, bits_size, signed = modrm[field]
+                value = assembler.parse_integer_or_label(
+                    token, size=size, bits_size=bits_size, offset=len(blob), signed=signed)
+                blob += (value % (1 << (size * 8))).to_bytes(size, 'little')
+        if 'relative' in modrm:
+            token, size = modrm['relative']
+            value = assembler.parse_integer_or_label(
+                token, relative=assembler.pc + len(blob) + size,
+                size=size, bits_size=size * 8, offset=len(blob))
+            blob += (value % (1 << (size * 8))).to_bytes(size, 'little')
+        return blob
+
+    def _call_no_args(self, base, instr):
+        name = instr.tokens[0].upper()
+        if name.startswith('REP'):
+            new_instr = Instruction(
+                instr.tokens[1:], instr.line, instr.context)
+            if len(new_instr.tokens) != 1 or new_instr.tokens[0].upper() not in self.assembler.instructions:
+                raise InvalidOpCodeArguments(instr)
+            return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
+        if len(instr.tokens) != 1:
+            return None
+        if self.assembler.bits == 64 and name in OPCODES_NOT_64:
+            raise InvalidOpCodeArguments(instr)
+        modrm = {}
+        for bits, names in OPCODES_IMPLICIT_BITS.items():
+            if name in names:
+                modrm['bits'] = bits
+        if modrm.get('bits') == 64 and self.assembler.bits != 64:
+            raise InvalidOpCodeArguments(instr)
+        if name in OPCODES_NO_REX:
+            modrm['no_rex'] = True
+        return self._encode(base, modrm)
+
     def __call__(self, instr):
         for base, args in self.conditions:
-            modrm = {}
             if not args:
-                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
-                    if self.assembler.bits == 16:
-                        return pack_byte(0x66, base)
-                if instr.tokens[0].upper().startswith('REP'):
-                    new_instr = Instruction(
-                        instr.tokens[1:], instr.line, instr.context)
-                    return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
-                if len(instr.tokens) == 1:
-                    return base.to_bytes((base.bit_length() + 7) // 8, 'big')
-                raise InvalidOpCodeArguments(instr)
-            if len(instr.tokens) < 2:
+                blob = self._call_no_args(base, instr)
+                if blob is not None:
+                    return blob
                 continue
+            modrm = {}
             index = 1
-            skip = False
-            full_blob = b''
-            if base > 0xFF:
-                new_base = [base >> 8, base & 0xff]
-            else:
-                new_base = [base]
             for arg in args:
-                delta_base_and_blob = arg(
-                    instr, new_base, self.assembler, index, modrm)
-                if not delta_base_and_blob or len(delta_base_and_blob) != 3:
-                    skip = True
+                if index >= len(instr.tokens):
                     break
-                else:
-                    new_index, new_base, new_blob = delta_base_and_blob
-                    index += new_index
-                    full_blob += new_blob
-            if not skip:
-                if index != len(instr.tokens):
-                    raise InvalidOpCodeArguments(instr)
-                return pack_byte(*new_base) + full_blob
+                delta = arg(instr, self.assembler, index, modrm)
+                if delta is None:
+                    break
+                index += delta
+            else:
+                if index == len(instr.tokens):
+                    return self._encode(base, modrm)
 
 
 class AssemblerX86(Assembler):
-- 
2.43.0


From b47094030124bba36b8386cd97aeca40f79c4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 51/57] fix: refuse relative references from misaligned
 instructions

---
 necroassembler/cpu/mips32.py  |  8 +++++++-
 necroassembler/cpu/powerpc.py |  8 +++++++-
 necroassembler/cpu/thumb.py   | 19 +++++++++++++++----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 10869fd..f784826 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -61,10 +61,16 @@ class AssemblerMIPS32(Assembler):
                                             size=4) & 0x0fffffff) >> 2
 
     def _rel_label(self, token):
+        def offset(value):
+            # a misaligned instruction cannot reach an aligned target
+            if value % 4 != 0:
+                raise AlignmentError(token)
+            return value >> 2
+
         value = self.parse_integer_or_label(label=token,
                                             bits_size=18,
                                             bits=(15, 0),
-                                            filter=lambda x: x >> 2,
+                                            filter=offset,
                                             relative=self.pc + 4,
                                             alignment=4,
                                             size=4)
diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 24ee6a8..806ba98 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -32,6 +32,12 @@ def _freg(token, assembler=None, bits=None):
 
 
 def _pcrel(token, assembler=None, bits=None):
+    def offset(value):
+        # a misaligned instruction cannot reach an aligned target
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
+
     if assembler is not None:
         # the two low bits of the displacement are not encoded
         value = assembler.parse_integer_or_label(token,
@@ -40,7 +46,7 @@ def _pcrel(token, assembler=None, bits=None):
                                                      bits[0] - bits[1] + 3),
                                                  bits=bits,
                                                  alignment=4,
-                                                 filter=lambda x: x >> 2,
+                                                 filter=offset,
                                                  relative=assembler.pc)
         if value % 4 != 0:
             raise AlignmentError(token)
diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 475a208..769db84 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -57,13 +57,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
+        def offset(value):
+            # a misaligned instruction cannot reach an aligned target
+            if value % alignment != 0:
+                raise AlignmentError(arg)
+            return value >> (alignment//2)
+
         value = self.parse_integer_or_label(label=arg,
                                             size=2,
                                             bits_size=(
                                                 bits[0] - bits[1]) + 1 + (alignment//2),
                                             bits=bits,
-                                            filter=lambda x: x >> (
-                                                alignment//2),
+                                            filter=offset,
                                             alignment=alignment,
                                             relative=self.pc + 4)
         if value % alignment != 0:
@@ -424,6 +429,13 @@ class AssemblerThumb(Assembler):
             address1 = address & 0x7ff
             return self._build_opcode(0b1111000000000000, ((10, 0), address0)) + self._build_opcode(0b1111100000000000, ((10, 0), address1))
 
+        def low_half(value):
+            # a misaligned instruction cannot reach an aligned target
+            if value % 2 != 0:
+                raise AlignmentError(offset)
+            # get low 11 bits (after >> 1)
+            return (value >> 1) & 0x7FF
+
         self.add_label_translation(label=offset,
                                    size=2,
                                    bits_size=23,
@@ -439,8 +451,7 @@ class AssemblerThumb(Assembler):
                                    bits=(10, 0),
                                    alignment=2,
                                    relative=self.pc + 4,
-                                   # get low 11 bits (after >> 1)
-                                   filter=lambda x: ((x >> 1) & 0x7FF))
+                                   filter=low_half)
 
         return pack_le16u(0b1111000000000000, 0b1111100000000000)
 
-- 
2.43.0


From 08fb082e6953007e51b70c183c5738dce8ffb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 52/57] fix: booleans are not numbers in .incjson

---
 necroassembler/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 8805d3a..c0c42f3 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -887,7 +887,8 @@ class Assembler:
             for key_part in keys:
                 parsed = parsed[key_part]
             for item in parsed:
-                if not isinstance(item, int):
+                # note: true and false are not numbers
+                if not isinstance(item, int) or isinstance(item, bool):
                     item = self.parse_integer(item, 8, False)
                     if item is None:
                         raise LabelNotAllowed(instr)
-- 
2.43.0


From 19660b43094b9f1fe2e1d11174980d6e3b5a2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 53/57] fix: the padding of a bounded org cannot move the Game
 Boy header

---
 necroassembler/platforms/gameboy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index d5478a8..de957d3 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -52,6 +52,9 @@ class AssemblerGameboy(AssemblerLR35902):
 
         if self.pc != 0x100:
             self.change_org(0x100, self.current_org_end)
+            # the padding of a bounded org comes before the header
+            if len(self.assembled_bytes) != 256:
+                raise InvalidCartidgeHeaderOffset(instr)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From 8ed1f98af128dc413c47e86902251a1470824468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 54/57] fix: every unresolved label of an instruction word must
 reach the relocation of the linker

---
 necroassembler/linker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index c402c75..97f655e 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -37,7 +37,7 @@ class ELF:
             self.section_header_size = 64
             self.header_size = 64
         self.alignment = alignment
-        self.relocations = {}
+        self.relocations = []
 
     def _build_null_section(self):
         return pack(self.section_pack_format, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
@@ -67,7 +67,8 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
-        self.relocations[address] = symbol_data
+        # an instruction word can hold several unresolved labels
+        self.relocations.append((address, symbol_data))
         return 0
 
     def relocate(self, address, symbol_data):
@@ -75,8 +76,8 @@ class ELF:
 
     def link(self, assembler):
 
-        relocations, self.relocations = self.relocations, {}
-        for address, symbol_data in relocations.items():
+        relocations, self.relocations = self.relocations, []
+        for address, symbol_data in relocations:
             self.relocate(address, symbol_data)
 
         for symbol_name in assembler.exports:
-- 
2.43.0


From d033b153f9a82d4cd6162d917c0c237b3d398c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 55/57] fix: directives must refuse the operands they do not
 take

---
 necroassembler/assembler.py         | 6 ++++++
 necroassembler/cpu/x86.py           | 4 +++-
 necroassembler/platforms/gameboy.py | 2 ++
 necroassembler/platforms/nes.py     | 2 ++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index c0c42f3..ae75db2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -185,6 +185,8 @@ class Assembler:
     def macro_end(self, instr):
         if self.macro_recording is None:
             raise NotInMacroRecordingMode(instr)
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         self.macro_recording = None
 
     def assemble(self, code, context=None):
@@ -633,6 +635,8 @@ class Assembler:
         self.append_assembled_bytes(b'\x00')
 
     def directive_log(self, instr):
+        if len(instr.tokens) > 2:
+            raise InvalidArgumentsForDirective(instr)
         if len(instr.tokens) > 1:
             if instr.tokens[1].upper() == 'ON':
                 self.log = True
@@ -724,6 +728,8 @@ class Assembler:
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
 
         size, index, org, org_counter = self.repeat
         self.repeat = None
diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 1e85085..3d74685 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1925,9 +1925,11 @@ class AssemblerX86(Assembler):
 
     @directive('bits')
     def directive_bits(self, instr):
+        if len(instr.tokens) != 2:
+            raise InvalidArgumentsForDirective(instr)
         value = self.parse_integer(instr.tokens[1], 8, False)
         if value is None or value not in (16, 32, 64):
-            raise InvalidArgumentsForDirective
+            raise InvalidArgumentsForDirective(instr)
         self.bits = value
 
     def register_instructions(self):
diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index de957d3..0d298da 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -47,6 +47,8 @@ class AssemblerGameboy(AssemblerLR35902):
 
     @directive('cartridge')
     def _generate_cartridge_header(self, instr):
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         if len(self.assembled_bytes) != 256:
             raise InvalidCartidgeHeaderOffset(instr)
 
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index e6f5292..10764c0 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -41,6 +41,8 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge')
     def _generate_cartridge_header(self, instr):
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         if len(self.assembled_bytes) != 0:
             raise InvalidCartidgeHeaderOffset(instr)
 
-- 
2.43.0


From fce7638579cabfab0f3f47b8c777391124e4e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 56/57] fix: a branch target that starts with a number and
 contains labels is an address too

---
 necroassembler/assembler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index ae75db2..b844bea 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,4 +1,5 @@
 import copy
+import re
 from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
@@ -415,7 +416,10 @@ class Assembler:
                                hook=None, signed=False):
         if relative is not None:
             signed = True
-        value = self.parse_integer(label, bits_size, signed)
+        value = None
+        # a relative target containing labels is an address, not a distance
+        if relative is None or not self._has_label_terms(label):
+            value = self.parse_integer(label, bits_size, signed)
         # label ?
         if value is None:
             self.add_label_translation(label=label,
@@ -431,6 +435,11 @@ class Assembler:
             return 0
         return value
 
+    def _has_label_terms(self, token):
+        _, _, post_formula = self._get_math_formula(token)
+        return any(term and self.parse_integer(term, 64, False) is None
+                   for term in re.split(r'[-+*/&|]', post_formula))
+
     def apply_math_formula(self, pre_formula, post_formula, value):
         low_counter = 0
         shifted_value = 0
@@ -494,7 +503,7 @@ class Assembler:
     def _get_label_expression_value(self, name, start):
         name, pre_formula, post_formula = self._get_math_formula(name)
         if name in self.labels:
-            value = self.get_label_relative_address(self.labels[name], start)
+            value = self.get_label_absolute_address(self.labels[name])
         elif post_formula:
             # a number followed by labels
             try:
@@ -506,7 +515,7 @@ class Assembler:
         else:
             return None
         try:
-            return self.apply_math_formula(pre_formula, post_formula, value)
+            return self.apply_math_formula(pre_formula, post_formula, value) - start
         except UnknownLabel:
             return None
 
-- 
2.43.0


From 8c03edb95c7e78e792f7eef7124f028964fbf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:06 +0000
Subject: [PATCH 57/57] fix: 68000 and Thumb displacements with labels are
 distances to addresses too

---
 necroassembler/assembler.py   | 11 ++++++++---
 necroassembler/cpu/mc68000.py |  2 +-
 necroassembler/cpu/thumb.py   |  4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index b844bea..d63d8bb 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -416,9 +416,8 @@ class Assembler:
                                hook=None, signed=False):
         if relative is not None:
             signed = True
-        value = None
-        # a relative target containing labels is an address, not a distance
-        if relative is None or not self._has_label_terms(label):
+            value = self.parse_distance(label, bits_size)
+        else:
             value = self.parse_integer(label, bits_size, signed)
         # label ?
         if value is None:
@@ -435,6 +434,12 @@ class Assembler:
             return 0
         return value
 
+    def parse_distance(self, token, number_of_bits):
+        # a relative target containing labels is an address, not a distance
+        if self._has_label_terms(token):
+            return None
+        return self.parse_integer(token, number_of_bits, True)
+
     def _has_label_terms(self, token):
         _, _, post_formula = self._get_math_formula(token)
         return any(term and self.parse_integer(term, 64, False) is None
diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index d6e197e..9010e37 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -264,7 +264,7 @@ class AssemblerMC68000(Assembler):
                 raise NotInBitRange(value, 8, token)
             return value
 
-        if self.parse_integer(token, size * 8, True) == 0:
+        if self.parse_distance(token, size * 8) == 0:
             not_zero(0)
         value = self.parse_integer_or_label(token,
                                             size=2,
diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 769db84..59534e9 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -109,7 +109,7 @@ class AssemblerThumb(Assembler):
                 raise NotInBitRange(value, 10, arg[1:])
             return value >> 2
 
-        if self.parse_integer(arg[1:], 16, False) is not None:
+        if self.parse_distance(arg[1:], 16) is not None:
             return self._word8(arg)
         self.add_label_translation(label=arg[1:],
                                    size=2,
@@ -420,7 +420,7 @@ class AssemblerThumb(Assembler):
 
         offset = instr.tokens[1]
 
-        address = self.parse_integer(offset, 23, signed=True)
+        address = self.parse_distance(offset, 23)
         if address is not None:
             if address % 2 != 0:
                 raise AlignmentError(offset)
-- 
2.43.0

