From b911b4f173dc9f71413696a276280b1722843745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 01/62] fix: iwyu_tool.py: don't abort on analyser output that
 is not valid UTF-8

---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..759728a 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -263,7 +263,8 @@ class Process(object):
         if not self.output:
             self.proc.wait()
             self.outfile.seek(0)
-            self.output = self.outfile.read().decode("utf-8")
+            self.output = self.outfile.read().decode(
+                "utf-8", errors="backslashreplace")
             self.outfile.close()
 
         return self.output
-- 
2.43.0


From 26914e2e92023be31639c87f9e3243c3d82c4d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 02/62] fix: fix_includes.py: don't pair an already deleted #if
 with an outer #endif

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..1b50885 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1097,7 +1097,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From c7c318a695c68b5b0c2b55798499b8a605ed75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 03/62] fix: fix_includes.py: skip files that cannot be read
 instead of aborting

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 1b50885..b073b8b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2269,7 +2269,7 @@ def FixManyFiles(iwyu_records, flags):
         _WriteFile(iwyu_record.filename, fileinfo, fixed_lines)
 
       files_fixed += 1
-    except FixIncludesError as why:
+    except (FixIncludesError, IOError, OSError) as why:
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
-- 
2.43.0


From bfc74b426bef4728c1a85f3a5839310fb35b8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 04/62] fix: fix_includes.py: report include lines past
 file-end instead of aborting

---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index b073b8b..e623e44 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -765,6 +765,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From fdf2f9fb9051251d7ada4b79dcf7f3ef0eae6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 05/62] fix: fix_includes.py: count lines like the compiler
 does

---
 fix_includes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index e623e44..bb71169 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -61,6 +61,7 @@ __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
 import argparse
+import io
 import os
 import re
 import sys
@@ -588,12 +589,13 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
-      # This will reduce spurious changes to the original files.
-      # The lines we add will have the linesep determined by
-      # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # Use newline='' to keep the original line endings.  Later in
+      # WriteFile, they will be used as-is.  This will reduce spurious
+      # changes to the original files.  The lines we add will have the
+      # linesep determined by FileInfo.
+      # Don't use splitlines, it also splits at form feeds and the like,
+      # and then our line numbers are not those of the compiler.
+      return list(io.StringIO(content.decode(fileinfo.encoding), newline=''))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From dad959e21138d653dad065b12f555491849a6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 06/62] fix: fix_includes.py: don't abort on files in no known
 encoding

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index bb71169..ccee49b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -576,7 +576,8 @@ class FileInfo(object):
       if try_decode(bytebuf, 'utf-8-sig'):
         return 'utf-8-sig'
 
-    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
+    # latin-1 comes last, it can describe any file.
+    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252', 'latin-1']
     for encoding in encodings:
       if try_decode(bytebuf, encoding):
         return encoding
-- 
2.43.0


From 585cbc4e1206835e3f7b7be04e2422e949988233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 07/62] fix: fix_includes.py: don't truncate files whose fixed
 content can't be encoded

---
 fix_includes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ccee49b..882b83d 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -604,11 +604,18 @@ def _ReadFile(filename, fileinfo):
 
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
+  # file_lines already have line endings, so join with ''.
+  content = ''.join(file_lines)
+  # Encode before opening, so we don't lose the file if that fails.
+  try:
+    # We may have added non-ascii lines to an ascii file.
+    encoding = 'utf-8' if fileinfo.encoding == 'ascii' else fileinfo.encoding
+    content = content.encode(encoding)
+  except UnicodeError as why:
+    raise FixIncludesError('cannot encode the fixed file: %s' % why)
+
   try:
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
   except (IOError, OSError) as why:
     print("Error writing '%s': %s" % (filename, why))
-- 
2.43.0


From 24ed211a53e59f2666b17c4fcce86377f23b92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 08/62] fix: fix_includes.py: don't take the line after a
 file-wide #if for its #define

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 882b83d..f84065a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1808,7 +1808,9 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       line_number += 1
     elif file_lines[line_number].type == _HEADER_GUARD_RE:
       seen_header_guard = True
-      line_number += 2    # skip over the header guard
+      line_number += 1    # skip over the header guard
+    elif file_lines[line_number].type == _HEADER_GUARD_DEFINE_RE:
+      line_number += 1    # ... and its #define, if there is one
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
-- 
2.43.0


From 080dcf3a28ccc9c49a2d30eac42b42c3ad481971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 09/62] fix: fix_includes.py: don't append new lines to an
 unterminated last line

---
 fix_includes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index f84065a..48b5ffd 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2207,6 +2207,12 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
         output_lines.append(file_lines[line_number].line)
       line_number += 1
 
+    # Don't append to an unterminated last line.
+    if (decorated_move_spans[0][1] != _EOF_KIND and output_lines and
+        output_lines[-1] and
+        not output_lines[-1].endswith(('\r', '\n'))):
+      output_lines[-1] += fileinfo.linesep
+
     # Now fill in the contents of the reorder-span from decorated_move_spans
     new_lines = []
     while (decorated_move_spans and
-- 
2.43.0


From 9da3fe6b10c3302ca8099cf7b2d3c9f870a66d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 10/62] fix: fix_includes.py: don't turn comments about
 namespaces into code

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 48b5ffd..0179b2e 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2035,7 +2035,9 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   current_namespaces = []
   # We append a blank line so the final namespace-closing happens "organically".
   for line in lines + ['']:
-    namespaces_in_line = iwyu_namespace_re.findall(line)
+    namespaces_in_line = []
+    if line.lstrip().startswith(('namespace', 'inline namespace')):
+      namespaces_in_line = iwyu_namespace_re.findall(line)
     differ_pos = _CommonPrefixLength(namespaces_in_line, current_namespaces)
     namespaces_to_close = reversed(current_namespaces[differ_pos:])
     namespaces_to_open = namespaces_in_line[differ_pos:]
-- 
2.43.0


From d041caa0996bb1681940822e729a7717d967e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 11/62] fix: fix_includes.py: match relative names in reports
 with files on command line

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 0179b2e..b62406f 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2337,7 +2337,8 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
       print('ERROR: %s' % why)
       continue
     filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
-    if files_to_process is not None and filename not in files_to_process:
+    if (files_to_process is not None and
+        NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
       continue
     if flags.ignore_re and re.search(flags.ignore_re, filename):
-- 
2.43.0


From cb3edfbb7184eaf8fca004fa890b0069e48353b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 12/62] fix: fix_includes.py: don't delete a line that closes
 more than the empty namespace

---
 fix_includes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index b62406f..7a22d3a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1065,7 +1065,11 @@ def _DeleteEmptyNamespaces(file_lines):
       elif line_info.type == _NAMESPACE_END_RE:
         namespace_depth -= max(line_info.line.count('}'), 1)
         end_line += 1
-        if namespace_depth <= 0:
+        if namespace_depth < 0:
+          # This line also closes something around us, we can't delete it.
+          end_line = start_line + 1
+          break
+        if namespace_depth == 0:
           # Delete any comments preceding this namespace as well.
           start_line = _LineNumberStartingPrecedingComments(file_lines,
                                                             start_line)
-- 
2.43.0


From 91ff3e0d2902a6213d7b3c1fec376db69c6187ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 13/62] fix: fix_includes.py: don't lose track of namespaces
 after a function body

---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 7a22d3a..27d08c4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1358,7 +1358,9 @@ def _GetToplevelReorderSpans(file_lines):
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
     elif line_info.type == _NAMESPACE_END_RE:
+      # A } outside of all namespaces ends a function or some such.
       namespace_depth -= max(line_info.line.count('}'), 1)
+      namespace_depth = max(namespace_depth, 0)
     if namespace_depth > 0:
       in_namespace[line_number] = True
       if line_info.type is None:
-- 
2.43.0


From 038eab65bec3220df9dda6e356ff478236ee2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 14/62] fix: fix_includes.py: don't count braces in comments as
 namespace ends

---
 fix_includes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 27d08c4..3a4576c 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1000,6 +1000,11 @@ def ParseOneFile(f, iwyu_record):
   return file_lines
 
 
+def _CountInCode(line, char):
+  """Returns how often char appears in line, not counting a // comment."""
+  return _COMMENT_RE.sub('', line).count(char)
+
+
 def _DeleteEmptyNamespaces(file_lines):
   """Delete namespaces with nothing in them.
 
@@ -1035,8 +1040,7 @@ def _DeleteEmptyNamespaces(file_lines):
       # Because multiple namespaces can be on one line
       # ("namespace foo { namespace bar { ..."), we need to count.
       # We use the max because line may have 0 '{'s if it's a macro.
-      # TODO(csilvers): ignore { in comments.
-      namespace_depth = max(line_info.line.count('{'), 1)
+      namespace_depth = max(_CountInCode(line_info.line, '{'), 1)
     elif line_info.type == _NAMESPACE_START_ALLMAN_RE:
       # For Allman namespaces, keep the start line and increment
       # the namespace depths when the actual brace is encountered.
@@ -1057,13 +1061,13 @@ def _DeleteEmptyNamespaces(file_lines):
         end_line += 1
       elif line_info.type in (_NAMESPACE_START_RE, _NAMESPACE_START_MIXED_RE):
         # nested namespace
-        namespace_depth += max(line_info.line.count('{'), 1)
+        namespace_depth += max(_CountInCode(line_info.line, '{'), 1)
         end_line += 1
       elif line_info.type == _NAMESPACE_START_ALLMAN_RE:
         # nested Allman namespace
         end_line += 1
       elif line_info.type == _NAMESPACE_END_RE:
-        namespace_depth -= max(line_info.line.count('}'), 1)
+        namespace_depth -= max(_CountInCode(line_info.line, '}'), 1)
         end_line += 1
         if namespace_depth < 0:
           # This line also closes something around us, we can't delete it.
@@ -1354,12 +1358,12 @@ def _GetToplevelReorderSpans(file_lines):
       continue
     if line_info.type in (_NAMESPACE_START_RE, _NAMESPACE_START_MIXED_RE):
       # The 'max' is because the namespace-re may be a macro.
-      namespace_depth += max(line_info.line.count('{'), 1)
+      namespace_depth += max(_CountInCode(line_info.line, '{'), 1)
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
     elif line_info.type == _NAMESPACE_END_RE:
       # A } outside of all namespaces ends a function or some such.
-      namespace_depth -= max(line_info.line.count('}'), 1)
+      namespace_depth -= max(_CountInCode(line_info.line, '}'), 1)
       namespace_depth = max(namespace_depth, 0)
     if namespace_depth > 0:
       in_namespace[line_number] = True
-- 
2.43.0


From 17747be9d188caf26744786963ffa1ae6addb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 15/62] fix: fix_includes.py: don't take a file-wide #if with
 #else for a header guard

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 3a4576c..2e26018 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -638,7 +638,7 @@ def _MarkHeaderGuardIfPresent(file_lines):
 
   We define a header-guard as follows: an #ifdef where there is
   nothing contentful before or after the #ifdef.  Also, the #ifdef
-  should have no #elif in it (though we don't currently test that).
+  should have no #elif in it.
   This catches the common case of an 'ifdef guard' in .h file, such
   as '#ifndef FOO_H\n#define FOO_H\n...contents...\n#endif', but it
   can also catch other whole-program #ifdefs, such as
@@ -676,6 +676,8 @@ def _MarkHeaderGuardIfPresent(file_lines):
       continue
     if file_lines[ifdef_end].type == _IF_RE:
       ifdef_depth += 1
+    elif file_lines[ifdef_end].type == _ELSE_RE and ifdef_depth == 1:
+      return                 # Has alternatives, so not a header guard.
     elif file_lines[ifdef_end].type == _ENDIF_RE:
       ifdef_depth -= 1
       if ifdef_depth == 0:   # The end of our #ifdef!
-- 
2.43.0


From 73adf86143014e30cc6eb6c5b09e2ae4022d7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 16/62] fix: fix_includes.py: don't take namespace a::b for the
 name of a nested class

---
 fix_includes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 2e26018..2f1e5a3 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -288,6 +288,11 @@ class IWYUOutputParser(object):
   # iwyu adds this comment to some lines to map them to the source file.
   _LINE_NUMBERS_COMMENT_RE = re.compile(r'\s*// lines ([0-9]+)-([0-9]+)')
 
+  # iwyu prints a nested class with the name of its class: class Outer::Inner.
+  # A :: in a namespace or a type (enum E : std::uint8_t) is something else.
+  _NESTED_FORWARD_DECLARE_RE = re.compile(
+      r'\b(?:class|struct|union|enum)\s+\w+::')
+
   # The output of include-what-you-use has sections that indicate what
   # #includes and forward-declares should be added to the output file,
   # what should be removed, and what the end result is.  The first line
@@ -447,7 +452,7 @@ class IWYUOutputParser(object):
       if m:
         line_range = (int(m.group(1)), int(m.group(2))+1)
         retval.seen_forward_declare_lines.add(line_range)
-        if '::' in line:
+        if self._NESTED_FORWARD_DECLARE_RE.search(line):
             retval.nested_forward_declare_lines.add(line_range)
 
     # IWYUOutputRecord.includes_and_forward_declares_to_add
-- 
2.43.0


From e132b3be49deff04d59693a08b70fae18e50d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 17/62] fix: fix_includes.py: don't take enums of one
 underlying type for repetitions

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 2f1e5a3..bd8f68f 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2114,7 +2114,8 @@ def _GetSymbolNameFromForwardDeclareLine(line):
   # Turn anonymous namespaces into their proper symbol representation.
   namespaces_in_line = iwyu_namespace_re.findall(line.replace(
     "namespace {", "namespace (anonymous namespace) {"))
-  symbols_in_line = symbolname_re.findall(line)
+  # The underlying type of an enum is not its name.
+  symbols_in_line = symbolname_re.findall(re.sub(r'\s:\s.*', '', line))
   symbol_name = symbols_in_line[-1]
   if (namespaces_in_line):
     symbol_name = '::'.join(namespaces_in_line) + '::' + symbol_name
-- 
2.43.0


From f0e090bd9b369b38f0cc697900596936c10883ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 18/62] fix: fix_includes.py: don't add includes inside a macro
 definition after a file-wide #if

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index bd8f68f..5ae6a5b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -121,7 +121,7 @@ _HEADER_GUARD_RE = re.compile(r'$.HEADER_GUARD_RE')
 # Marks the '#define' line that comes after a header guard.  Since we
 # know the previous line was a header-guard line, we're not that picky
 # about this one.
-_HEADER_GUARD_DEFINE_RE = re.compile(r'\s*#\s*define\s+')
+_HEADER_GUARD_DEFINE_RE = re.compile(r'\s*#\s*define\s+(?!.*\\$)')
 # Pragma to mark the associated header (for use when it cannot be deduced from
 # the filename)
 _IWYU_PRAGMA_ASSOCIATED_RE = re.compile(r'IWYU\s*pragma:\s*associated')
-- 
2.43.0


From f8603189449b02f257199b220fd740e738175773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 19/62] fix: fix_includes.py: don't lose additions whose place
 is in a block of declarations

---
 fix_includes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 5ae6a5b..51d5240 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1840,14 +1840,11 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       # #includes go before them.
       line_number += 1
     else:
-      # If the "first line" we would return is inside the forward-declare
+      # If the "first line" we would return is inside a forward-declare
       # reorder span, just return that span, rather than creating a new
       # span inside the existing one.
-      if first_reorder_spans:
-        assert list(first_reorder_spans.keys()) == [_FORWARD_DECLARE_KIND], \
-            first_reorder_spans
-        if line_number >= first_reorder_spans[_FORWARD_DECLARE_KIND][0]:
-          return first_reorder_spans[_FORWARD_DECLARE_KIND]
+      if file_lines[line_number].reorder_span:
+        return file_lines[line_number].reorder_span
       return (line_number, line_number)
 
   # OK, I guess just insert at the end of the file
-- 
2.43.0


From d7e2a3f5bd7ec3dd961e71f6c67dd6c9de073eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 20/62] fix: fix_includes.py: don't lose the report after an
 incomplete one

---
 fix_includes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 51d5240..65dced5 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -355,6 +355,14 @@ class IWYUOutputParser(object):
     for (section_re, section_name) in self._RE_TO_NAME.items():
       m = section_re.search(line)
       if m:
+        # A record that starts here ends any unfinished one before it.
+        if (self.current_section is not None and
+            section_re in self._EXPECTED_NEXT_RE[None]):
+          print('ERROR: %s: "%s" section is the last of an incomplete record'
+                % (self.filename, self._RE_TO_NAME[self.current_section]))
+          self.current_section = None
+          self.lines_by_section = {}
+
         # Check or set the filename (if the re has a group, it's for filename).
         if section_re.groups >= 1:
           this_filename = NormalizeFilePath(basedir, m.group(1))
-- 
2.43.0


From e6a792e3289e51367a646c88603c989911804513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 21/62] fix: fix_includes.py: don't apply a relative base
 directory twice

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 65dced5..2c2437e 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2359,7 +2359,7 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
     except FixIncludesError as why:
       print('ERROR: %s' % why)
       continue
-    filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
+    filename = iwyu_record.filename
     if (files_to_process is not None and
         NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
-- 
2.43.0


From f6101e4bd474cc1d05119c349187d7b944a32083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 22/62] fix: fix_includes.py: merge reports that spell the name
 of a file differently

---
 fix_includes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 2c2437e..c8484ea 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2349,7 +2349,7 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
   # First collect all the iwyu data from stdin.
 
   # Maintain sort order by using OrderedDict instead of dict
-  iwyu_output_records = OrderedDict()  # IWYUOutputRecords keyed by filename
+  iwyu_output_records = OrderedDict()  # IWYUOutputRecords keyed by full name
   while True:
     iwyu_output_parser = IWYUOutputParser()
     try:
@@ -2373,21 +2373,25 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
           filename, flags.only_re))
       continue
 
-    if filename in iwyu_output_records:
-      iwyu_output_records[filename].Merge(iwyu_record)
+    # Reports may spell the name of one file differently.
+    key = os.path.normpath(NormalizeFilePath(cwd, filename))
+    if key in iwyu_output_records:
+      iwyu_record.filename = iwyu_output_records[key].filename
+      iwyu_output_records[key].Merge(iwyu_record)
     else:
-      iwyu_output_records[filename] = iwyu_record
+      iwyu_output_records[key] = iwyu_record
 
   # Now ignore all the files that never had any contentful changes
   # seen for them.  (We have to wait until we're all done, since a .h
   # file may have a contentful change when #included from one .cc
   # file, but not another, and we need to have merged them above.)
   if not flags.update_comments:
-    for filename in iwyu_output_records:
-      if not iwyu_output_records[filename].HasContentfulChanges():
-        print('(skipping %s: iwyu reports no contentful changes)' % filename)
+    for key in iwyu_output_records:
+      if not iwyu_output_records[key].HasContentfulChanges():
+        print('(skipping %s: iwyu reports no contentful changes)'
+              % iwyu_output_records[key].filename)
         # Mark that we're skipping this file by setting the record to None
-        iwyu_output_records[filename] = None
+        iwyu_output_records[key] = None
 
   # Now do all the fixing, and return the number of files modified
   contentful_records = [ior for ior in iwyu_output_records.values() if ior]
-- 
2.43.0


From 3bf709f45d4db09dbd7f576afda6c141bc044888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 23/62] fix: follow include mappings to the end also when they
 form cycles

---
 iwyu_include_picker.cc | 84 +++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..d05ff01 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1273,71 +1273,37 @@ void ExpandOnce(const IncludePicker::IncludeMap& m,
   nodes->swap(nodes_and_children);  // modify nodes in-place
 }
 
-enum TransitiveStatus { kUnused = 0, kCalculating, kDone };
-
 // If the filename-map maps a.h to b.h, and also b.h to c.h, then
-// there's a transitive mapping of a.h to c.h.  We want to add that
-// into the filepath map as well, to make lookups easier.  We do this
-// by doing a depth-first search for a single mapping, recursing
-// whenever the value is itself a key in the map, and putting the
-// results in a vector of all values seen.
-// NOTE: This function updates values seen in filename_map, but
-// does not invalidate any filename_map iterators.
-void MakeNodeTransitive(IncludePicker::IncludeMap* filename_map,
-                        map<string, TransitiveStatus>* seen_nodes,
-                        vector<string>* node_stack,  // used for debugging
-                        const string& key) {
-  // If we've already calculated this node's transitive closure, we're done.
-  const TransitiveStatus status = (*seen_nodes)[key];
-  if (status == kCalculating) {  // means there's a cycle in the mapping
-    // Note that cycles in mappings are generally benign, the cycle detection
-    // here is only necessary to protect the recursive algorithm from infinite
-    // regress. We will still expand all reachable nodes in the graph to a
-    // plain sequence representing the transitive closure.
-    // The expanded mappings are only used for simple lookup, never followed
-    // recursively (which could have necessitated preserving cycles and handling
-    // them in that traversal too).
-    // Log cycles at a high verbosity level to aid debugging.
-    VERRS(8) << "Ignored cycle in include mappings: ";
-    for (const string& node : *node_stack)
-      VERRS(8) << node << " -> ";
-    VERRS(8) << key << "\n";
-    return;
-  }
-  if (status == kDone)
+// there's a transitive mapping of a.h to c.h.  Appends to reachable
+// everything that key maps to, directly or not, in depth-first order.
+// Cycles in mappings are generally benign: every value is visited once.
+void AddReachableIncludes(const IncludePicker::IncludeMap& filename_map,
+                          const string& key,
+                          set<string>* seen_values,
+                          vector<MappedInclude>* reachable) {
+  const vector<MappedInclude>* values = FindInMap(&filename_map, key);
+  if (values == nullptr)
     return;
-
-  IncludePicker::IncludeMap::iterator node = filename_map->find(key);
-  if (node == filename_map->end()) {
-    (*seen_nodes)[key] = kDone;
-    return;
-  }
-
-  // Keep track of node->second as we update it, to avoid duplicates.
-  (*seen_nodes)[key] = kCalculating;
-  for (const MappedInclude& child : node->second) {
-    node_stack->push_back(child.quoted_include);
-    MakeNodeTransitive(filename_map, seen_nodes, node_stack,
-                       child.quoted_include);
-    node_stack->pop_back();
+  for (const MappedInclude& value : *values) {
+    if (seen_values->insert(value.quoted_include).second) {
+      reachable->push_back(value);
+      AddReachableIncludes(filename_map, value.quoted_include, seen_values,
+                           reachable);
+    }
   }
-  (*seen_nodes)[key] = kDone;
-
-  // Our transitive closure is just the union of the closure of our
-  // children.  This routine replaces our value with this closure,
-  // by replacing each of our values with its values.  Since our
-  // values have already been made transitive, that is a closure.
-  ExpandOnce(*filename_map, &node->second);
 }
 
-// Updates the values in filename_map based on its transitive mappings.
+// Updates the values in filename_map based on its transitive mappings,
+// to make lookups easier.  The expanded mappings are only used for simple
+// lookup, never followed recursively.
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
-  // Insert keys of filename_map here once we know their value is
-  // the complete transitive closure.
-  map<string, TransitiveStatus> seen_nodes;
-  vector<string> node_stack;
-  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
-    MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+  IncludePicker::IncludeMap closed_map;
+  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+    set<string> seen_values;
+    AddReachableIncludes(*filename_map, includes.first, &seen_values,
+                         &closed_map[includes.first]);
+  }
+  filename_map->swap(closed_map);
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From e6b82ec947456785b9bb60df3232df4ddeeb567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 24/62] fix: don't abort when mappings or pragmas contradict
 each other's visibility

---
 iwyu_include_picker.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index d05ff01..a54f9b5 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1507,12 +1507,15 @@ void IncludePicker::MarkVisibility(VisibilityMap* map,
   CHECK_(!has_called_finalize_added_include_lines_ && "Can't mutate anymore");
 
   // insert() leaves any old value alone, and only inserts if the key is new.
-  map->insert(make_pair(key, visibility));
-  CHECK_((*map)[key] == visibility)
-      << " Same file seen with two different visibilities: "
-      << key
-      << " Old vis: " << (*map)[key]
-      << " New vis: " << visibility;
+  const auto inserted = map->insert(make_pair(key, visibility));
+  IncludeVisibility& old_visibility = inserted.first->second;
+  if (old_visibility != visibility) {
+    // Mappings and pragmas come from the user, so they may contradict each
+    // other.  Something that is private according to any of them is private.
+    VERRS(0) << "Warning: " << key << " is marked both public and private, "
+             << "treating it as private.\n";
+    old_visibility = kPrivate;
+  }
 }
 
 // AddDirectInclude lets us use some hard-coded rules to add filepath
-- 
2.43.0


From e698cb734bae526bec33f2b5c2109bd505c7af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 25/62] fix: don't abort on associated pragmas in headers or on
 self-includes

---
 iwyu_preprocessor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..81d4f22 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -339,7 +339,9 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   }
 
   if (MatchOneToken(tokens, "associated", 1, begin_loc)) {
-    if (associated_pragma_location_.isInvalid()) {
+    // Only the main file has associated headers.
+    if (this_file_entry == main_file_ &&
+        associated_pragma_location_.isInvalid()) {
       associated_pragma_location_ = begin_loc;
     }
     return;
@@ -637,7 +639,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   OptionalFileEntryRef associated_includer =
       GetFileEntry(associated_pragma_location_);
   if (associated_pragma_location_.isValid() &&
-      associated_includer == includer) {
+      associated_includer == includer && includee != includer) {
     GetFromFileInfoMap(includer)->AddAssociatedHeader(
         GetFromFileInfoMap(includee));
     VERRS(4) << "Marked " << GetFilePath(includee)
-- 
2.43.0


From 5f89e2626311770a5e2669c6174621c361706308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 26/62] fix: don't abort when the name of the main file is not
 a glob matching itself

---
 iwyu_globals.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..05b1e4d 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -549,8 +549,10 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
 
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
   const string filepath = GetFilePath(file);
+  // The set also has paths of files that are always reported; those must match
+  // themselves even if they contain characters that are special in globs.
   for (const string& glob : GlobalFlags().check_also)
-    if (GlobMatchesPath(glob.c_str(), filepath.c_str()))
+    if (glob == filepath || GlobMatchesPath(glob.c_str(), filepath.c_str()))
       return true;
   return false;
 }
-- 
2.43.0


From 9301ef547cfbd809fbd1bf18155bddee4d520a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 27/62] fix: don't add an include in place of a kept one when
 the associated header has it

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..fc17c9e 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1908,7 +1908,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
 
   // Now reset all files included with "IWYU pragma: keep" as desired.
   for (OneIncludeOrForwardDeclareLine& line : *lines) {
-    if (!line.is_desired() && line.IsIncludeLine() &&
+    // An include that isn't there yet isn't one that is marked; it merely
+    // provides symbols from the same file.
+    if (!line.is_desired() && line.is_present() && line.IsIncludeLine() &&
         ContainsKey(kept_includes, line.included_file())) {
       line.set_desired();
     }
-- 
2.43.0


From eaf4a1a277ac2266eeda1f7f492518817b3bb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:50 +0000
Subject: [PATCH 28/62] fix: know the names of the main file and of prefix
 headers

---
 iwyu_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 81d4f22..5f43e2d 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -592,8 +592,12 @@ void IwyuPreprocessorInfo::AddDirectInclude(
 
   GetFromFileInfoMap(includer)->AddInclude(
       includee, include_name_as_written, GetLineNumber(includer_loc));
-  // Make sure the includee has a file-info-map entry too.
-  InsertIntoFileInfoMap(includee, include_name_as_written);
+  // Make sure the includee has a file-info-map entry too.  The main file and
+  // prefix headers aren't included under any name; give them their usual one.
+  InsertIntoFileInfoMap(includee,
+                        include_name_as_written.empty()
+                            ? ConvertToQuotedInclude(GetFilePath(includee))
+                            : include_name_as_written);
 
   // The first #include in every translation unit might be a precompiled header
   // and we need to mark it as such for later analysis.
-- 
2.43.0


From e011ea2a7a66d2c0eccbcd9f69e1e3ef5dc85291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 29/62] fix: count violations for --error also when they aren't
 printed

---
 iwyu_output.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index fc17c9e..a7b5f9f 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2118,7 +2118,12 @@ size_t PrintableDiffs(const string& filename,
     return 0;
   }
 
+  // Count the edits whether or not they are printed.
   size_t num_edits = 0;
+  for (const auto& key_line : sorted_lines) {
+    if (key_line.second->is_desired() != key_line.second->is_present())
+      ++num_edits;
+  }
 
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
@@ -2129,7 +2134,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2144,8 +2148,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From 6deaa64219112bd361bbd3f62ae621888a9e5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 30/62] fix: never advise to include <built-in>

---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index a54f9b5..9afb80e 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1541,7 +1541,7 @@ void IncludePicker::AddDirectInclude(const string& includer_filepath,
   // Mark the clang fake-file "<built-in>" as private, so we never try
   // to map anything to it.
   if (includer_filepath == "<built-in>")
-    MarkIncludeAsPrivate("\"<built-in>\"");
+    MarkIncludeAsPrivate(quoted_includer);
 
   // Automatically mark files in foo/internal/bar as private, and map them.
   // Then say that everyone else in foo/.* is a friend, who is allowed to
-- 
2.43.0


From 4e1fcec47938d95aaa068ab0b513179c2151c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 31/62] fix: don't abort when the maximum line length is 0

---
 iwyu_output.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index a7b5f9f..407b3ac 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -114,8 +114,8 @@ string OutputLine::printable_line(size_t min_length, size_t max_length) const {
   if (symbols_.empty())
     return line_;
 
-  CHECK_(max_length > 0);
-  --max_length;  // Spare a char for newline character.
+  if (max_length > 0)
+    --max_length;  // Spare a char for newline character.
 
   // Before first symbol, print '  // for ' and pad it so 'why' comments are
   // nicely aligned.
-- 
2.43.0


From 5130601a2b0654fdeb0ef9944ad62ae9cd96d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:52 +0000
Subject: [PATCH 32/62] fix: respect --comment_style=long for uses that need
 only a declaration

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 407b3ac..84fa7ce 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1880,7 +1880,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
     } else if (ContainsKey(include_map, use.suggested_header())) {
       // If we satisfy a forward-declare use from a file, let the file
       // know (this is just for logging).
-      const string symbol_name = use.short_symbol_name();
+      const string symbol_name = GlobalFlags().comments_with_namespace
+                                     ? use.symbol_name()
+                                     : use.short_symbol_name();
 
       auto range = include_map.equal_range(use.suggested_header());
       for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From 270481c98c144ed89aed77fe9078a2dae12df3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 33/62] fix: don't abort on --check_also globs that match any
 name

---
 iwyu_globals.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 05b1e4d..d566903 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -548,6 +548,10 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
 }
 
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
+  // There is nothing to say about <built-in> and the like, even if a glob
+  // matches any name.
+  if (IsSpecialFile(file))
+    return false;
   const string filepath = GetFilePath(file);
   // The set also has paths of files that are always reported; those must match
   // themselves even if they contain characters that are special in globs.
-- 
2.43.0


From 7e499f75c871fdeab54137504d86cd9b529565ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 34/62] fix: don't crash on mapping files that cannot be parsed

---
 iwyu_include_picker.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 9afb80e..7287886 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1307,9 +1307,10 @@ void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
 }
 
 // Get a scalar value from a YAML node.
-// Returns empty string if it's not of type ScalarNode.
+// Returns empty string if it's not of type ScalarNode, or if it's null, as
+// nodes that cannot be parsed are.
 string GetScalarValue(Node* node) {
-  ScalarNode* scalar = llvm::dyn_cast<ScalarNode>(node);
+  ScalarNode* scalar = llvm::dyn_cast_or_null<ScalarNode>(node);
   if (scalar == nullptr)
     return string();
 
@@ -1318,11 +1319,11 @@ string GetScalarValue(Node* node) {
 }
 
 // Get a sequence value from a YAML node.
-// Returns empty vector if it's not of type SequenceNode.
+// Returns empty vector if it's not of type SequenceNode, or if it's null.
 vector<string> GetSequenceValue(Node* node) {
   vector<string> result;
 
-  SequenceNode* sequence = llvm::dyn_cast<SequenceNode>(node);
+  SequenceNode* sequence = llvm::dyn_cast_or_null<SequenceNode>(node);
   if (sequence != nullptr) {
     for (Node& node : *sequence) {
       result.push_back(GetScalarValue(&node));
@@ -1944,6 +1945,10 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
 
   // Get root sequence.
   Node* root = stream_begin->getRoot();
+  if (root == nullptr) {
+    VERRS(0) << "Cannot parse mapping file '" << absolute_path << "'.\n";
+    return;
+  }
   SequenceNode *array = llvm::dyn_cast<SequenceNode>(root);
   if (array == nullptr) {
     json_stream.printError(root, "Root element must be an array.");
-- 
2.43.0


From df2722f919a74d427d0c57d164ec62b027c299d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 35/62] fix: don't recurse endlessly when mapping files refer
 to each other

---
 iwyu_include_picker.cc | 10 ++++++++++
 iwyu_include_picker.h  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 7287886..9b69d74 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -29,6 +29,7 @@
 #include "iwyu_string_util.h"
 #include "iwyu_verrs.h"
 #include "llvm/ADT/STLExtras.h"
+#include "llvm/ADT/ScopeExit.h"
 #include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
@@ -1934,6 +1935,15 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
     return;
   }
 
+  // A file that refers to itself, directly or not, has nothing more to say.
+  const string file_id = NormalizeFilePath(MakeAbsolutePath(absolute_path));
+  if (!open_mapping_files_.insert(file_id).second) {
+    VERRS(0) << "Mapping file '" << absolute_path << "' refers to itself.\n";
+    return;
+  }
+  auto close_mapping_file = llvm::make_scope_exit(
+      [&] { open_mapping_files_.erase(file_id); });
+
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
 
   SourceMgr source_manager;
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..70f93b3 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -301,6 +301,10 @@ class IncludePicker {
   // contents of friend_to_headers_map_["@\"foo/bar/.*\""].
   map<string, set<string>> friend_to_headers_map_;
 
+  // The (normalized, absolute) paths of the mapping files being parsed: the
+  // one being read, the one that refers to it, and so on.
+  set<string> open_mapping_files_;
+
   // Make sure we don't do any non-const operations after finalizing.
   bool has_called_finalize_added_include_lines_;
 
-- 
2.43.0


From 0c0dd6a408ab4cf280f1cf5242c9c891b961cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 36/62] fix: look up mapping refs next to the referring file
 first

---
 iwyu_include_picker.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 9b69d74..44f17ee 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1334,22 +1334,18 @@ vector<string> GetSequenceValue(Node* node) {
   return result;
 }
 
-// If new_path doesn't already exist in search_path, makes a copy of search_path
-// and adds new_path to it.
-// Returns the original or extended search path.
+// Makes a copy of search_path with new_path in front, so that files next to the
+// nearest referrer are found first.
 vector<string> ExtendMappingFileSearchPath(const vector<string>& search_path,
                                            const string& new_path) {
   CHECK_(IsAbsolutePath(new_path));
 
-  if (std::find(search_path.begin(),
-                search_path.end(),
-                new_path) == search_path.end()) {
-    vector<string> extended(search_path);
-    extended.push_back(new_path);
-    return extended;
+  vector<string> extended = {new_path};
+  for (const string& path : search_path) {
+    if (path != new_path)
+      extended.push_back(path);
   }
-
-  return search_path;
+  return extended;
 }
 
 // Scans search_path for existing files with filename.
-- 
2.43.0


From d070a0acee73e5e76b1a06f27e392bfd0f038455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 37/62] fix: match mapping and friend expressions against whole
 names, also with alternatives

---
 iwyu_regex.cc | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..5e7b83e 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,7 +13,7 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -21,21 +21,12 @@ namespace include_what_you_use {
 
 namespace {
 
-// Add ^...$ start/end anchoring if they don't already exist.
+// Add ^...$ start/end anchoring around the whole pattern, alternatives included.
 // This is useful to transform from search-inside-string semantics to match-
 // whole-string semantics for regex implementations that don't support the
 // latter.
 std::string Anchored(const std::string& pattern) {
-  const char* prefix = "";
-  const char* suffix = "";
-  if (!StartsWith(pattern, "^")) {
-    prefix = "^";
-  }
-  if (!EndsWith(pattern, "$")) {
-    suffix = "$";
-  }
-
-  return prefix + pattern + suffix;
+  return "^(?:" + pattern + ")$";
 }
 
 }  // anonymous namespace
@@ -55,9 +46,11 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::match has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      // llvm::Regex::match has search semantics; the leftmost longest match
+      // must be the whole string.
+      llvm::Regex r(pattern);
+      llvm::SmallVector<llvm::StringRef, 1> matches;
+      return r.match(str, &matches) && matches[0].size() == str.size();
     }
 
     case RegexDialect::ECMAScript: {
@@ -73,8 +66,10 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::sub has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
+      // llvm::Regex::sub has search semantics; see RegexMatch.
+      if (!RegexMatch(dialect, str, pattern))
+        return str;
+      llvm::Regex r(pattern);
       return r.sub(replacement, str);
     }
 
-- 
2.43.0


From 1974647c22ff406867d6da333454bc76d648154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 38/62] fix: incrementing a pointer needs the complete type

---
 iwyu.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 0373578..e2a73b8 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -265,6 +265,7 @@ using clang::TypedefDecl;
 using clang::TypedefNameDecl;
 using clang::TypedefType;
 using clang::UnaryExprOrTypeTraitExpr;
+using clang::UnaryOperator;
 using clang::UnresolvedLookupExpr;
 using clang::UsingDecl;
 using clang::UsingDirectiveDecl;
@@ -2043,6 +2044,22 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // Incrementing or decrementing a pointer is pointer arithmetic, too.
+  bool VisitUnaryOperator(UnaryOperator* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (!expr->isIncrementDecrementOp())
+      return true;
+
+    const Expr* term = expr->getSubExpr()->IgnoreParenImpCasts();
+    const Type* type = GetTypeOf(term);
+    if (type->isPointerType())
+      ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
+
+    return true;
+  }
+
   bool VisitTypeTraitExpr(TypeTraitExpr* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From 14121dc930014b48c950670c0aee78a37f9cae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 39/62] fix: throwing a pointer needs the complete type

---
 iwyu.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index e2a73b8..a29dd61 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -193,6 +193,7 @@ using clang::CXXNewExpr;
 using clang::CXXOperatorCallExpr;
 using clang::CXXRecordDecl;
 using clang::CXXTemporaryObjectExpr;
+using clang::CXXThrowExpr;
 using clang::CXXTypeidExpr;
 using clang::CallExpr;
 using clang::CastExpr;
@@ -1778,6 +1779,22 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // Throwing a pointer requires the pointed-to type to be complete. (For other
+  // thrown objects, their initialization already requires the full type.)
+  bool VisitCXXThrowExpr(CXXThrowExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (const Expr* sub_expr = expr->getSubExpr()) {
+      const Expr* thrown_expr = sub_expr->IgnoreParenImpCasts();
+      const Type* type = GetTypeOf(thrown_expr);
+      if (type->isPointerType())
+        ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefsAndPtr);
+    }
+
+    return true;
+  }
+
   // The explicit traversal of 'CXXForRangeStmt' is introduced to avoid
   // a problem with code like this:
   //
-- 
2.43.0


From 2201d6daf93f939f5d126e0288d0471f720cf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 40/62] fix: every dynamic_cast needs complete types

---
 iwyu.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index a29dd61..8c891dd 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -186,6 +186,7 @@ using clang::CXXConstructorDecl;
 using clang::CXXDefaultArgExpr;
 using clang::CXXDeleteExpr;
 using clang::CXXDestructorDecl;
+using clang::CXXDynamicCastExpr;
 using clang::CXXForRangeStmt;
 using clang::CXXMemberCallExpr;
 using clang::CXXMethodDecl;
@@ -1992,6 +1993,14 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
         break;
     }
 
+    // dynamic_cast requires complete types even when it is not an actual
+    // downcast, e.g. when casting to the same type or to a base.
+    if (isa<CXXDynamicCastExpr>(expr) &&
+        expr->getCastKind() != clang::CK_Dynamic) {
+      required_full_types.push_back(from_type);
+      required_full_types.push_back(to_type);
+    }
+
     for (const Type* type : required_full_types)
       ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefsAndPtr);
 
-- 
2.43.0


From c3328bb7bc66b73fbc63a8f657597b7603ac3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 41/62] fix: subscripting needs the complete type also when the
 pointer comes second

---
 iwyu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index 8c891dd..c6684d6 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -2038,7 +2038,8 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
-    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getLHS()),
+    // The pointer may be on either side: 4[a] is the same as a[4].
+    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getBase()),
                   DerefKind::RemoveRefsAndPtr);
     return true;
   }
-- 
2.43.0


From 31f9cc70b5d4779def417eab132057a72ab85a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 42/62] fix: declarations in source files don't provide return
 and parameter types

---
 iwyu.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index c6684d6..f3668cc 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1497,7 +1497,9 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
               GetFileEntry(call_expr), GetFileEntry(*fn_redecl))) {
         continue;
       }
-      if (fn_redecl->isThisDeclarationADefinition() && !IsInHeader(*fn_redecl))
+      // Declarations in source files don't provide types for anyone, see
+      // CanBeProvidedTypeComponent.
+      if (!IsInHeader(*fn_redecl))
         continue;
       for (const Type* type : autocast_types) {
         const set<const Type*> components =
@@ -1513,6 +1515,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     const FunctionDecl* providing_decl = decl;
     if (const auto* method = dyn_cast<CXXMethodDecl>(decl))
       providing_decl = GetFromLeastDerived(method);
+    // Declarations in source files don't provide types for anyone, see
+    // CanBeProvidedTypeComponent.
+    if (!IsInHeader(providing_decl))
+      return set<const Type*>();
     const Type* return_type = providing_decl->getReturnType().getTypePtr();
     return GetProvidedTypes(return_type, GetLocation(providing_decl));
   }
-- 
2.43.0


From 0b3e9ecad9628d93652fa15240020361800fb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 43/62] fix: arithmetic on references to pointers and on arrays
 needs the complete type

---
 iwyu.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index f3668cc..de54ef3 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1786,6 +1786,19 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // If the value of the expression is a pointer, returns the type of the
+  // expression as written, which may also be a reference to a pointer.
+  // Otherwise, returns nullptr.
+  static const Type* GetPointerTypeOf(const Expr* expr) {
+    if (!expr->getType()->isPointerType())
+      return nullptr;
+    const Type* type = GetTypeOf(expr->IgnoreParenImpCasts());
+    if (type->isPointerType() ||
+        (type->isReferenceType() && type->getPointeeType()->isPointerType()))
+      return type;
+    return expr->getType().getTypePtr();
+  }
+
   // Throwing a pointer requires the pointed-to type to be complete. (For other
   // thrown objects, their initialization already requires the full type.)
   bool VisitCXXThrowExpr(CXXThrowExpr* expr) {
@@ -1793,9 +1806,7 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       return true;
 
     if (const Expr* sub_expr = expr->getSubExpr()) {
-      const Expr* thrown_expr = sub_expr->IgnoreParenImpCasts();
-      const Type* type = GetTypeOf(thrown_expr);
-      if (type->isPointerType())
+      if (const Type* type = GetPointerTypeOf(sub_expr))
         ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefsAndPtr);
     }
 
@@ -2067,11 +2078,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       const Expr* term = cast<Expr>(child)->IgnoreImpCasts()->IgnoreParens();
 
       // If the term expression is pointer-typed we need the full types for
-      // pointer arithmetic.
-      const Type* type = GetTypeOf(term);
-      if (type->isPointerType()) {
+      // pointer arithmetic. (It may be a reference to a pointer, or an array
+      // which decays to a pointer.)
+      if (const Type* type = GetPointerTypeOf(cast<Expr>(child)))
         ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
-      }
     }
 
     return true;
@@ -2086,8 +2096,7 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       return true;
 
     const Expr* term = expr->getSubExpr()->IgnoreParenImpCasts();
-    const Type* type = GetTypeOf(term);
-    if (type->isPointerType())
+    if (const Type* type = GetPointerTypeOf(expr->getSubExpr()))
       ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
 
     return true;
-- 
2.43.0


From 1fb259b97cbeb0896f2714705dd88ed74992f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 44/62] fix: add a forward declaration only once, whichever
 redeclaration is used

---
 iwyu_output.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 84fa7ce..7de3ba3 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1781,6 +1781,18 @@ bool Contains(const vector<OneIncludeOrForwardDeclareLine>& lines,
   });
 }
 
+// Returns true if a forward-declaration of the same entity as decl, maybe by
+// another of its redeclarations, is among the lines to be added already.
+static bool AddsForwardDeclareOf(
+    const vector<OneIncludeOrForwardDeclareLine>& lines,
+    const NamedDecl* decl) {
+  return std::any_of(lines.begin(), lines.end(),
+                     [&](const OneIncludeOrForwardDeclareLine& line) {
+    return !line.is_present() && !line.IsIncludeLine() &&
+           line.fwd_decl()->getCanonicalDecl() == decl->getCanonicalDecl();
+  });
+}
+
 template <class ContainerType>
 void ClearDesiredForSurplusIncludesOrForwardDeclares(ContainerType& container) {
   // Traverse multimap key by key.
@@ -1815,7 +1827,8 @@ void CalculateDesiredIncludesAndForwardDeclares(
       // Forward-declare uses that are already satisfied by an #include
       // have that as their suggested_header.  For the rest, we need to
       // make sure there's a forward-declare in the current file.
-      if (!Contains(*lines, use.decl())) { // must be added
+      if (!Contains(*lines, use.decl()) &&
+          !AddsForwardDeclareOf(*lines, use.decl())) { // must be added
         // The OneIncludeOrForwardDeclareLine ctor sets up line
         // numbers, but they're for some other file!  Clear them.
         lines->push_back(OneIncludeOrForwardDeclareLine(use.decl()));
-- 
2.43.0


From af26032733b6a56cd8efc3d8e0d3c23b84394f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 45/62] fix: default arguments and constraints are not cut from
 forward declarations of templates

---
 iwyu_output.cc | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 7de3ba3..6826c88 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -467,36 +467,21 @@ string MungedForwardDeclareLineForNontemplates(const TagDecl* decl) {
 // forward-declare the template, e.g.
 //     "namespace ns { template <typename T> class Foo; }".
 string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
-  // DeclPrinter prints the class name just as we like it (with default args and
-  // everything) -- with logic that doesn't exist elsewhere in clang that I can
-  // see. Unfortunately, it also prints the full class body. So, as a hack, we
-  // postprocess the printed decl and then cut off everything after the template
-  // name. We also have to replace the name with the fully qualified name.
-  // TODO(csilvers): prepend namespaces instead.
+  // Print the template parameters (with default args and everything), then
+  // the kind of class.
   std::string line;
   raw_string_ostream ostream(line);
 
-  // Print the decl using PolishForDeclaration, which strips some semantic
-  // attributes.
   PrintingPolicy policy = decl->getASTContext().getPrintingPolicy();
   policy.PolishForDeclaration = true;
-  decl->print(ostream, policy);
+  decl->getTemplateParameters()->print(ostream, decl->getASTContext(), policy);
   ostream.flush();
 
-  // Remove "final" specifier, it isn't allowed for forward declarations.
-  ReplaceAll(&line, " final ", " ");
-
-  // Get rid of the superclasses, if any (this will nix the body too).
-  DropFrom(&line, " :");
-  // Get rid of the template body, if any (true if no superclasses).
-  DropFrom(&line, " {");
-
-  // The template name is now the last word on the line. Replace it by its
-  // fully-qualified form.
-  const string::size_type name = line.rfind(' ');
-  CHECK_(name != string::npos && "Unexpected printable template-type");
-
-  line = line.substr(0, name);
+  const auto* tag_decl = dyn_cast_or_null<TagDecl>(decl->getTemplatedDecl());
+  CHECK_(tag_decl && "IWYU only allows forward declaring class templates");
+  if (!EndsWith(line, " "))
+    line += " ";
+  line += GetKindName(tag_decl);
 
   return PrintForwardDeclare(decl, line, GlobalFlags().cxx17ns);
 }
-- 
2.43.0


From 71333ac630b8c59963ee21ba8e79837b3992af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 46/62] fix: forward declarations keep the namespaces around
 extern "C" blocks

---
 iwyu_output.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 6826c88..07312af 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -411,8 +411,14 @@ string PrintForwardDeclare(const NamedDecl* decl,
   bool seen_namespace = false;
   // Anonymous namespaces are not using the more concise syntax.
   bool concat_namespaces = cxx17ns && !decl->isInAnonymousNamespace();
-  for (const DeclContext* ctx = decl->getDeclContext();
-       ctx && isa<NamedDecl>(ctx); ctx = ctx->getParent()) {
+  // Skip what has no name, like extern "C" blocks.
+  auto named_context = [](const DeclContext* ctx) {
+    while (ctx && !isa<NamedDecl>(ctx))
+      ctx = ctx->getParent();
+    return ctx;
+  };
+  for (const DeclContext* ctx = named_context(decl->getDeclContext()); ctx;
+       ctx = named_context(ctx->getParent())) {
     if (const RecordDecl* rec = DynCastFrom(ctx)) {
       fwd_decl = std::string(rec->getName()) + "::" + fwd_decl;
     } else if (const NamespaceDecl* ns = DynCastFrom(ctx)) {
@@ -430,7 +436,7 @@ string PrintForwardDeclare(const NamedDecl* decl,
           first = false;
           prefix = prefix + " { ";
         }
-        if (ctx->getParent() && isa<NamedDecl>(ctx->getParent())) {
+        if (named_context(ctx->getParent())) {
           prefix = "::" + prefix;
         } else {
           prefix = "namespace " + prefix;
-- 
2.43.0


From 6c64f67901c0d54eeb5973a691609dbfec2e97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 47/62] fix: forward declarations of enums do not rely on
 aliases

---
 iwyu_output.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 07312af..53d6d0b 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -162,7 +162,8 @@ const FakeNamedDecl* FakeNamedDeclIfItIsOne(const NamedDecl* decl) {
 std::string PrintableUnderlyingType(const EnumDecl* enum_decl) {
   if (const TypeSourceInfo* type_source_info =
           enum_decl->getIntegerTypeSourceInfo()) {
-    return " : " + type_source_info->getType().getAsString(
+    // The name of an alias may not be declared where this is put.
+    return " : " + type_source_info->getType().getCanonicalType().getAsString(
                        enum_decl->getASTContext().getPrintingPolicy());
   }
 
-- 
2.43.0


From e9391db5d1d7348c70898fa29fa89997a6ae8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 48/62] fix: templates whose parameters use other declarations
 are not forward-declared

---
 iwyu_ast_util.cc | 21 +++++++++++++++++++++
 iwyu_ast_util.h  |  4 ++++
 iwyu_output.cc   | 13 +++++++++----
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 7ee6f94..81f510d 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -100,6 +100,7 @@ using clang::MemberPointerType;
 using clang::NamedDecl;
 using clang::NamespaceDecl;
 using clang::NestedNameSpecifier;
+using clang::NonTypeTemplateParmDecl;
 using clang::ObjCObjectType;
 using clang::OptionalFileEntryRef;
 using clang::OverloadExpr;
@@ -129,6 +130,7 @@ using clang::TemplateName;
 using clang::TemplateParameterList;
 using clang::TemplateSpecializationKind;
 using clang::TemplateSpecializationType;
+using clang::TemplateTemplateParmDecl;
 using clang::TemplateTypeParmDecl;
 using clang::TranslationUnitDecl;
 using clang::Type;
@@ -1241,6 +1243,25 @@ bool HasDefaultTemplateParameters(const TemplateDecl* decl) {
   return tpl_params->getMinRequiredArguments() < tpl_params->size();
 }
 
+bool HasTemplateParametersUsingOtherDecls(const TemplateDecl* decl) {
+  if (decl->getTemplateParameters()->hasAssociatedConstraints())
+    return true;
+  for (const NamedDecl* param : *decl->getTemplateParameters()) {
+    if (const auto* tpl_param = dyn_cast<TemplateTemplateParmDecl>(param)) {
+      if (HasTemplateParametersUsingOtherDecls(tpl_param))
+        return true;
+    } else if (const auto* value_param =
+                   dyn_cast<NonTypeTemplateParmDecl>(param)) {
+      QualType type = value_param->getType();
+      while (!type->getPointeeType().isNull())
+        type = type->getPointeeType();
+      if (type->getAs<TypedefType>() || type->getAs<TagType>())
+        return true;
+    }
+  }
+  return false;
+}
+
 template <class T>
 inline set<const NamedDecl*> GetRedeclsOfRedeclarable(
     const Redeclarable<T>* decl) {
diff --git a/iwyu_ast_util.h b/iwyu_ast_util.h
index 7ce346c..2b9c0f9 100644
--- a/iwyu_ast_util.h
+++ b/iwyu_ast_util.h
@@ -668,6 +668,10 @@ bool IsNestedClass(const clang::TagDecl* decl);
 
 bool HasDefaultTemplateParameters(const clang::TemplateDecl* decl);
 
+// Returns true if a template's parameters can't be repeated where nothing else
+// is declared, because they mention concepts, classes, enums or aliases.
+bool HasTemplateParametersUsingOtherDecls(const clang::TemplateDecl* decl);
+
 // For any decl that inherits from clang::Redeclarable *except* for
 // classes and class templates -- enums, typedefs, functions, vars --
 // returns all the declarations of decl.  For any other decl, the
diff --git a/iwyu_output.cc b/iwyu_output.cc
index 53d6d0b..ddea10c 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -988,8 +988,9 @@ set<string> CalculateMinimalIncludes(
 //
 // Trimming forward-declare uses (1st pass):
 // A1) If not a class or a templated class, recategorize as a full use.
-// A2) If a templated class with default template params, recategorize
-//     as a full use (forward-declaring in that case is too error-prone).
+// A2) If a templated class with default template params, or ones that use
+//     other declarations, recategorize as a full use (forward-declaring in
+//     that case is too error-prone).
 // A3) If a symbol in std, __gnu_cxx, or another system namespace,
 //     recategorize as a full use.  This is entirely a policy
 //     decision: we've decided never to forward-declare anything in
@@ -1098,12 +1099,16 @@ void ProcessForwardDeclare(OneUse* use,
   if (tpl_decl)
     tag_decl = tpl_decl->getTemplatedDecl();
 
-  // (A2) If it has default template parameters, recategorize as a full use.
+  // (A2) If it has default template parameters, or ones that use concepts or
+  // types declared elsewhere, recategorize as a full use.
   // Suppress this if there's no definition for this class (so can't full-use).
-  if (tpl_decl && HasDefaultTemplateParameters(tpl_decl) &&
+  if (tpl_decl &&
+      (HasDefaultTemplateParameters(tpl_decl) ||
+       HasTemplateParametersUsingOtherDecls(tpl_decl)) &&
       GetTagDefinition(tpl_decl) != nullptr) {
     VERRS(6) << "Moving " << use->symbol_name()
              << " from fwd-decl use to full use: has default template param"
+             << " or one that uses other declarations"
              << " (" << use->PrintableUseLoc() << ")\n";
     use->set_full_use();
     // No return here: (A4) or (A5) may cause us to ignore this decl entirely.
-- 
2.43.0


From b73fd9d5984ca4b59fda82e59dae3503f2f82c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 49/62] fix: keep marked forward declarations also if they
 inherit attributes

---
 iwyu.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index de54ef3..6a67a29 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4252,13 +4252,12 @@ class IwyuAstConsumer
       // that attributes are consistent between declarations, so we can't
       // remove a decl with attributes unless they're inherited, i.e. propagated
       // from another redeclaration as opposed to explicitly written.
-      } else if (decl->hasAttrs()) {
-        for (const Attr* attr : decl->getAttrs()) {
-          if (!attr->isInherited()) {
-            definitely_keep_fwd_decl = true;
-            break;
-          }
-        }
+      } else if (decl->hasAttrs() &&
+                 std::any_of(decl->attr_begin(), decl->attr_end(),
+                             [](const Attr* attr) {
+                               return !attr->isInherited();
+                             })) {
+        definitely_keep_fwd_decl = true;
 
       // (3) If we're a nested class ("class A { class SubA; };"),
       // then we can't necessary be removed either, since we're part
-- 
2.43.0


From 7140f1d2c11b664babe8abf54efa69e2178446b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 50/62] fix: uses of class templates don't depend on what has
 been instantiated

---
 iwyu_output.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index ddea10c..93affef 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -653,6 +653,31 @@ static void LogSymbolUse(const string& prefix, const OneUse& use) {
            << " at " << use.PrintableUseLoc() << "\n";
 }
 
+// Implicit instantiations of class templates are declared by declaring the
+// template.  Like with classes, that's the definition of the template, if
+// there's one, no matter what has been instantiated or which redeclaration was
+// seen first.
+static const NamedDecl* GetClassTemplateOf(const NamedDecl* decl) {
+  const auto* tpl_decl = dyn_cast<ClassTemplateDecl>(decl);
+  if (const auto* spec_decl = dyn_cast<ClassTemplateSpecializationDecl>(decl)) {
+    if (!spec_decl->isExplicitSpecialization())
+      tpl_decl = dyn_cast<ClassTemplateDecl*>(
+          spec_decl->getSpecializedTemplateOrPartial());
+  } else if (const auto* class_decl = dyn_cast<CXXRecordDecl>(decl)) {
+    if (!class_decl->isThisDeclarationADefinition())
+      tpl_decl = class_decl->getDescribedClassTemplate();
+  }
+  if (!tpl_decl)
+    return decl;
+  if (const auto* dfn = dyn_cast_or_null<CXXRecordDecl>(
+          GetTagDefinition(tpl_decl))) {
+    if (const ClassTemplateDecl* tpl_dfn = dfn->getDescribedClassTemplate())
+      return tpl_dfn;
+  }
+  const ClassTemplateDecl* first_decl = tpl_decl->getCanonicalDecl();
+  return IsFriendDecl(first_decl->getTemplatedDecl()) ? tpl_decl : first_decl;
+}
+
 void IwyuFileInfo::ReportFullSymbolUse(SourceLocation use_loc,
                                        const NamedDecl* decl,
                                        UseFlags flags,
@@ -664,7 +689,7 @@ void IwyuFileInfo::ReportFullSymbolUse(SourceLocation use_loc,
     if ((flags & (UF_DefinitionUse | UF_ExplicitInstantiation)) == 0) {
       // Since we need the full symbol, we need the decl's definition-site too.
       // Also, by default we canonicalize the location, using GetLocation.
-      report_decl = GetDefinitionAsWritten(decl);
+      report_decl = GetClassTemplateOf(GetDefinitionAsWritten(decl));
       report_decl_loc = GetLocation(report_decl);
     } else {
       // However, if a declaration is used by its own definition or we are
@@ -718,6 +743,7 @@ void IwyuFileInfo::ReportForwardDeclareUse(SourceLocation use_loc,
   // combines friend decls with true forward-declare decls.  If that
   // happened here, replace the friend with a real fwd decl.
   decl = GetNonfriendClassRedecl(decl);
+  decl = GetClassTemplateOf(decl);
   symbol_uses_.push_back(OneUse(decl, use_loc, GetLocation(decl),
                                 OneUse::kForwardDeclareUse, flags, comment));
   LogSymbolUse("Marked fwd-decl use of decl", symbol_uses_.back());
-- 
2.43.0


From bbbc5a6ca7b72eeb72f1f394087fa94b06277e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 51/62] fix: #elifdef and #elifndef test macros, too

Their callbacks were not overridden, so a header that was included only
for a macro tested by one of them was advised to be removed.
---
 iwyu_preprocessor.cc | 16 ++++++++++++++++
 iwyu_preprocessor.h  |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 5f43e2d..926a6f4 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -762,6 +762,22 @@ void IwyuPreprocessorInfo::Ifndef(SourceLocation loc, const Token& id,
   ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
 }
 
+void IwyuPreprocessorInfo::Elifdef(SourceLocation loc, const Token& id,
+                                   const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifdef    ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
+void IwyuPreprocessorInfo::Elifndef(SourceLocation loc, const Token& id,
+                                    const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifndef   ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
 // Clang will give a MacroExpands() callback for all macro-tokens
 // used inside an #if or #elif, *except* macro-tokens used within a
 // 'defined' operator. They produce a Defined() callback.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..39adbff 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -184,6 +184,12 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
              const clang::MacroDefinition& definition) override;
   void Ifndef(clang::SourceLocation loc, const clang::Token& id,
               const clang::MacroDefinition& definition) override;
+  using clang::PPCallbacks::Elifdef;
+  using clang::PPCallbacks::Elifndef;
+  void Elifdef(clang::SourceLocation loc, const clang::Token& id,
+               const clang::MacroDefinition& definition) override;
+  void Elifndef(clang::SourceLocation loc, const clang::Token& id,
+                const clang::MacroDefinition& definition) override;
   void Defined(const clang::Token& id,
                const clang::MacroDefinition& definition,
                clang::SourceRange range) override;
-- 
2.43.0


From a247cbd54ee130925794de389d7f5e2ad39bfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 52/62] fix: exported forward declarations don't serve files
 their file includes

If a type has a forward declaration marked with IWYU pragma: export, any
file that needs a declaration of it was told to include that one, and when
that one's file includes the user, the use was dropped altogether as a
backwards include, together with the user's own forward declaration.
---
 iwyu_output.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 93affef..d0769c2 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1214,9 +1214,16 @@ void ProcessForwardDeclare(OneUse* use,
 
   // (A7) If any arbitrary redeclaration is marked with IWYU pragma: export,
   // reset use as a full use of this decl to keep its containing file included.
+  // A file that #includes the file containing the use can't be #included there.
   if (!use->is_full_use()) {
+    OptionalFileEntryRef use_file = GetFileEntry(use->use_loc());
     for (const Decl* redecl : use->decl()->redecls()) {
       const auto* decl = cast<NamedDecl>(redecl);
+      OptionalFileEntryRef decl_file = GetFileEntry(decl);
+      if (decl_file != use_file &&
+          preprocessor_info->FileTransitivelyIncludes(decl_file, use_file)) {
+        continue;
+      }
       if (preprocessor_info->ForwardDeclareIsExported(decl)) {
         use->reset_decl(decl);
         use->set_full_use();
-- 
2.43.0


From c734532fa72624dd4e709ce9a8ef1daaf628f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 53/62] fix: forward declarations to be removed don't serve the
 associated file

A source file relied on forward declarations in its associated headers even
when they were advised to be removed from there in the same run, so that
it didn't compile any more after both had been fixed.
---
 iwyu_output.cc | 30 ++++++++++++++++++++++++++----
 iwyu_output.h  |  4 ++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index d0769c2..fd9079a 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1513,7 +1513,8 @@ void ProcessSymbolUse(OneUse* use,
 void CalculateIwyuForForwardDeclareUse(
     OneUse* use, const set<string>& actual_includes,
     const set<string>& desired_includes,
-    const set<OptionalFileEntryRef>& associated_includes) {
+    const set<OptionalFileEntryRef>& associated_includes,
+    const set<const NamedDecl*>& associated_undesired_fwd_decls) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->decl() && "CalculateIwyuForForwardDeclareUse takes a fwd-decl");
   CHECK_(!use->is_full_use() && "ForwardDeclareUse are not full uses");
@@ -1563,10 +1564,13 @@ void CalculateIwyuForForwardDeclareUse(
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
   // an associated .h file.  Since associated .h files are always
-  // desired includes, we don't need to check for that.
+  // desired includes, we don't need to check for that.  But if we rely on
+  // the redecl, it must not be one that we advise to remove from there.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      if (ContainsKey(associated_includes, GetFileEntry(redecl)) &&
+          (dfn_is_in_desired_includes ||
+           !ContainsKey(associated_undesired_fwd_decls, redecl))) {
         same_file_decl = redecl;
         break;
       }
@@ -1693,6 +1697,21 @@ void CalculateIwyuForFullUse(OneUse* use,
 
 }  // namespace internal
 
+set<const NamedDecl*> IwyuFileInfo::AssociatedUndesiredForwardDecls() const {
+  set<const NamedDecl*> undesired;
+  for (const IwyuFileInfo* associated : associated_headers_) {
+    for (const OneIncludeOrForwardDeclareLine& line : associated->lines_) {
+      if (line.IsIncludeLine() || !line.is_present() || line.is_desired())
+        continue;
+      const NamedDecl* decl = line.fwd_decl();
+      if (const auto* tpl_decl = dyn_cast<ClassTemplateDecl>(decl))
+        decl = tpl_decl->getTemplatedDecl();
+      undesired.insert(decl);
+    }
+  }
+  return undesired;
+}
+
 void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   VERRS(6) << "--- Calculating IWYU violations for "
            << GetFilePath(file_) << " ---\n";
@@ -1746,6 +1765,9 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   set<string> effective_desired_includes = desired_includes();
   InsertAllInto(associated_desired_includes, &effective_desired_includes);
 
+  const set<const NamedDecl*> associated_undesired_fwd_decls =
+      AssociatedUndesiredForwardDecls();
+
   // Now that we've figured out desired_includes, figure out iwyu violations.
   for (OneUse& use : *uses) {
     if (use.ignore_use()) {
@@ -1753,7 +1775,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
     } else if (!use.is_full_use()) {
       internal::CalculateIwyuForForwardDeclareUse(
           &use, effective_direct_includes, effective_desired_includes,
-          AssociatedFileEntries());
+          AssociatedFileEntries(), associated_undesired_fwd_decls);
     } else {
       internal::CalculateIwyuForFullUse(
           &use, effective_direct_includes, quoted_file_);
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..9dc47f7 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -376,6 +376,10 @@ class IwyuFileInfo {
     return associated_desired_includes;
   }
 
+  // The fwd-declare lines of associated headers that we advise to remove, in
+  // the form in which GetTagRedecls has them.
+  set<const clang::NamedDecl*> AssociatedUndesiredForwardDecls() const;
+
   // Populates uses with full data, including is_iwyu_violation_.
   void CalculateIwyuViolations(vector<OneUse>* uses);
   // Uses uses to emit warning messages (at high enough verbosity).
-- 
2.43.0


From 178627e0e6a0eb4c4dbc9878dbccb134ddc6ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 54/62] fix: keep comments and inline when namespaces of
 forward declarations are expanded

The fixer brings forward declarations in namespaces into a form that takes
several lines. Doing so it lost a comment at the end of the line, such as
an IWYU pragma, and turned inline namespaces into ordinary ones.
---
 fix_includes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index c8484ea..c488bc4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2049,9 +2049,10 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   Returns:
     A new version of lines, with namespace lines normalized as above.
   """
-  # iwyu input is very regular, which is nice.
-  iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
-  iwyu_classname_re = re.compile(r'{ ([^{}]*) }')
+  # iwyu input is very regular, which is nice.  Lines that were in the file
+  # already may have a comment (such as an IWYU pragma) at their end, though.
+  iwyu_namespace_re = re.compile(r'((?:inline )?namespace [^{]*) { ')
+  iwyu_classname_re = re.compile(r'{ ([^{}]*) }[ }]*(.*)$')
 
   retval = []
   current_namespaces = []
@@ -2063,8 +2064,9 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
     differ_pos = _CommonPrefixLength(namespaces_in_line, current_namespaces)
     namespaces_to_close = reversed(current_namespaces[differ_pos:])
     namespaces_to_open = namespaces_in_line[differ_pos:]
-    retval.extend('}  // namespace %s' % ns for ns in namespaces_to_close)
-    retval.extend('namespace %s {' % ns for ns in namespaces_to_open)
+    retval.extend('}  // %s' % ns.replace('inline ', '', 1)
+                  for ns in namespaces_to_close)
+    retval.extend('%s {' % ns for ns in namespaces_to_open)
     current_namespaces = namespaces_in_line
     # Now add the current line.  If we were a namespace line, it's the
     # 'class' part of the line (everything but the 'namespace {'s).
@@ -2072,7 +2074,7 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
       m = iwyu_classname_re.search(line)
       if not m:
         raise FixIncludesError('Malformed namespace line from iwyu: %s', line)
-      retval.append(m.group(1))
+      retval.append('  '.join(part for part in m.groups() if part))
     else:
       retval.append(line)
 
-- 
2.43.0


From 05eb66a8f592d5cf74bab1c83682e58a5871be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 55/62] fix: reasons don't replace pragmas at the end of
 #include lines

---
 fix_includes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index c488bc4..b6e9325 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -88,6 +88,8 @@ _COMMENT_RE = re.compile(r'\s*//.*')
 _C_COMMENT_START_RE = re.compile(r'\s*/\*')
 _C_COMMENT_END_RE = re.compile(r'.*\*/\s*(.*)$')
 _COMMENT_LINE_RE = re.compile(r'\s*//')
+# A comment that include-what-you-use itself reads.
+_PRAGMA_RE = re.compile(r'//\s*IWYU pragma:|/\*\s*IWYU pragma:')
 _PRAGMA_ONCE_LINE_RE = re.compile(r'\s*#\s*pragma\s+once')
 _PRAGMA_PUSH_LINE_RE = re.compile(r'\s*#\s*pragma.*push.*')
 _PRAGMA_POP_LINE_RE = re.compile(r'\s*#\s*pragma.*pop.*')
@@ -1958,8 +1960,9 @@ def _DecoratedMoveSpanLines(iwyu_record, file_lines, move_span_lines, flags):
     # to do the comment-replacing first.
     sort_key = firstline.line
     iwyu_version = iwyu_record.full_include_lines.get(m.group(1), '')
-    if _COMMENT_LINE_RE.search(iwyu_version):  # the iwyu version has comments
-      sort_key = iwyu_version                  # replace the comments
+    if (_COMMENT_LINE_RE.search(iwyu_version) and  # iwyu version has comments
+        not _PRAGMA_RE.search(firstline.line)):    # that say less than ours
+      sort_key = iwyu_version                      # replace the comments
     all_lines = ([li.line for li in move_span_lines[:-1] if not li.deleted] +
                  [sort_key])
   else:
-- 
2.43.0


From 46dfe36e78b7c67b820ff2255adca23b0840a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 56/62] fix: fix_includes.py doesn't move pragmas, nor
 #includes out of or into their ranges

---
 fix_includes.py | 50 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index b6e9325..333d1ac 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -90,6 +90,11 @@ _C_COMMENT_END_RE = re.compile(r'.*\*/\s*(.*)$')
 _COMMENT_LINE_RE = re.compile(r'\s*//')
 # A comment that include-what-you-use itself reads.
 _PRAGMA_RE = re.compile(r'//\s*IWYU pragma:|/\*\s*IWYU pragma:')
+# The same on a line of its own, where it speaks for the whole file or for a
+# range of lines, not for the #include that follows.
+_PRAGMA_LINE_RE = re.compile(r'\s*(//|/\*)\s*IWYU pragma:')
+_PRAGMA_RANGE_RE = re.compile(r'\s*(//|/\*)\s*IWYU pragma:\s*'
+                              r'(begin|end)_(exports|keep)\b')
 _PRAGMA_ONCE_LINE_RE = re.compile(r'\s*#\s*pragma\s+once')
 _PRAGMA_PUSH_LINE_RE = re.compile(r'\s*#\s*pragma.*push.*')
 _PRAGMA_POP_LINE_RE = re.compile(r'\s*#\s*pragma.*pop.*')
@@ -134,7 +139,7 @@ _IWYU_PRAGMA_ASSOCIATED_RE = re.compile(r'IWYU\s*pragma:\s*associated')
 # The _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE is also set on lines when Allman
 # and mixed namespaces are detected but the RE is too easy to match to add
 # under normal circumstances (must always be preceded by Allman/mixed).
-_LINE_TYPES = [_COMMENT_LINE_RE, _BLANK_LINE_RE,
+_LINE_TYPES = [_PRAGMA_LINE_RE, _COMMENT_LINE_RE, _BLANK_LINE_RE,
                _NAMESPACE_START_RE, _NAMESPACE_START_ALLMAN_RE,
                _NAMESPACE_START_MIXED_RE, _NAMESPACE_END_RE,
                _IF_RE, _ELSE_RE, _ENDIF_RE,
@@ -672,8 +677,8 @@ def _MarkHeaderGuardIfPresent(file_lines):
   i = 0
   for i in range(len(file_lines)):
     if (not file_lines[i].deleted and
-        file_lines[i].type not in [_COMMENT_LINE_RE, _BLANK_LINE_RE,
-                                   _PRAGMA_ONCE_LINE_RE]):
+        file_lines[i].type not in [_PRAGMA_LINE_RE, _COMMENT_LINE_RE,
+                                   _BLANK_LINE_RE, _PRAGMA_ONCE_LINE_RE]):
       break
   else:     # for/else: got to EOF without finding any non-blank/comment lines
     return
@@ -703,7 +708,8 @@ def _MarkHeaderGuardIfPresent(file_lines):
   # Finally, all the lines after the end of the ifdef must be blank or comments.
   for i in range(ifdef_end + 1, len(file_lines)):
     if (not file_lines[i].deleted and
-        file_lines[i].type not in [_COMMENT_LINE_RE, _BLANK_LINE_RE]):
+        file_lines[i].type not in [_PRAGMA_LINE_RE, _COMMENT_LINE_RE,
+                                   _BLANK_LINE_RE]):
       return
 
   # We passed the gauntlet!
@@ -753,7 +759,10 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
         line_info.type = _COMMENT_LINE_RE
         in_c_style_comment = True
       elif not m.group(1):  # comment extends across entire line (only)
-        line_info.type = _COMMENT_LINE_RE
+        if _PRAGMA_LINE_RE.match(line_info.line):
+          line_info.type = _PRAGMA_LINE_RE
+        else:
+          line_info.type = _COMMENT_LINE_RE
       else:                 # comment takes only part of line, treat as content
         # TODO(csilvers): this mis-diagnoses lines like '/*comment*/class Foo;'
         line_info.type = None
@@ -1298,7 +1307,8 @@ def _ShouldInsertBlankLine(decorated_move_span, next_decorated_move_span,
     next_line = _NextNondeletedLine(file_lines, decorated_move_span[0][1] - 1)
     # Skip over comments to figure out if the next line is contentful.
     while (next_line and next_line < len(file_lines) and
-           file_lines[next_line].type == _COMMENT_LINE_RE):
+           file_lines[next_line].type in (_PRAGMA_LINE_RE,
+                                          _COMMENT_LINE_RE)):
       next_line += 1
     return (next_line and next_line < len(file_lines) and
             file_lines[next_line].type in (_NAMESPACE_START_RE,
@@ -1340,8 +1350,9 @@ def _GetToplevelReorderSpans(file_lines):
 
   This routine looks at all the reorder_spans in file_lines, ignores
   reorder spans inside #ifdefs and namespaces -- except for the 'header
-  guard' ifdef that encapsulates an entire .h file -- and returns the
-  rest in sorted order.
+  guard' ifdef that encapsulates an entire .h file -- and between
+  pragmas that begin and end a range, and returns the rest in sorted
+  order.
 
   Arguments:
     file_lines: an array of LineInfo objects with .type and
@@ -1389,12 +1400,27 @@ def _GetToplevelReorderSpans(file_lines):
           in_namespace[i] = True
         break
 
+  in_pragma_range = [False] * len(file_lines)
+  range_start, range_kind = None, None
+  for line_number in range(len(file_lines)):
+    line_info = file_lines[line_number]
+    if line_info.deleted or line_info.type != _PRAGMA_LINE_RE:
+      continue
+    m = _PRAGMA_RANGE_RE.match(line_info.line)
+    if m and m.group(2) == 'begin' and range_start is None:
+      range_start, range_kind = line_number, m.group(3)
+    elif m and m.group(2) == 'end' and range_kind == m.group(3):
+      for i in range(range_start, line_number):
+        in_pragma_range[i] = True
+      range_start, range_kind = None, None
+
   reorder_spans = [fl.reorder_span for fl in file_lines if fl.reorder_span]
   reorder_spans = sorted(set(reorder_spans))
   good_reorder_spans = []
   for reorder_span in reorder_spans:
     for line_number in range(*reorder_span):
       if (in_ifdef[line_number] or in_namespace[line_number] or
+          in_pragma_range[line_number] or
           file_lines[line_number].is_nested_forward_declaration):
         break
     else:   # for/else
@@ -1463,7 +1489,8 @@ def _GetNamespaceLevelReorderSpans(file_lines):
       # lines, which aren't 'contentful' for our purposes, and the
       # header guard, which is (by definition) the only kind of #ifdef
       # that we can be inside and still considered at the "top level".
-      if line_info.type in (_COMMENT_LINE_RE,
+      if line_info.type in (_PRAGMA_LINE_RE,
+                            _COMMENT_LINE_RE,
                             _BLANK_LINE_RE,
                             _INCLUDE_RE,
                             _HEADER_GUARD_RE,
@@ -1843,8 +1870,9 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
       seen_header_guard = True
       line_number += 1
-    elif (file_lines[line_number].type == _COMMENT_LINE_RE
-          and not seen_header_guard):
+    elif (file_lines[line_number].type in (_PRAGMA_LINE_RE, _COMMENT_LINE_RE)
+          and not seen_header_guard
+          and not _PRAGMA_RANGE_RE.match(file_lines[line_number].line)):
       # We put #includes after top-of-file comments.  But comments
       # inside the header guard are no longer top-of-file comments;
       # #includes go before them.
-- 
2.43.0


From 477a14e17768067e44e27b4045d127b00c260975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 57/62] fix: files outside of the search directories can be
 friends

---
 iwyu_include_picker.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 44f17ee..c70a715 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1697,8 +1697,16 @@ void IncludePicker::ExpandRegexes() {
                        include_visibility_map_[regex_key]);
       }
     }
+    // Without a search directory around it, a file also goes by its own name.
+    const string own_name =
+        MappedInclude(hdr).HasAbsoluteQuotedInclude()
+            ? AddQuotes(Basename(hdr.substr(1, hdr.size() - 2)),
+                        /*angled=*/false)
+            : hdr;
     for (const string& regex_key : friend_to_headers_map_regex_keys) {
-      if (RegexMatch(regex_dialect, hdr, regex_key.substr(1))) {
+      const string regex = regex_key.substr(1);
+      if (RegexMatch(regex_dialect, hdr, regex) ||
+          RegexMatch(regex_dialect, own_name, regex)) {
         InsertAllInto(friend_to_headers_map_[regex_key],
                       &friend_to_headers_map_[hdr]);
       }
@@ -1840,21 +1848,15 @@ vector<MappedInclude> IncludePicker::GetCandidateHeadersForFilepath(
 vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
     const string& included_filepath, const string& including_filepath) const {
   vector<MappedInclude> mapped_includes;
-  // We pass the own files path to ConvertToQuotedInclude so the quoted include
-  // for the case that there is no matching `-I` option is just the filename
-  // (e.g. "foo.cpp") instead of the absolute file path.
-  const string including_path =
-      MakeAbsolutePath(GetParentPath(including_filepath));
-  const string quoted_includer = ConvertToQuotedInclude(
-      including_filepath, including_path);
+  const string quoted_includer = ConvertToQuotedInclude(including_filepath);
   const string quoted_includee = ConvertToQuotedInclude(
-      included_filepath, including_path);
+      included_filepath, MakeAbsolutePath(GetParentPath(including_filepath)));
   const set<string>* headers_with_includer_as_friend =
       FindInMap(&friend_to_headers_map_, quoted_includer);
   if (headers_with_includer_as_friend != nullptr &&
       ContainsKey(*headers_with_includer_as_friend, included_filepath)) {
     mapped_includes.push_back(
-        MappedInclude(quoted_includee, including_filepath));
+        MappedInclude(quoted_includee, included_filepath));
   } else {
     mapped_includes =
         GetCandidateHeadersForFilepath(included_filepath, including_filepath);
-- 
2.43.0


From d9aa720ea69e70db157b11a194e7f772cf229c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 58/62] fix: private headers outside of the search directories
 stay private for their siblings

---
 iwyu_include_picker.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index c70a715..dd0dc0f 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1835,7 +1835,9 @@ vector<MappedInclude> IncludePicker::GetCandidateHeadersForFilepath(
         filepath, MakeAbsolutePath(GetParentPath(including_filepath)));
   }
   MappedInclude default_header(quoted_header, filepath);
-  if (retval.empty() || GetVisibility(default_header, kPublic) == kPublic) {
+  // What is known about the visibility doesn't depend on the includer.
+  const MappedInclude absolute_header(absolute_quoted_header, filepath);
+  if (retval.empty() || GetVisibility(absolute_header, kPublic) == kPublic) {
     // Insert at front so it's the preferred option
     retval.insert(retval.begin(), default_header);
   }
-- 
2.43.0


From c011e24bda07b3805ca98a2d6d103d4a683de457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 59/62] fix: names relative to the includer aren't keys of
 export mappings

---
 iwyu_preprocessor.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 926a6f4..2ab4d7e 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -496,12 +496,22 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     VERRS(8) << "Adding dynamic mapping for export pragma: "
              << "(" << GetFilePath(includee) << ") -> (" << includer_path
              << ")\n";
-    MutableGlobalIncludePicker()->AddMapping(include_name_as_written, map_to);
+    // A name relative to the directory of the includer may denote another file
+    // elsewhere.
+    const string includee_path = MakeAbsolutePath(GetFilePath(includee));
+    const string relative_path = MakeAbsolutePath(
+        MakeAbsolutePath(GetParentPath(includer_path)),
+        include_name_as_written.substr(1, include_name_as_written.size() - 2));
+    const bool is_relative =
+        StartsWith(include_name_as_written, "\"") &&
+        NormalizeFilePath(relative_path) == NormalizeFilePath(includee_path);
+    if (!is_relative)
+      MutableGlobalIncludePicker()->AddMapping(include_name_as_written, map_to);
     // Relative includes can be problematic as map keys, because they are
     // context-dependent.  Convert it to a context-free quoted include
-    // (which may contain the full path to the file), and add that too.
+    // (which may contain the full path to the file), and add that.
     string map_from = ConvertToQuotedInclude(GetFilePath(includee));
-    if (map_from != include_name_as_written) {
+    if (is_relative || map_from != include_name_as_written) {
       VERRS(8) << "Adding dynamic mapping for export pragma (relative): "
                << "(" << GetFilePath(includee) << ") -> (" << includer_path
                << ")\n";
-- 
2.43.0


From 64fdbfb795a063b434ba76e100d88fb3374dd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 60/62] fix: headers are known by the names under which each
 file includes them

---
 iwyu_include_picker.cc | 10 ++++++++
 iwyu_include_picker.h  |  5 ++++
 iwyu_output.cc         | 56 ++++++++++++++++++++++++++++++++++++------
 iwyu_output.h          | 19 ++++++++------
 iwyu_preprocessor.cc   | 26 ++++++--------------
 iwyu_preprocessor.h    |  6 -----
 6 files changed, 83 insertions(+), 39 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index dd0dc0f..93d605f 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1806,6 +1806,16 @@ vector<string> IncludePicker::BestQuotedIncludesForIncluder(
   return retval;
 }
 
+string IncludePicker::GetIncludeName(const string& included_filepath,
+                                     const string& including_filepath) const {
+  const string name_as_written =
+      MaybeGetIncludeNameAsWritten(including_filepath, included_filepath);
+  if (!name_as_written.empty())
+    return name_as_written;
+  return ConvertToQuotedInclude(
+      included_filepath, MakeAbsolutePath(GetParentPath(including_filepath)));
+}
+
 vector<MappedInclude> IncludePicker::GetCandidateHeadersForSymbol(
     const string& symbol) const {
   CHECK_(has_called_finalize_added_include_lines_ && "Must finalize includes");
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 70f93b3..d2c5464 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -135,6 +135,11 @@ class IncludePicker {
 
   // ----- Include-picking API
 
+  // Returns the name by which the one file includes the other, or, if it
+  // doesn't include it directly, the name by which it would.
+  string GetIncludeName(const string& included_filepath,
+                        const string& including_filepath) const;
+
   // Returns the set of all public header files that 'provide' the
   // given symbol.  For instance, NULL can map to stddef.h, stdlib.h,
   // etc.  Most symbols don't have pre-defined headers they map to,
diff --git a/iwyu_output.cc b/iwyu_output.cc
index fd9079a..7587119 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -876,8 +876,11 @@ set<string> CalculateMinimalIncludes(
     // Special case #2: if the dfn-file maps to the use-file, then
     // this is a file that the use-file is re-exporting symbols for,
     // and we should keep the #include as-is.
-    const string use_file = ConvertToQuotedInclude(GetFilePath(use.use_loc()));
-    const string decl_file = ConvertToQuotedInclude(use.decl_filepath());
+    const IncludePicker& picker = GlobalIncludePicker();
+    const string use_path = GetFilePath(use.use_loc());
+    const string use_file = picker.GetIncludeName(use_path, use_path);
+    const string decl_file =
+        picker.GetIncludeName(use.decl_filepath(), use_path);
     if (use.PublicHeadersContain(use_file) &&
         ContainsKey(direct_includes, decl_file)) {
       use.set_suggested_header(decl_file);
@@ -1585,8 +1588,8 @@ void CalculateIwyuForForwardDeclareUse(
              << " (" << use->PrintableUseLoc() << ") is satisfied by dfn in "
              << PrintableLoc(GetLocation(providing_decl)) << "\n";
     // Mark that this use is another reason we want this header.
-    const string file = GetFilePath(dfn);
-    const string quoted_hdr = ConvertToQuotedInclude(file);
+    const string quoted_hdr = GlobalIncludePicker().GetIncludeName(
+        GetFilePath(dfn), GetFilePath(use->use_loc()));
     use->set_suggested_header(quoted_hdr);
   } else if (same_file_decl) {
     providing_decl = same_file_decl;
@@ -1712,6 +1715,44 @@ set<const NamedDecl*> IwyuFileInfo::AssociatedUndesiredForwardDecls() const {
   return undesired;
 }
 
+string IwyuFileInfo::GetIncludeName(OptionalFileEntryRef file) const {
+  return GlobalIncludePicker().GetIncludeName(GetFilePath(file),
+                                              GetFilePath(file_));
+}
+
+string IwyuFileInfo::FirstIncludeName(const IwyuFileInfo* associated) const {
+  for (const OneIncludeOrForwardDeclareLine& line : lines_) {
+    if (line.IsIncludeLine() && line.is_present() &&
+        line.included_file() == associated->file_)
+      return line.quoted_include();
+  }
+  return GetIncludeName(associated->file_);
+}
+
+set<string> IwyuFileInfo::AssociatedDesiredIncludes() const {
+  set<string> retval;
+  for (const IwyuFileInfo* associated : associated_headers_) {
+    set<string> desired = associated->desired_includes();
+    // The files might use different names for one header.
+    for (const OneIncludeOrForwardDeclareLine& line : associated->lines_) {
+      if (line.IsIncludeLine() && line.is_present() &&
+          ContainsKey(associated->desired_includes(), line.quoted_include())) {
+        desired.erase(line.quoted_include());
+        desired.insert(GetIncludeName(line.included_file()));
+      }
+    }
+    for (const OneIncludeOrForwardDeclareLine& line : lines_) {
+      if (line.IsIncludeLine() && line.is_present() &&
+          ContainsKey(associated->desired_includes(),
+                      associated->GetIncludeName(line.included_file()))) {
+        desired.insert(GetIncludeName(line.included_file()));
+      }
+    }
+    InsertAllInto(desired, &retval);
+  }
+  return retval;
+}
+
 void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   VERRS(6) << "--- Calculating IWYU violations for "
            << GetFilePath(file_) << " ---\n";
@@ -1735,7 +1776,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   // (C1) Compute the direct includes of 'associated' files.
   set<string> associated_direct_includes;
   for (const IwyuFileInfo* associated : associated_headers_) {
-    ReportIncludeFileUse(associated->file_, associated->quoted_file_);
+    ReportIncludeFileUse(associated->file_, FirstIncludeName(associated));
     InsertAllInto(associated->direct_includes(), &associated_direct_includes);
   }
   // The 'effective' direct includes are defined to be the current
@@ -1747,7 +1788,8 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   // (C2) + (C3) Find the minimal 'set cover' for all symbol uses.
   const set<string>& associated_desired_includes = AssociatedDesiredIncludes();
   const set<string> desired_set_cover = internal::CalculateMinimalIncludes(
-      quoted_file_, direct_includes(), associated_desired_includes, uses);
+      GetIncludeName(file_), direct_includes(), associated_desired_includes,
+      uses);
 
   // (C4) Remove .cc files from desired-includes unless they're in actual-inc.
   for (const string& header_name : desired_set_cover) {
@@ -1778,7 +1820,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
           AssociatedFileEntries(), associated_undesired_fwd_decls);
     } else {
       internal::CalculateIwyuForFullUse(
-          &use, effective_direct_includes, quoted_file_);
+          &use, effective_direct_includes, GetIncludeName(file_));
     }
   }
 }
diff --git a/iwyu_output.h b/iwyu_output.h
index 9dc47f7..fc0ae81 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -354,10 +354,17 @@ class IwyuFileInfo {
     return desired_includes_;
   }
 
+  // The name by which this file includes, or would include, the other one.
+  string GetIncludeName(clang::OptionalFileEntryRef file) const;
+
+  // The same, but if this file has several names for the associated header,
+  // the first one.
+  string FirstIncludeName(const IwyuFileInfo* associated) const;
+
   set<string> AssociatedQuotedIncludes() const {
     set<string> associated_quoted_includes;
     for (const IwyuFileInfo* associated : associated_headers_)
-      associated_quoted_includes.insert(associated->quoted_file_);
+      associated_quoted_includes.insert(FirstIncludeName(associated));
     return associated_quoted_includes;
   }
 
@@ -368,13 +375,9 @@ class IwyuFileInfo {
     return associated_file_entries;
   }
 
-  set<string> AssociatedDesiredIncludes() const {
-    set<string> associated_desired_includes;
-    for (const IwyuFileInfo* associated : associated_headers_)
-      InsertAllInto(associated->desired_includes(),
-                    &associated_desired_includes);
-    return associated_desired_includes;
-  }
+  // The desired includes of associated headers, by the names that this file
+  // would use for them.
+  set<string> AssociatedDesiredIncludes() const;
 
   // The fwd-declare lines of associated headers that we advise to remove, in
   // the form in which GetTagRedecls has them.
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2ab4d7e..7d8a18c 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -452,14 +452,6 @@ IwyuFileInfo* IwyuPreprocessorInfo::GetFromFileInfoMap(
   return iwyu_file_info;
 }
 
-void IwyuPreprocessorInfo::InsertIntoFileInfoMap(
-    OptionalFileEntryRef file, const string& quoted_include_name) {
-  if (!FindInMap(&iwyu_file_info_map_, file)) {
-    iwyu_file_info_map_.insert(
-        make_pair(file, IwyuFileInfo(file, this, quoted_include_name)));
-  }
-}
-
 // Sometimes, we can tell just by looking at an #include line
 // that iwyu should never recommend removing the #include.  For
 // instance, if it has an IWYU pragma saying to keep it.
@@ -555,16 +547,18 @@ void IwyuPreprocessorInfo::FinalizeProtectedIncludes() {
       if (GlobalIncludePicker().HasMapping(includee_path, includer_path)) {
         // If includer re-exports includee, that counts as a "use" of it, so
         // protect the include.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(
+            include,
+            GlobalIncludePicker().GetIncludeName(includee_path, includer_path));
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
             << includee_path << " (reason: re-exports)\n";
       } else if (always_keep_files_.count(include) > 0) {
         // Includee itself contains an "always_keep" pragma that protects it
         // from removal in all includers.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(
+            include,
+            GlobalIncludePicker().GetIncludeName(includee_path, includer_path));
         includer.ReportKnownDesiredFile(include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
@@ -602,12 +596,8 @@ void IwyuPreprocessorInfo::AddDirectInclude(
 
   GetFromFileInfoMap(includer)->AddInclude(
       includee, include_name_as_written, GetLineNumber(includer_loc));
-  // Make sure the includee has a file-info-map entry too.  The main file and
-  // prefix headers aren't included under any name; give them their usual one.
-  InsertIntoFileInfoMap(includee,
-                        include_name_as_written.empty()
-                            ? ConvertToQuotedInclude(GetFilePath(includee))
-                            : include_name_as_written);
+  // Make sure the includee has a file-info-map entry too.
+  GetFromFileInfoMap(includee);
 
   // The first #include in every translation unit might be a precompiled header
   // and we need to mark it as such for later analysis.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 39adbff..4e78e01 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -237,12 +237,6 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   bool BelongsToMainCompilationUnit(clang::OptionalFileEntryRef includer,
                                     clang::OptionalFileEntryRef includee) const;
 
-  // Creates a new iwyu_file_info_map_[file_entry] if it doesn't exist,
-  // or a noop otherwise.  quoted_include_name is used to create the
-  // new entry if necessary.
-  void InsertIntoFileInfoMap(clang::OptionalFileEntryRef file,
-                             const string& quoted_include_name);
-
   // Helper function that returns iwyu_file_info_map_[file_entry] if
   // it already exists, or creates a new one and returns it otherwise.
   // If it creates a new one, it generates the quoted_include_name
-- 
2.43.0


From 951292b63758a879fea10adbbbb1a3c4bd3c5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 61/62] fix: what expressions in declarations need is not just
 a declaration

---
 iwyu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 6a67a29..daab4eb 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4454,6 +4454,16 @@ class IwyuAstConsumer
 
   // --- Visitors of types derived from Stmt.
 
+  // Whatever an expression needs, it needs right here, even if it is only part
+  // of something that is merely declared, like a default argument or a type
+  // alias.
+  bool VisitExpr(Expr*) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    current_ast_node()->set_in_forward_declare_context(false);
+    return true;
+  }
+
   // Called whenever a variable, function, enum, etc is used.
   bool VisitDeclRefExpr(DeclRefExpr* expr) {
     if (CanIgnoreCurrentASTNode())
-- 
2.43.0


From f8a5a8093160afb203e278c75616880a413f35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 62/62] fix: declarations of types that can't be
 forward-declared elsewhere are not needless where there is no definition to
 include

---
 iwyu_output.cc | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 7587119..1b36398 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -841,6 +841,29 @@ bool DeclIsVisibleToUseInSameFile(const Decl* decl, const OneUse& use) {
            (use.flags() & UF_InCxxMethodBody)));
 }
 
+// Whether this is a class or enum which is not nested in a class or function.
+bool IsNamespaceLevelType(const Decl* decl) {
+  return (isa<TagDecl>(decl) || isa<ClassTemplateDecl>(decl)) &&
+         decl->getDeclContext()->getRedeclContext()->isFileContext();
+}
+
+// Whether this is such a type that has no definition.
+bool IsUndefinedType(const Decl* decl) {
+  return IsNamespaceLevelType(decl) && GetTagDefinition(decl) == nullptr;
+}
+
+// Whether a declaration of the used class or enum precedes (see above) the use
+// in the same file.
+bool HasVisibleTypeDeclInSameFile(const OneUse& use) {
+  if (!IsNamespaceLevelType(use.decl()))
+    return false;
+  for (const Decl* redecl : use.decl()->redecls()) {
+    if (DeclIsVisibleToUseInSameFile(redecl, use))
+      return true;
+  }
+  return false;
+}
+
 // This makes a best-effort attempt to find the smallest set of
 // #include files that satisfy all uses.  A more accurate name
 // might be "calculate minimal-ish includes". :-)  It populates
@@ -1056,6 +1079,8 @@ set<string> CalculateMinimalIncludes(
 //     which are effectively built-in even though they're in <new>.
 // B5) Discard symbol uses for member functions that live in the same
 //     file as the class they're part of (the parent check suffices).
+//     If a type is declared here but no #include can define it, change the
+//     full use to a forward-declare use, as in B2.
 // B6) Sanity check: Discard 'backwards' #includes.  These are
 //     #includes where we say a.h should #include b.h, but b.h is
 //     already #including a.h.  This happens when iwyu attributes a
@@ -1343,7 +1368,8 @@ void ProcessFullUse(OneUse* use, const IwyuPreprocessorInfo* preprocessor_info,
     else
       all_redecls = GetNonTagRedecls(use->decl());
     for (const NamedDecl* redecl : all_redecls) {
-      if (DeclIsVisibleToUseInSameFile(redecl, *use)) {
+      if (DeclIsVisibleToUseInSameFile(redecl, *use) &&
+          !IsUndefinedType(redecl)) {
         VERRS(6) << "Ignoring use of " << use->symbol_name() << " ("
                  << use->PrintableUseLoc() << "): definition is present: "
                  << PrintableLoc(use->decl_loc()) << "\n";
@@ -1422,6 +1448,22 @@ void ProcessFullUse(OneUse* use, const IwyuPreprocessorInfo* preprocessor_info,
     }
   }
 
+  // If no #include can provide the definition of a type, and a declaration of
+  // it is already here, don't lose that: this is a forward-declare use, even of
+  // types which can't be forward-declared elsewhere (those in inline
+  // namespaces, for example).
+  if (preprocessor_info->FileTransitivelyIncludes(
+          GetFileEntry(use->decl()), GetFileEntry(use->use_loc())) &&
+      HasVisibleTypeDeclInSameFile(*use) &&
+      !preprocessor_info->ForwardDeclareIsInhibited(
+          GetFileEntry(use->use_loc()), use->symbol_name())) {
+    VERRS(6) << "Moving " << use->symbol_name()
+             << " from full use to fwd-decl: no definition can be #included"
+             << " (" << use->PrintableUseLoc() << ")\n";
+    use->set_forward_declare_use();
+    return;
+  }
+
   // (B6) Discard uses of symbols that form a 'backwards' #include.
   // This means that we say a.h is using a symbol in b.h, but b.h
   // already #includes a.h (either directly or indirectly).  Since the
-- 
2.43.0

