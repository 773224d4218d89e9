From 127b0fe2da1a17d6b589f964732075cf5d1933a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 01/84] fix: do not finish the search while there are objects
 on their way in the queue

---
 libff/walk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index 16e31e2..d07ff24 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -91,6 +91,10 @@ class FilesystemWalker(BaseClass):
                 try:
                     objs = self.queue.get(timeout=TIMEOUT)
                 except queue.Empty:
+                    # The queue hands over objects asynchronously, so there may still be some on
+                    # their way.
+                    if self.queue.qsize() > 0:
+                        continue
                     if self.context.barrier_wait():
                         break
                     else:
-- 
2.43.0


From 28ad0b4c960ced8c20c8c012223a7197ab619d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 02/84] fix: collect the entries that are still on their way
 when the search has finished

---
 libff/processing.py | 47 +++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..f5ecc51 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -121,6 +121,21 @@ class BaseProcessing(BaseClass):
         """
         return self.context.barrier_wait(timeout) or self.check_for_failed_processes()
 
+    def iter_queue(self, out_queue):
+        """Yield lists of entries from a queue filled by the processes until processing is done.
+        """
+        done = False
+        while True:
+            is_alive = any(process.is_alive() for process in self.walker.processes)
+            try:
+                yield out_queue.get(timeout=TIMEOUT)
+            except queue.Empty:
+                # The queue hands over entries asynchronously, so there may still be some on their
+                # way although processing is done.
+                done = done or self.processing_done()
+                if done and (out_queue.qsize() == 0 or not is_alive or self.context.is_stopping()):
+                    break
+
     def process(self, entries):
         """Process a chunk of Entry objects.
         """
@@ -235,15 +250,7 @@ class CollectiveMixin(BaseProcessing):
             return self.entries[start:stop]
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_queue(self.out_queue):
             if self.args.count is not None:
                 self.collect_count(entries)
 
@@ -411,15 +418,9 @@ class ImmediateGenerator(ImmediateBaseProcessing):
         self.out_queue.put(entries)
 
     def __iter__(self):
-        while True:
-            try:
-                for entry in self.out_queue.get(timeout=TIMEOUT):
-                    yield self.args.output.to_dict(entry)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
+        for entries in self.iter_queue(self.out_queue):
+            for entry in entries:
+                yield self.args.output.to_dict(entry)
 
 
 class CollectiveGenerator(ImmediateGenerator):
@@ -432,15 +433,7 @@ class CollectiveGenerator(ImmediateGenerator):
         self.entries = []
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_queue(self.out_queue):
             self.entries += entries
 
     def finalize(self):
-- 
2.43.0


From c55e6dcc7f1c4f756c587b2c30e7fe1e6dc64cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 03/84] fix: do not block in Context.stop() if several
 processes stop at the same time

---
 libff/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..1ac52a3 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -18,6 +18,7 @@
 #
 # -----------------------------------------------------------------------
 
+import queue
 import threading
 import subprocess
 import multiprocessing
@@ -140,7 +141,11 @@ class Context:
         """Stop all processes immediately.
         """
         if not self.is_stopping():
-            self.stop_queue.put(None)
+            try:
+                self.stop_queue.put_nowait(None)
+            except queue.Full:
+                # Others have been faster.
+                pass
 
     def run_exec_process(self, args):
         """Run a subprocess with the arguments from --exec. If the process fails, terminate the
-- 
2.43.0


From a538e9c6db2372b23a1a344ea5e17ee927816814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 04/84] fix: do not mix up long records from different
 processes in the output

---
 libff/console.py | 28 +++++++++++++++-------------
 libff/context.py |  4 ++++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..1ade4a3 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -78,9 +78,10 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
-        print()
-        sys.stdout.flush()
+        with self.context.output_lock:
+            json.dump(record, sys.stdout)
+            print()
+            sys.stdout.flush()
 
 
 class JsonConsole(JsonlConsole):
@@ -241,16 +242,17 @@ class Console(BaseConsole):
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
         """
-        try:
-            print(line, end=self.args.newline)
-        except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                    end=self.args.newline)
-
-        # If we don't flush stdout, printed results may be lost. That is because when the main
-        # process exits, all multiprocessing processes vanish instantly without pending output
-        # buffers being written.
-        sys.stdout.flush()
+        with self.context.output_lock:
+            try:
+                print(line, end=self.args.newline)
+            except UnicodeEncodeError:
+                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+                        end=self.args.newline)
+
+            # If we don't flush stdout, printed results may be lost. That is because when the main
+            # process exits, all multiprocessing processes vanish instantly without pending output
+            # buffers being written.
+            sys.stdout.flush()
 
 
 class ColorConsole(Console):
diff --git a/libff/context.py b/libff/context.py
index 1ac52a3..f72cf90 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -48,6 +48,7 @@ class Context:
         self.processing = None
 
         self.global_lock = None
+        self.output_lock = None
         self.stop_queue = None
         self.barrier = None
         self.exitcode_object = None
@@ -64,6 +65,9 @@ class Context:
         """
         self.global_lock = multiprocessing.Lock()
 
+        # Only one process at a time is allowed to print a result to standard output.
+        self.output_lock = multiprocessing.Lock()
+
         # We use a Queue object to emulate a stop event, because multiprocessing.Event did not work
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
-- 
2.43.0


From 836d03a11c2bfa019ca390b16b9edb28c4c865d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 05/84] fix: resolve absolute symlinks in subdirectories
 correctly

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..5d92851 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -133,7 +133,7 @@ class Entry:
         # Collect information early to avoid having OSErrors later on.
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
-            self.target = os.path.realpath(join(self.dir, self.link))
+            self.target = os.path.realpath(os.path.join(self.dir, self.link))
             self.broken = not os.path.exists(self.target)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
-- 
2.43.0


From 149b2277ddd53946774f418017d8ad308ff12d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 06/84] fix: let version sort handle digits that are no decimal
 numbers

---
 libff/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..9f1d073 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -135,7 +135,7 @@ class SortFields(OutputFields):
         while component:
             comp, ext = os.path.splitext(component)
             ext = ext.lstrip(os.extsep)
-            if not ext or ext[0].isdigit():
+            if not ext or ext[0].isdecimal():
                 break
             component = comp
             extensions.insert(0, ext)
@@ -143,11 +143,11 @@ class SortFields(OutputFields):
         # Split the component into string and number parts. Make sure the list starts with a
         # string.
         parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
+        if parts[0].isdecimal():
             parts.insert(0, "")
 
         # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
+        yield [int(p) if p.isdecimal() else p for p in parts]
 
         # Yield extensions separately.
         if extensions:
-- 
2.43.0


From af8d60efa5644dfa7ebaecfe312918bce672b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 07/84] fix: let version sort compare extensions with path
 components

---
 libff/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 9f1d073..8081a0d 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -149,9 +149,10 @@ class SortFields(OutputFields):
         # Yield a list of tokens with all numbers converted to ints.
         yield [int(p) if p.isdecimal() else p for p in parts]
 
-        # Yield extensions separately.
+        # Yield extensions separately. Separate them by numbers, so that they can be compared to the
+        # tokens of a component.
         if extensions:
-            yield extensions
+            yield [p for ext in extensions for p in (ext, -1)]
 
     def prepare_sort_key(self, value):
         """Prepare a sort key from a path for natural/version sorting.
-- 
2.43.0


From 8f76812dd221a34997c94342c3c7c8556a3e2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 08/84] fix: let version sort handle missing values and
 attributes that are no strings

---
 libff/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 8081a0d..a48e0af 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -172,12 +172,12 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
+                value = field.type.sort_none
             else:
                 value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+            if field.modifier == "v" and isinstance(value, str):
+                value = self.prepare_sort_key(value) if value else []
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From 8d132437ebcc8b1dc0eb8b34c32ca7d34c4b991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 09/84] fix: make the sort order independent of the order in
 which entries are found

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index a48e0af..af6401a 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -178,6 +178,9 @@ class SortFields(OutputFields):
             if field.modifier == "v" and isinstance(value, str):
                 value = self.prepare_sort_key(value) if value else []
             output.append(value)
+        # Make sure that the order of otherwise equal entries does not depend on the order in which
+        # they were found.
+        output.append(entry.path)
         return tuple(output)
 
 
-- 
2.43.0


From 3e4e76fa7e660b2131a152307f6ba8ac835675d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 10/84] fix: print counts of values that are a mixture of
 numbers and strings

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index f5ecc51..81c9d33 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -337,7 +337,7 @@ class CollectiveMixin(BaseProcessing):
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
+                            key=lambda t: (0, int(t[0]), t[0]) if t[0].isdecimal() else (1, 0, t[0])):
                         print(f"{key}[{k}]={v}")
                 else:
                     print(f"{key}={value}")
-- 
2.43.0


From 18f1d753f1e988211542673ac63635cf65095bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 11/84] fix: print the total count if there are no results

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 81c9d33..5046d49 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -235,7 +235,7 @@ class CollectiveMixin(BaseProcessing):
 
         self.out_queue = multiprocessing.Queue()
         self.entries = []
-        self.count = collections.Counter()
+        self.count = collections.Counter(_total=0)
 
     def process(self, entries):
         self.out_queue.put(entries)
-- 
2.43.0


From 18f45513141bdf7ead26b5a1f8fca13f6d476006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 12/84] fix: do not count an attribute twice that is specified
 twice

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 5046d49..140930e 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -278,7 +278,7 @@ class CollectiveMixin(BaseProcessing):
             # Count the total number of entries found.
             self.count["_total"] += 1
 
-            for field in self.args.count:
+            for field in dict.fromkeys(self.args.count):
                 try:
                     value = self.registry.get_attribute(entry, field.attribute)
                 except KeyError:
-- 
2.43.0


From 8695615aa97f3c5f30c568dd45d063c948b16eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 13/84] fix: reject invalid boolean values with an error
 message

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..30288ad 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -444,7 +444,8 @@ class Boolean(Type):
 
     @classmethod
     def input(cls, value):
-        assert value.lower() in cls.true + cls.false
+        if value.lower() not in cls.true + cls.false:
+            raise ValueError(f"unable to parse {value!r}")
         return value.lower() in cls.true
 
     @classmethod
-- 
2.43.0


From dec882b467a7c25d490bf199767cfce07e83096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 14/84] fix: stop quietly if standard output is closed while
 processes print their results

---
 libff/walk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index d07ff24..f8e7715 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -124,6 +124,10 @@ class FilesystemWalker(BaseClass):
 
             self.cache.close()
 
+        except BrokenPipeError:
+            # Nobody is interested in the output any longer.
+            self.context.stop()
+
         except Exception:
             # Terminate all processes if an unexpected error occurs.
             self.context.set_exitcode(EX_PROCESS)
-- 
2.43.0


From ea6b57da9c344dc1237133219f126ed683095504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 15/84] fix: let the tar plugin skip files that are no valid
 tar archives

---
 plugins/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/tar.py b/plugins/tar.py
index 006867a..8268c72 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -52,7 +52,7 @@ class Tar(Plugin):
         try:
             with tarfile.open(entry.path) as tar:
                 return set(name for name in tar.getnames())
-        except (OSError, EOFError) as exc:
+        except (OSError, EOFError, tarfile.TarError) as exc:
             raise NoData from exc
 
     def process(self, entry, cached):
-- 
2.43.0


From 8ad6d7c59252d244af6c49f5b41784e66cc29642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 16/84] fix: allow attributes with set values in the JSON
 output

---
 libff/console.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 1ade4a3..2ab528a 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -79,7 +79,7 @@ class JsonlConsole(BaseConsole):
         """Dump a newline delimited JSON object to standard output.
         """
         with self.context.output_lock:
-            json.dump(record, sys.stdout)
+            json.dump(record, sys.stdout, default=sorted)
             print()
             sys.stdout.flush()
 
@@ -99,7 +99,7 @@ class JsonConsole(JsonlConsole):
         """
         if self.print_comma:
             print(",", end="")
-        json.dump(record, sys.stdout)
+        json.dump(record, sys.stdout, default=sorted)
         self.print_comma = True
 
     def close(self):
-- 
2.43.0


From feb96d599212e1abe5d5e6fa1363a53273845cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 17/84] fix: reject symbolic modes with trailing garbage

---
 libff/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 30288ad..05c2396 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -285,7 +285,7 @@ class Mode(Type):
     sort_none = 0
     count = Count.COUNT
 
-    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)$")
+    regex = re.compile(r"(?:([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+))$")
 
     MODE_ALL = stat.S_ISUID | stat.S_ISGID | stat.S_ISVTX | \
                stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO
-- 
2.43.0


From c8b4ec6ad46d6f5287c74355662e034de48e68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 18/84] fix: evaluate each part of a list of symbolic modes
 separately

---
 libff/type.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 05c2396..bed7b6f 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -295,9 +295,9 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            affected = 0
             val = 0
 
             match = cls.regex.match(part)
@@ -346,12 +346,16 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
-            if operator in "+=":
+            val &= affected
+
+            if operator == "=":
+                result = result & ~affected | val
+            elif operator == "+":
                 result |= val
             elif operator == "-":
                 result &= ~val
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From f5d99be3c527dd81e04f283724213658c7155f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 19/84] fix: reject durations with an invalid unit

---
 libff/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..8ddb3cd 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -107,6 +107,8 @@ def parse_duration(string):
         end = match.end(1) + 1
 
         count, unit = match.groups()
+        if unit is None:
+            raise ValueError(f"unable to parse {string!r}")
         count = int(count)
 
         if unit == "s":
-- 
2.43.0


From d0e6776ca3886c30460aa30f978b58468bf784db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 20/84] fix: reject empty expressions around OR inside brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..2a6b446 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From c9d1dc8b0996344ea66adc4624cf10797583b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 21/84] fix: do not add an empty argument to an option at the
 end of a bundle of short options

---
 libff/argparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..42db203 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -359,7 +359,8 @@ class ArgumentParser:
 
             if option.action in ("store", "store_optional", "append"):
                 argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+                if arg[1:]:
+                    argv.insert(i + 1, arg[1:])
                 break
             else:
                 argv.insert(i, short_option)
-- 
2.43.0


From 95c8c9ca7933035ed21793db67db0d68115dbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 22/84] fix: report invalid option arguments as usage errors

---
 libff/argparse.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 42db203..59ce0de 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -415,13 +415,26 @@ class ArgumentParser:
 
         return self.namespace
 
+    def convert_argument(self, option, string):
+        """Convert an argument to the type of the option and check if it is valid.
+        """
+        try:
+            value = option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr}: {exc}") from exc
+
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr} "\
+                    f"(choose from {', '.join(option.choices)})")
+        return value
+
     def get_argument(self, option, argv):
         """Fetch the next argument from the argument list.
         """
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -429,7 +442,7 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 606ad1d52c5b0b512bb6677ebfc2338af7cb1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 23/84] fix: do not skip the ignore files from the direct
 parent of a start directory

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..01ad094 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -162,7 +162,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From 40e87a1001bb4886ea37813ac3cffd4a3612a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 24/84] fix: report start directories that do not exist as
 usage errors

---
 libff/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 01ad094..b0696c5 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -173,7 +173,12 @@ class _Base(BaseClass):
                     self.logger.debug("info",
                             f"    found ignorefile in parent: {ignore}")
 
-            walker.put([Directory(StartDirectory(self.context.args, path), "", ignores)])
+            try:
+                start_directory = StartDirectory(self.context.args, path)
+            except OSError as exc:
+                raise UsageError(f"unable to search {path!r}: {exc.strerror}") from exc
+
+            walker.put([Directory(start_directory, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
         """Set up context, components, processing and walkers.
-- 
2.43.0


From e5746e51f830303335173328436e03d842038c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 25/84] fix: do not lose entries silently if the command line
 is too long even for a single entry

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 140930e..3069651 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -381,7 +381,7 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
                 except OSError as exc:
-                    if exc.errno == errno.E2BIG:
+                    if exc.errno == errno.E2BIG and len(entries) > 1:
                         # As long as the command line is too long to pass to a subprocess, split
                         # the list of entries list in two and try again. This is much easier than
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
-- 
2.43.0


From f9140ae17c46fba7411239b1b8d7df30a423889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 26/84] fix: do not remove cache tables of plugins with a
 similar name

---
 libff/cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..379f07c 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -114,7 +114,10 @@ class Cache(NullCache):
                 (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
 
         # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
+        # Please note that the underscore is a wildcard in the query above.
+        prefix = plugin_cls.sql_table_name.rstrip(string.digits)
+        tables = set(row[0] for row in curs if row[0].startswith(prefix) and
+                row[0][len(prefix):].isdigit())
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
-- 
2.43.0


From 7a445ef0cce9195f0d0a9b3fcef24832901e7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 27/84] fix: allow several instances to create the tables of
 the cache at the same time

---
 libff/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 379f07c..e961cbf 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -128,15 +128,15 @@ class Cache(NullCache):
         for table in tables:
             if __debug__:
                 self.logger.debug("cache", f"Removing old cache table {table!r}")
-            self.conn.execute(f"drop table {table}")
+            self.conn.execute(f"drop table if exists {table}")
 
     def get_sql_create_table(self, plugin_cls):
         """Return the statements needed to create a table for a specific Plugin class.
         """
         table_name = plugin_cls.sql_table_name
-        yield f"create table {table_name} "\
+        yield f"create table if not exists {table_name} "\
                 "(path text not null primary key, tag blob not null, data blob not null)"
-        yield f"create index {table_name}_idx on {table_name} (path, tag)"
+        yield f"create index if not exists {table_name}_idx on {table_name} (path, tag)"
 
     def get(self, plugin, path, tag):
         """Return a row of cached values.
-- 
2.43.0


From 5fdb9337073f5fd2dcfa9d02db6c1ff7a41d8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 28/84] fix: set up the plugins separately for each search

---
 libff/cache.py    | 4 ++--
 libff/registry.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index e961cbf..5ac65a4 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -64,8 +64,6 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
@@ -74,6 +72,8 @@ class Cache(NullCache):
 
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
+        self.registered = {}
+
         self.num_cached_rows = 0
         self.last_commit = time.time()
         self.cached_rows = {}
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..c179332 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,12 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        self.plugins = {}
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From 66d845fb861a8742b58241ffb378e7b80b735a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 29/84] fix: do not change the meaning of regular expressions
 if the case is ignored

---
 libff/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/parser.py b/libff/parser.py
index 2a6b446..088d8e8 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,13 +306,14 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
+            # The case of a regular expression has a meaning, e.g. \d and \D.
+            if ignore_case and operator != "~":
                 value = value.lower()
 
             # Pre-compile regular expressions.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
-- 
2.43.0


From 6fdcbac46f7b89ed22828b4506491208651fa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 30/84] fix: parse file sizes in units of 1K=1000 bytes if --si
 is specified

---
 libff/convert.py | 8 +++++---
 libff/parser.py  | 4 +++-
 libff/type.py    | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 8ddb3cd..f472d77 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -51,8 +51,9 @@ regex = re.compile(r"(\d+)b?$|(\d+(?:[\.]\d+)?)(" + \
         f"{'|'.join(unit + 'iB' for unit in UNITS if unit)}" + \
         ")?$", re.IGNORECASE)
 
-def parse_size(string):
-    """Convert a string denoting a file size to an integer.
+def parse_size(string, base=1024):
+    """Convert a string denoting a file size to an integer. Units without a suffix (e.g. 'K') are
+       multiples of base.
     """
     string = string.upper()
 
@@ -70,7 +71,8 @@ def parse_size(string):
         suffix = unit[1:]
 
         exp = UNITS.index(prefix)
-        base = 1000 if suffix == "B" else 1024
+        if suffix:
+            base = 1000 if suffix == "B" else 1024
         return int(float(number) * base ** exp)
     else:
         return int(number_in_bytes)
diff --git a/libff/parser.py b/libff/parser.py
index 088d8e8..44b33d7 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -22,7 +22,7 @@ import re
 import collections
 
 from . import BaseClass
-from .type import Path, Type
+from .type import Path, Size, Type
 from .entry import Entry
 from .ignore import Glob
 from .attribute import Attribute
@@ -285,6 +285,8 @@ class Parser(BaseClass):
             # from after evaluating the reference.
             if reference is not None:
                 value = self.get_reference_value(type_cls, attribute, reference, value)
+            elif type_cls is Size:
+                value = type_cls.input(value, self.args.si)
             else:
                 value = type_cls.input(value)
 
diff --git a/libff/type.py b/libff/type.py
index bed7b6f..3a53158 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -388,8 +388,9 @@ class Size(Number):
     count = Count.TOTAL
 
     @classmethod
-    def input(cls, value):
-        return parse_size(value)
+    def input(cls, value, si=False):
+        # pylint:disable=arguments-differ
+        return parse_size(value, base=1000 if si else 1024)
 
     @classmethod
     def output(cls, args, modifier, value):
-- 
2.43.0


From 11711a93820ead4c94b66858b54eed3078196b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 31/84] fix: find start directories at both ends of the list of
 tests

---
 libff/arguments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..049c21b 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,10 +245,11 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
+            for index in (0, -1):
+                while self.args.tests:
+                    test = self.args.tests[index]
                     if os.sep in test and os.path.isdir(test):
-                        self.args.tests.remove(test)
+                        del self.args.tests[index]
                         directory = os.path.normpath(test)
                         self.args.directories.append(directory)
                     else:
-- 
2.43.0


From bfa3d7790cc1a30d18f669cc5544c2067ff0c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 32/84] fix: use the device of the directory a start directory
 link points to

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 5d92851..c8e2fb4 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -77,7 +77,8 @@ class StartDirectory:
     def __init__(self, args, root):
         self.root = root
         self.absroot = os.path.abspath(root)
-        self.status = os.stat(self.root, follow_symlinks=args.follow_symlinks)
+        # A start directory may be a symbolic link to a directory, it is always followed.
+        self.status = os.stat(self.root)
         self.device = self.status.st_dev
 
 
-- 
2.43.0


From af5ac13164dd290f0ffa6ee3490446560d5a1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 33/84] fix: allow reference files in the current directory
 outside of the search area

---
 libff/entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libff/entry.py b/libff/entry.py
index c8e2fb4..495c220 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -111,6 +111,7 @@ class Entry:
                 break
         else:
             directory, relpath = split(path)
+            directory = directory or "."
 
         start_directory = StartDirectory(args, directory)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
-- 
2.43.0


From c0e4c1aaa83ea438717729f157b2fc99931a4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 34/84] fix: report start directories that are no directories
 as an error

---
 libff/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/main.py b/libff/main.py
index b0696c5..39816fb 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import stat
 import sys
 import pstats
 import cProfile
@@ -178,6 +179,9 @@ class _Base(BaseClass):
             except OSError as exc:
                 raise UsageError(f"unable to search {path!r}: {exc.strerror}") from exc
 
+            if not stat.S_ISDIR(start_directory.status.st_mode):
+                raise UsageError(f"unable to search {path!r}: Not a directory")
+
             walker.put([Directory(start_directory, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
-- 
2.43.0


From 6336d4b91cadd3d91a5bc31ca1547c953423117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 35/84] fix: translate glob patterns as described in
 gitignore(5)

---
 libff/ignore.py | 107 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 25 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..aaca841 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -20,6 +20,7 @@
 
 import os
 import re
+import sys
 import collections
 
 from .path import join
@@ -33,6 +34,26 @@ class Glob:
     """A single gitignore-style pattern.
     """
 
+    # A pattern consists of bracket expressions, wildcards and (escaped) characters.
+    regex_char = r"(?:\[:[^\]:]*:\]|\\.|(?!\[:[^\]:]*:\])[^\]\\])"
+    regex_token = re.compile(r"\[(?P<negate>[!^]|(?![!^]))"\
+            rf"(?P<chars>(?:\]|{regex_char}){regex_char}*)\]|\*+|\?|\[|\\?(?P<char>.)", re.S)
+
+    # A bracket expression consists of character classes, ranges and single characters.
+    regex_bracket = re.compile(r"\[:(?P<name>[^\]:]*):\]|"\
+            r"(?P<start>\\.|.)(?:-(?P<stop>\\.|.))?", re.S)
+
+    # The (ASCII-only) character classes known to gitignore(5).
+    char_classes = {
+        "alnum": "0-9A-Za-z", "alpha": "A-Za-z", "blank": r" \t", "cntrl": r"\x00-\x1f\x7f",
+        "digit": "0-9", "graph": "!-~", "lower": "a-z", "print": " -~",
+        "punct": r"!-/:-@\[-`{-~", "space": r" \t\n\r\f\v", "upper": "A-Z",
+        "xdigit": "0-9A-Fa-f",
+    }
+
+    # A regular expression that never matches.
+    no_match = "(?!)"
+
     def __init__(self, pattern, path_pattern=True):
         self.pattern = pattern
 
@@ -52,10 +73,6 @@ class Glob:
     def translate(pattern, path_pattern=True):
         """Translate the pattern to a regular expression.
         """
-        # pylint:disable=too-many-branches
-        if pattern.startswith(r"\#"):
-            pattern = pattern[1:]
-
         # Shall the match be inverted?
         if pattern.startswith("!"):
             include = False
@@ -63,9 +80,6 @@ class Glob:
         else:
             include = True
 
-        if pattern.startswith(r"\!"):
-            pattern = pattern[1:]
-
         # Is there a slash at the beginning or in the middle of the pattern? Then the whole path
         # relative to the directory of the ignore file is matched against.
         if path_pattern:
@@ -89,26 +103,62 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
-            if part == "/**/":
-                part = "(?:/|/.+/)"
-            elif part == "**/":
-                part = "(?:.+/)?"
-            elif part == "/**":
-                part = "(?:/.+)?"
-            elif part == "*":
+        pos = 0
+        while pos < len(pattern):
+            match = Glob.regex_token.match(pattern, pos)
+            token = match.group()
+            if token.startswith("**") and anchored and \
+                    (pos == 0 or pattern[pos - 1] == "/") and \
+                    (match.end() == len(pattern) or pattern[match.end()] == "/"):
+                if match.end() < len(pattern):
+                    # Swallow the following slash.
+                    part = "(?s:.+/)?"
+                    token += "/"
+                elif parts and parts[-1] == "/":
+                    parts.pop()
+                    part = "(?s:/.+)?"
+                else:
+                    part = "(?s:.+)"
+            elif token.startswith("*"):
                 part = "[^/]*"
-            elif part == "?":
+            elif token == "?":
                 part = "[^/]"
-            elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
-            elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+            elif token in ("[", "\\"):
+                # A pattern with an unclosed bracket or a single backslash at the end is invalid.
+                part = Glob.no_match
+            elif token.startswith("["):
+                part = Glob.translate_bracket(match.group("negate"), match.group("chars"))
             else:
-                part = re.escape(part)
+                part = re.escape(match.group("char"))
             parts.append(part)
+            pos += len(token)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
+
+    @staticmethod
+    def translate_bracket(negate, chars):
+        """Translate a bracket expression to a regular expression.
+        """
+        items = []
+        for match in Glob.regex_bracket.finditer(chars):
+            if match.group("name"):
+                if match.group("name") not in Glob.char_classes:
+                    return Glob.no_match
+                items.append(Glob.char_classes[match.group("name")])
+            elif match.group("stop"):
+                start = match.group("start")[-1]
+                stop = match.group("stop")[-1]
+                if start <= stop:
+                    items.append(f"{re.escape(start)}-{re.escape(stop)}")
+            else:
+                items.append(re.escape(match.group("start")[-1]))
+
+        if negate:
+            return f"[^/{''.join(items)}]"
+        elif items:
+            return f"(?!/)[{''.join(items)}]"
+        else:
+            return Glob.no_match
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
@@ -146,6 +196,9 @@ class GitIgnore:
     # in the manpage yet. It does not read $GIT_DIR/info/exclude or read core.excludesFile from the
     # git(1) configuration.
 
+    # Trailing spaces are stripped unless they are quoted.
+    regex_line = re.compile(r"((?:\\.|.)*?) *", re.S)
+
     @classmethod
     def from_parent_directories(cls, ignore_files, path):
         """Return a list of GitIgnore objects from the parent directories of 'path'.
@@ -168,8 +221,8 @@ class GitIgnore:
         self.dirname = dirname
         self.path = join(dirname, name)
 
-        # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        with open(self.path, encoding=sys.getfilesystemencoding(), errors="surrogateescape",
+                newline="\n") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
@@ -180,7 +233,11 @@ class GitIgnore:
         self.patterns = []
         key = None
         for line in self.lines:
-            pattern = line.strip()
+            if line.endswith("\n"):
+                line = line[:-1]
+            if line.endswith("\r"):
+                line = line[:-1]
+            pattern = self.regex_line.fullmatch(line).group(1)
             if not pattern or pattern.startswith("#"):
                 continue
 
-- 
2.43.0


From 0dbc241600483360c0682645e87563454828c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 36/84] fix: match glob patterns against the basename of the
 attribute's value

---
 libff/type.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 3a53158..0353df1 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -170,10 +170,7 @@ class Path(String):
             value = value.lower()
 
         if test.operator == "%":
-            basename = entry.name.lower() if test.ignore_case else entry.name
-            is_dir = entry.is_dir()
-
-            if test.value.match(value, basename, is_dir):
+            if test.value.match(value, os.path.basename(value), entry.is_dir()):
                 return test.value.include
             else:
                 return not test.value.include
-- 
2.43.0


From c08bf114c8e8e8a8dc63a4c7b07064f4c7767a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 37/84] fix: accept newlines in the values of tests

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 44b33d7..b6c0231 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -94,7 +94,7 @@ class Parser(BaseClass):
     expression_regex = re.compile(r"^\s*((?:\w+\.)?\w+?)\s*"\
                                   r"(=|:|~|%|>=|>|<=|<|\+=|\+|\-=|\-)"\
                                   r"(\{(?:\w+\.)?\w+?\}|\{\})?"\
-                                  r"\s*(.+)\s*$")
+                                  r"\s*(.+)\s*\Z", re.DOTALL)
 
     def __init__(self, context, tokens):
         super().__init__(context)
-- 
2.43.0


From bb4dd66ccd8136071d03757d23ab31704aee2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 38/84] fix: give sets of strings a fixed order in output and
 sorting

---
 libff/type.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 0353df1..4ce7306 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -229,7 +229,7 @@ class ListOfStrings(Type):
 
     @classmethod
     def output(cls, args, modifier, value):
-        return ",".join(value)
+        return ",".join(cls.sort_key(value))
 
     @classmethod
     def check_type(cls, value):
@@ -237,6 +237,11 @@ class ListOfStrings(Type):
             return False
         return all(isinstance(v, type(String.sort_none)) for v in value)
 
+    @classmethod
+    def sort_key(cls, value):
+        # Sets have no order of their own.
+        return sorted(value) if isinstance(value, set) else value
+
 
 class Number(Type):
     """Simple number. Examples: 'file.uid=1000' 'file.links+=2'
-- 
2.43.0


From 23e145cd97aaa141bcbc865356c98e099f82c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 39/84] fix: escape characters that cannot be encoded in the
 output of --count

---
 libff/console.py    | 18 +++++++++++-------
 libff/processing.py |  6 +++---
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 2ab528a..3affbbb 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -29,6 +29,16 @@ Field = collections.namedtuple("Field", "attribute width modifier")
 String = collections.namedtuple("String", "value length")
 
 
+def print_line(line, end="\n"):
+    """Print a line to standard output. Characters that cannot be encoded are escaped.
+    """
+    try:
+        print(line, end=end)
+    except UnicodeEncodeError:
+        encoding = sys.stdout.encoding
+        print(line.encode(encoding, "backslashreplace").decode(encoding), end=end)
+
+
 class BaseConsole(BaseClass):
     """The base class for all Console classes.
     """
@@ -110,8 +120,6 @@ class Console(BaseConsole):
     """Print entries as separator delimited records of fields.
     """
 
-    encoding = sys.getfilesystemencoding()
-
     def __init__(self, context):
         super().__init__(context)
 
@@ -243,11 +251,7 @@ class Console(BaseConsole):
         """Print a line of output handling encoding errors.
         """
         with self.context.output_lock:
-            try:
-                print(line, end=self.args.newline)
-            except UnicodeEncodeError:
-                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                        end=self.args.newline)
+            print_line(line, self.args.newline)
 
             # If we don't flush stdout, printed results may be lost. That is because when the main
             # process exits, all multiprocessing processes vanish instantly without pending output
diff --git a/libff/processing.py b/libff/processing.py
index 3069651..0453c65 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -32,7 +32,7 @@ import multiprocessing
 from . import TIMEOUT, BaseClass
 from .type import Count
 from .console import Console, JsonConsole, NullConsole, ColorConsole, \
-    JsonlConsole
+    JsonlConsole, print_line
 from .exceptions import EX_PROCESS, EX_SUBPROCESS, SubprocessError
 
 
@@ -338,9 +338,9 @@ class CollectiveMixin(BaseProcessing):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(),
                             key=lambda t: (0, int(t[0]), t[0]) if t[0].isdecimal() else (1, 0, t[0])):
-                        print(f"{key}[{k}]={v}")
+                        print_line(f"{key}[{k}]={v}")
                 else:
-                    print(f"{key}={value}")
+                    print_line(f"{key}={value}")
 
 
 class CollectiveConsoleProcessing(CollectiveMixin, BaseConsoleProcessing):
-- 
2.43.0


From e1ecd9a92a55ef9d1a1deadabea7bb7acd9e17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 40/84] fix: add up the counts of values that have the same
 representation

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 0453c65..4a8f4c1 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -312,7 +312,7 @@ class CollectiveMixin(BaseProcessing):
                         # Format the key which is the counted value in this case, JSON objects
                         # allow only string keys anyway.
                         key = field.type.output(self.args, field.modifier, key)
-                        count[name][key] = val
+                        count[name][key] = count[name].get(key, 0) + val
 
                 else:
                     if field.modifier is not None:
-- 
2.43.0


From d0c9130bcb62d397067bf30680c71977a4cc60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 41/84] fix: give the SHAKE hashsums a length instead of
 crashing

---
 plugins/hash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/hash.py b/plugins/hash.py
index 193670a..c795099 100644
--- a/plugins/hash.py
+++ b/plugins/hash.py
@@ -38,6 +38,9 @@ class _Hash(Plugin):
             with open(entry.path, "rb") as fobj:
                 while buf := fobj.read(8192):
                     h.update(buf)
+            if h.digest_size == 0:
+                # The SHAKE algorithms have no fixed length, use twice the security level.
+                return self.name, h.hexdigest(int(self.name[6:]) // 4)
             return self.name, h.hexdigest()
         except (OSError, EOFError) as exc:
             raise NoData from exc
-- 
2.43.0


From 1089c32fb1447d898f4939c0be4fa22a6b108c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 42/84] fix: recognize tracked and dirty files with unusual
 names in the git plugin

---
 plugins/git.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 4f3c12a..58c9885 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -31,9 +31,9 @@ class Filelist(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "ls-files"], capture_output=True, text=True,
+        proc = subprocess.run(["git", "-C", dirname, "ls-files", "-z"], capture_output=True,
                 check=False)
-        for filename in proc.stdout.splitlines():
+        for filename in os.fsdecode(proc.stdout).split("\0")[:-1]:
             self.add(os.path.join(dirname, filename))
 
 
@@ -44,10 +44,14 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain"], capture_output=True,
-                text=True, check=False)
-        for line in proc.stdout.splitlines():
-            status, filename = line.split(None, 1)
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "-z"],
+                capture_output=True, check=False)
+        lines = iter(os.fsdecode(proc.stdout).split("\0")[:-1])
+        for line in lines:
+            status, filename = line[:2], line[3:]
+            if "R" in status or "C" in status:
+                # The original name of a renamed or copied file comes as an extra field.
+                next(lines)
             if status == "??":
                 continue
             self.add(os.path.join(dirname, filename))
-- 
2.43.0


From c2daa47a6d9789bb6c9ff636a56aa4745e84fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 43/84] fix: report an error if the attribute of a reference is
 a list

---
 libff/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index b6c0231..340d3cc 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -250,7 +250,11 @@ class Parser(BaseClass):
                     "and cannot be compared") from exc
 
         entry = Entry.as_reference(self.args, value)
-        return self.registry.get_attribute(entry, ref_attribute)
+        value = self.registry.get_attribute(entry, ref_attribute)
+        if isinstance(value, (list, set)):
+            raise ExpressionError(f"{ref_attribute} has a list of values and cannot be used as a "\
+                    "reference")
+        return value
 
     @staticmethod
     def get_common_super_type(a_type, b_type):
-- 
2.43.0


From e1f430fc560c62e5fd0084195b301b02e3e4720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 44/84] fix: raise an error in the Python API if a process has
 failed

---
 libff/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 506b968..bbbf593 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -24,6 +24,7 @@ import argparse
 from .main import _Base
 from .ignore import IGNORE_FILES
 from .arguments import Defaults, ArgumentsPostProcessor
+from .exceptions import EX_PROCESS, ProcessError
 from .processing import ImmediateGenerator, CollectiveGenerator
 
 
@@ -133,3 +134,7 @@ class Find(_Base):
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
+
+        if self.context.exitcode == EX_PROCESS:
+            raise ProcessError("One or more ff processes had unrecoverable errors! "\
+                    "Result is probably incomplete!")
-- 
2.43.0


From d1195a06d7b8abd35d882e926e45829bbcd7e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 45/84] fix: do not lose results with --color=always if
 LS_COLORS is not set

---
 libff/console.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 3affbbb..7ca0640 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -278,7 +278,6 @@ class ColorConsole(Console):
         if not colors:
             self.logger.warning("You chose console colour output "\
                     "but the LS_COLORS environment variable is not set")
-            return
 
         # The content of LS_COLORS is a pathsep separated list of key=value pairs. File type rules
         # consist of two characters, extensions have the form '*.ext'.
-- 
2.43.0


From 462bbe84a2ba55d26ae4fa166e97364e7b18b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 46/84] fix: report the own filesystem for mountpoints and
 unescape mountpoints

---
 libff/entry.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 495c220..66daac1 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import grp
 import pwd
 import stat
@@ -41,21 +42,32 @@ class Mountpoints:
         self.entries = []
         try:
             # pylint:disable=unspecified-encoding
-            with open("/proc/mounts") as lines:
+            with open("/proc/mounts", errors="surrogateescape", newline="\n") as lines:
                 for line in lines:
-                    devname, mpath, fstype, _ = line.split(None, 3)
-                    self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
+                    devname, mpath, fstype, _ = line.split(" ", 3)
+                    mpath = self.unescape(mpath)
+                    self.entries.append((mpath.rstrip(os.sep) + os.sep, self.unescape(devname),
+                        fstype))
         except OSError:
             pass
         else:
-            self.entries.sort(reverse=True)
+            # If there is more than one mount on a mountpoint the last one is the visible one.
+            self.entries.reverse()
+            self.entries.sort(key=lambda entry: entry[0], reverse=True)
+
+    @staticmethod
+    def unescape(value):
+        """Decode white space and backslashes which appear as octal escape sequences in
+           /proc/mounts.
+        """
+        return re.sub(r"\\([0-7]{3})", lambda match: chr(int(match.group(1), 8)), value)
 
     @lru_cache(maxsize=512)
     def get(self, path):
         """Get the mountpoint, device name and filesystem type for path.
         """
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if (path + os.sep).startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From c73c390867fe878aeb8de9a96f0fd6eb2bae7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 47/84] fix: do not put trailing slashes of --directory in the
 paths of entries

---
 libff/arguments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index 049c21b..758e501 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -259,6 +259,9 @@ class ArgumentsPostProcessor:
         if not self.args.directories:
             self.args.directories = ["."]
 
+        # Trailing slashes must not show up in the paths of the entries.
+        self.args.directories = [d.rstrip(os.sep) or d for d in self.args.directories]
+
         # Check if directory arguments are sub-directories of one another.
         for directory in sorted(self.args.directories, reverse=True):
             for subdir in self.args.directories:
-- 
2.43.0


From e30c227af649bc6bbff7aa84551ba8ff1e321580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 48/84] fix: round mtime, ctime and atime down exactly

---
 libff/entry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 66daac1..1dd0953 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -242,19 +242,19 @@ class Entry:
     def mtime(self):
         """The modification time of the file in seconds since epoch.
         """
-        return int(self.status.st_mtime)
+        return self.status.st_mtime_ns // 1000000000
 
     @property
     def ctime(self):
         """The inode change time of the file in seconds since epoch.
         """
-        return int(self.status.st_ctime)
+        return self.status.st_ctime_ns // 1000000000
 
     @property
     def atime(self):
         """The access time of the file in seconds since epoch.
         """
-        return int(self.status.st_atime)
+        return self.status.st_atime_ns // 1000000000
 
     @property
     def perm(self):
-- 
2.43.0


From 1df997916951a52bde88ad99ae79f71a43485bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 49/84] fix: invalidate cached data if the size or the exact
 mtime of a file changes

---
 libff/plugin.py    | 6 +++---
 plugin_template.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/plugin.py b/libff/plugin.py
index 51c9790..e7dc5fd 100644
--- a/libff/plugin.py
+++ b/libff/plugin.py
@@ -93,10 +93,10 @@ class Plugin:
 
     def get_entry_cache_tag(self, entry):
         """Return a value for the Entry object that if it changes causes the cached value to be
-           invalidated. The default uses the modification time of the file. The returned value may
-           have any type.
+           invalidated. The default uses the exact modification time and the size of the file. The
+           returned value may have any type.
         """
-        return entry.time
+        return entry.status.st_mtime_ns, entry.status.st_size
 
     def cache(self, entry):
         """Extract and prepare data from the Entry object and cache it. It is then passed on to the
diff --git a/plugin_template.py b/plugin_template.py
index db3c455..edb9084 100644
--- a/plugin_template.py
+++ b/plugin_template.py
@@ -107,7 +107,7 @@ class Foo(Plugin):
         #
         # Return a "tag" that indicates the validity of the cached value for this entry. Once it
         # changes the cached value will be discarded and recached. The default method returns the
-        # file's modification time which is what you want in most cases.
+        # file's exact modification time and size which is what you want in most cases.
 
     def cache(self, entry):
         # Optional. Is only called if use_cache = True.
-- 
2.43.0


From 1fef5663cc1f743b8df0545a18cc499bcd951684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 50/84] fix: do not mix up cached data of files with
 undecodable names

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 5ac65a4..d0fb4de 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -141,7 +141,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -156,7 +156,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 0d4c447db9d3c09b0a00330d6c5a5e9705bb5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 51/84] fix: --clean-cache failed if there was anything to
 clean

---
 libff/cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index d0fb4de..dd70bec 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -197,10 +197,13 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
-        for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
-            for path, in self.conn.execute(f"select path from {table}"):
+        tables = self.conn.execute(
+                "select name from sqlite_master where type = 'table'").fetchall()
+        for table, in tables:
+            for path, in self.conn.execute(f"select path from {table}").fetchall():
                 if not os.path.exists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # The database cannot be vacuumed inside of a transaction.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From 5f4932f7d49823adfa0ba0dfead76f3a1900abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 52/84] fix: search without the cache if it is not usable

---
 libff/cache.py | 89 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 12 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index dd70bec..c3ef992 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -25,6 +25,8 @@ import string
 import sqlite3
 
 from . import BaseClass
+from .arguments import Defaults
+from .exceptions import UsageError
 
 
 class NOTSET:
@@ -70,7 +72,9 @@ class Cache(NullCache):
     def __init__(self, context):
         super().__init__(context)
 
-        self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        self.path = self.context.args.cache
+        self.conn = None
+        self.usable = True
 
         self.registered = {}
 
@@ -81,6 +85,26 @@ class Cache(NullCache):
         self.hits = 0
         self.misses = 0
 
+    def connect(self):
+        """Open the database connection. The directory of the default cache is created if it does
+           not exist yet.
+        """
+        if self.path == Defaults.cache:
+            os.makedirs(os.path.dirname(self.path), mode=0o700, exist_ok=True)
+        self.conn = sqlite3.connect(self.path, timeout=30)
+
+    def disable(self, exc):
+        """Stop using the cache because the database is not usable. The search is done without it,
+           which is slower but gives the same results.
+        """
+        self.logger.warning(f"Unable to use the cache {self.path!r}: {exc}", tag="cache-unusable")
+        self.usable = False
+        self.num_cached_rows = 0
+        self.cached_rows = {}
+        if self.conn is not None:
+            self.conn.close()
+            self.conn = None
+
     def close(self):
         """Commit remaining cached rows and close the database connection.
         """
@@ -90,7 +114,8 @@ class Cache(NullCache):
                         "pending entries")
             self.commit()
 
-        self.conn.close()
+        if self.conn is not None:
+            self.conn.close()
 
         with self.context.cache_hits.get_lock():
             self.context.cache_hits.value += self.hits
@@ -101,7 +126,13 @@ class Cache(NullCache):
         """Register Plugin objects.
         """
         assert plugin_cls.name not in self.registered
-        self.init_table(plugin_cls)
+        if self.usable:
+            try:
+                if self.conn is None:
+                    self.connect()
+                self.init_table(plugin_cls)
+            except (OSError, sqlite3.Error) as exc:
+                self.disable(exc)
         self.registered[plugin_cls.name] = plugin_cls
 
     def init_table(self, plugin_cls):
@@ -141,14 +172,29 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = os.fsencode(path)
-        tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
-
-        for row in self.conn.execute(
-                f"select data from {plugin.sql_table_name} where path = ? and tag = ?",
-                (path, tag)):
-            self.hits += 1
-            return pickle.loads(row[0])
+        # pylint:disable=broad-except
+        if self.usable:
+            path = os.fsencode(path)
+            tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
+
+            try:
+                row = self.conn.execute(
+                        f"select data from {plugin.sql_table_name} where path = ? and tag = ?",
+                        (path, tag)).fetchone()
+            except sqlite3.Error as exc:
+                self.disable(exc)
+                row = None
+
+            if row is not None:
+                try:
+                    obj = pickle.loads(row[0])
+                except Exception:
+                    # The row is damaged, it is going to be replaced.
+                    if __debug__:
+                        self.logger.debug("cache", f"Unable to load cached data for {path!r}")
+                else:
+                    self.hits += 1
+                    return obj
 
         self.misses += 1
         return super().get(plugin, path, tag)
@@ -156,6 +202,9 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
+        if not self.usable:
+            return
+
         path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
@@ -186,7 +235,11 @@ class Cache(NullCache):
                         self.logger.warning("Database is locked, retrying ...")
                         time.sleep(0.5)
                     else:
-                        raise
+                        self.disable(exc)
+                        return
+                except sqlite3.Error as exc:
+                    self.disable(exc)
+                    return
                 else:
                     break
 
@@ -197,6 +250,18 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
+        if not os.path.exists(self.path):
+            return
+
+        try:
+            self.connect()
+            self.clean_tables()
+        except (OSError, sqlite3.Error) as exc:
+            raise UsageError(f"Unable to clean the cache {self.path!r}: {exc}") from exc
+
+    def clean_tables(self):
+        """Remove stale rows from all tables.
+        """
         tables = self.conn.execute(
                 "select name from sqlite_master where type = 'table'").fetchall()
         for table, in tables:
-- 
2.43.0


From eaacbf3808ceaf6d84f6c477345fb8f0f908e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 53/84] fix: print only one slash in paths of entries of the
 root directory

---
 libff/console.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 7ca0640..246d316 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -160,8 +160,10 @@ class Console(BaseConsole):
 
         name = self.render_name(entry)
 
-        if entry.dir:
-            dirname = self.render_directory(entry.dir + os.sep)
+        # Keep the separator, but do not add a second one to the root directory.
+        dirname = entry.path[:-len(entry.name)]
+        if dirname:
+            dirname = self.render_directory(dirname)
             path = String(dirname.value + name.value, dirname.length + name.length)
         else:
             path = name
-- 
2.43.0


From c2a8d92657925fd59b2c5c346f6a34a9969852af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 54/84] fix: do not wait for counters that a killed process has
 locked

---
 libff/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index 39816fb..20d24d2 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -307,8 +307,9 @@ class Main(_Base):
         self.context.processing.close()
 
         if __debug__:
-            hits = self.context.cache_hits.value
-            misses = self.context.cache_misses.value
+            # Do not use the locks, because a process that has been killed may still hold them.
+            hits = self.context.cache_hits.get_obj().value
+            misses = self.context.cache_misses.get_obj().value
             if hits or misses:
                 self.logger.debug("cache", f"Cache stats: {hits} hits, {misses} misses")
             else:
@@ -316,8 +317,8 @@ class Main(_Base):
 
         if self.context.exitcode == EX_SUBPROCESS:
             if self.args.exec:
-                succeeded = self.context.process_succeeded.value
-                failed = self.context.process_failed.value
+                succeeded = self.context.process_succeeded.get_obj().value
+                failed = self.context.process_failed.get_obj().value
                 raise SubprocessError("One or more -x/--exec commands had errors "\
                         f"(success: {succeeded}, failure: {failed})")
             else:
-- 
2.43.0


From 66334f584d50db30a170ae3a21fec76a8dc2cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 55/84] fix: do not fail on damaged rows in --clean-cache

---
 libff/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index c3ef992..083bd1f 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -266,7 +266,7 @@ class Cache(NullCache):
                 "select name from sqlite_master where type = 'table'").fetchall()
         for table, in tables:
             for path, in self.conn.execute(f"select path from {table}").fetchall():
-                if not os.path.exists(path):
+                if not isinstance(path, (bytes, str)) or not os.path.exists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
         # The database cannot be vacuumed inside of a transaction.
-- 
2.43.0


From 561436bb97baf7501dad3a4826bc946bcc08399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 56/84] fix: a directory that vanishes during the search does
 not stop it when fs attributes are used

---
 plugins/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/fs.py b/plugins/fs.py
index 7914163..364f94f 100644
--- a/plugins/fs.py
+++ b/plugins/fs.py
@@ -104,7 +104,10 @@ class Fs(Plugin):
         else:
             path = os.path.abspath(entry.dir)
 
-        name, remote = self.get_fs_type(path)
+        try:
+            name, remote = self.get_fs_type(path)
+        except OSError as exc:
+            raise NoData from exc
 
         yield "type", name
         yield "remote", remote
-- 
2.43.0


From 8f7f56e85608970d1722b729dfc8625cd4088e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 57/84] fix: the py and tar plugins do not wait for fifos

---
 plugins/introspect.py | 3 +++
 plugins/tar.py        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index f03604e..303cf12 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -144,6 +144,9 @@ class Py(Plugin):
                 yield node.names[0].name
 
     def can_handle(self, entry):
+        # Opening a fifo would block.
+        if not os.path.isfile(entry.path):
+            return False
         if entry.ext.lower() == "py":
             return True
         shebang = Shebang.extract_shebang(entry.path)
diff --git a/plugins/tar.py b/plugins/tar.py
index 8268c72..0de9d32 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -18,6 +18,7 @@
 #
 # -----------------------------------------------------------------------
 
+import os
 import tarfile
 
 from libff.plugin import *
@@ -46,7 +47,8 @@ class Tar(Plugin):
             ".tar.xz", ".txz")
 
     def can_handle(self, entry):
-        return entry.name.endswith(self.extensions)
+        # Opening a fifo would block.
+        return entry.name.endswith(self.extensions) and os.path.isfile(entry.path)
 
     def cache(self, entry):
         try:
-- 
2.43.0


From eebe4fbb3781bcda398a28a606fc1cb2d0bc9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 58/84] fix: Python files that are too complex to be parsed do
 not stop the search

---
 plugins/introspect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 303cf12..1b3bb6b 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -155,5 +155,6 @@ class Py(Plugin):
     def process(self, entry, cached):
         try:
             yield "imports", sorted(self.parse_imports(entry))
-        except (OSError, SyntaxError, UnicodeDecodeError) as exc:
+        except (OSError, SyntaxError, ValueError, RecursionError, MemoryError) as exc:
+            # Contents that are no Python or are too complex to be parsed.
             raise NoData from exc
-- 
2.43.0


From 38053975cd13c2a413ca9234a8901636f5347006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 59/84] fix: only the first line of a file can be its shebang
 line

---
 plugins/introspect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 1b3bb6b..05e14db 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -93,10 +93,10 @@ class Shebang(Plugin):
         """Extract the shebang line.
         """
         try:
-            with open(path, "rb") as lines:
-                for line in lines:
-                    if line.startswith(b"#!"):
-                        return line[2:].decode("ascii").rstrip()
+            with open(path, "rb") as fobj:
+                line = fobj.readline()
+                if line.startswith(b"#!"):
+                    return line[2:].decode("ascii").rstrip()
         except (OSError, UnicodeDecodeError):
             pass
 
-- 
2.43.0


From 1cf5580d12c103710e841d45bfe7e7163789ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 60/84] fix: all modules of an import statement appear in
 py.imports

---
 plugins/introspect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 05e14db..1557458 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -141,7 +141,8 @@ class Py(Plugin):
                         yield node.module
 
             elif isinstance(node, ast.Import):
-                yield node.names[0].name
+                for alias in node.names:
+                    yield alias.name
 
     def can_handle(self, entry):
         # Opening a fifo would block.
-- 
2.43.0


From fb46be4b8ae7b07e63d6d824a204a28fb7e2fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 61/84] fix: the mime type of files with undecodable names

---
 libff/builtin/mime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/builtin/mime.py b/libff/builtin/mime.py
index 98d1656..9c6efe2 100644
--- a/libff/builtin/mime.py
+++ b/libff/builtin/mime.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import os
+
 from libff.plugin import *
 
 
@@ -53,7 +55,7 @@ class Mime(Plugin):
     def cache(self, entry):
         # pylint:disable=undefined-variable
         try:
-            detected = magic.detect_from_filename(entry.path)
+            detected = magic.detect_from_filename(os.fsencode(entry.path))
             return detected.mime_type, detected.encoding, detected.name
         except (OSError, ValueError) as exc:
             raise NoData from exc
-- 
2.43.0


From 3015bffec5cb7c2996bea92561679c9028b2dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 62/84] fix: a profiling run waits for entries that are still
 on their way

---
 libff/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 4a8f4c1..5d65654 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -126,7 +126,9 @@ class BaseProcessing(BaseClass):
         """
         done = False
         while True:
-            is_alive = any(process.is_alive() for process in self.walker.processes)
+            # There are no processes with --profile, the entries come from this process.
+            is_alive = not self.walker.processes or \
+                    any(process.is_alive() for process in self.walker.processes)
             try:
                 yield out_queue.get(timeout=TIMEOUT)
             except queue.Empty:
-- 
2.43.0


From 7018a6421a65257f778b01e85cad89e49322f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 63/84] fix: report an incomplete result if a process is killed
 while it passes on its last entries

---
 libff/walk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index f8e7715..5809dda 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -52,6 +52,10 @@ class FilesystemWalker(BaseClass):
                 # terminate.
                 timeout = 0
 
+        if any(process.exitcode for process in self.processes):
+            # A process that was killed may have had entries that it could not pass on any more.
+            self.context.set_exitcode(EX_PROCESS)
+
         self.queue.close()
 
     def put(self, chunk):
-- 
2.43.0


From 7c8ff0184e4b346a3bba2d1fdbe10629f0a78df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 64/84] fix: do not block forever if an idle process is killed

---
 libff/context.py    | 81 ++++++++++++++++++++++++++++++++++++++-------
 libff/processing.py |  7 ++--
 libff/walk.py       |  9 +++--
 3 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index f72cf90..402871d 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -19,7 +19,6 @@
 # -----------------------------------------------------------------------
 
 import queue
-import threading
 import subprocess
 import multiprocessing
 import multiprocessing.sharedctypes
@@ -28,6 +27,65 @@ from . import TIMEOUT
 from .exceptions import EX_SUBPROCESS
 
 
+class Barrier:
+    """A barrier that opens once, when all processes wait for it at the same time. Other than with
+       multiprocessing.Barrier nobody gets stuck if one of the processes is killed.
+    """
+
+    def __init__(self, parties):
+        self.parties = parties
+        self.lock = multiprocessing.Lock()
+        self.waiting = multiprocessing.sharedctypes.RawValue("i", 0)
+        # One for each of the processes and one for the main process.
+        self.opened = multiprocessing.Semaphore(0)
+
+    @property
+    def n_waiting(self):
+        """The number of processes that are currently waiting.
+        """
+        return self.waiting.value
+
+    def lock_acquire(self, is_stopping):
+        """Acquire the lock. Return False if we have to stop, e.g. because the process that holds
+           the lock was killed.
+        """
+        while not self.lock.acquire(True, TIMEOUT):
+            if is_stopping():
+                return False
+        return True
+
+    def wait(self, timeout, is_stopping, has_work):
+        """Wait for all the other processes as long as there is no work to do. Return True if there
+           is no reason to go on.
+        """
+        if not self.lock_acquire(is_stopping):
+            return True
+        self.waiting.value += 1
+        if self.waiting.value == self.parties:
+            for _ in range(self.parties + 1):
+                self.opened.release()
+        self.lock.release()
+
+        while not self.opened.acquire(True, timeout):
+            if has_work() or is_stopping():
+                break
+        else:
+            return True
+
+        if not self.lock_acquire(is_stopping):
+            return True
+        opened = self.waiting.value >= self.parties
+        if not opened:
+            self.waiting.value -= 1
+        self.lock.release()
+        return opened or is_stopping()
+
+    def wait_opened(self, timeout):
+        """Wait until the barrier opens without taking part.
+        """
+        return self.opened.acquire(True, timeout)
+
+
 class Context:
     """The Context class contains a global state and is globally accessible so that all components
        find all other components.
@@ -72,12 +130,12 @@ class Context:
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
 
-        # Create a Barrier with the number of processes plus one for the main process.
+        # Create a Barrier for the processes.
         if __debug__ and self.args.profile:
             num_jobs = 1
         else:
-            num_jobs = self.args.jobs + 1
-        self.barrier = multiprocessing.Barrier(num_jobs)
+            num_jobs = self.args.jobs
+        self.barrier = Barrier(num_jobs)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
@@ -118,17 +176,16 @@ class Context:
         """
         return self._has_result.value == 1
 
-    def barrier_wait(self, timeout=TIMEOUT):
+    def barrier_wait(self, has_work, timeout=TIMEOUT):
         """Wait for all processes to reach the Barrier. If all processes do that means that there
            is no more input and processing is finished.
         """
-        try:
-            self.barrier.wait(timeout)
-        except threading.BrokenBarrierError:
-            self.barrier.reset()
-            return self.is_stopping()
-        else:
-            return True
+        return self.barrier.wait(timeout, self.is_stopping, has_work)
+
+    def barrier_opened(self, timeout):
+        """Let the main process wait until all processes have reached the Barrier.
+        """
+        return self.barrier.wait_opened(timeout) or self.is_stopping()
 
     def idle_processes(self):
         """Return the number of idle processes, i.e. processes that are waiting for the barrier
diff --git a/libff/processing.py b/libff/processing.py
index 5d65654..67d5568 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -106,6 +106,9 @@ class BaseProcessing(BaseClass):
         if time.time() >= self.next_processes_check:
             for index, process in enumerate(self.walker.processes):
                 if not process.is_alive():
+                    if self.context.barrier_opened(0):
+                        # It has just finished its work.
+                        return True
                     self.logger.warning(f"process #{index} terminated abnormally")
                     self.context.set_exitcode(EX_PROCESS)
                     self.context.stop()
@@ -119,7 +122,7 @@ class BaseProcessing(BaseClass):
         """Check if processing is done (because all processes wait on the barrier) or one or more
            processes failed unexpectedly.
         """
-        return self.context.barrier_wait(timeout) or self.check_for_failed_processes()
+        return self.context.barrier_opened(timeout) or self.check_for_failed_processes()
 
     def iter_queue(self, out_queue):
         """Yield lists of entries from a queue filled by the processes until processing is done.
@@ -163,7 +166,7 @@ class ImmediateBaseProcessing(BaseProcessing):
     # pylint:disable=abstract-method
 
     def loop(self):
-        while not self.processing_done(1):
+        while not self.processing_done(0.1):
             pass
 
 
diff --git a/libff/walk.py b/libff/walk.py
index 5809dda..b627f24 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -66,6 +66,11 @@ class FilesystemWalker(BaseClass):
         """
         self.queue.put(chunk)
 
+    def has_work(self):
+        """Return True if there are objects in the queue.
+        """
+        return self.queue.qsize() > 0
+
     def start_processes(self):
         """Start a pool of processes that walk through the filesystem.
         """
@@ -97,9 +102,9 @@ class FilesystemWalker(BaseClass):
                 except queue.Empty:
                     # The queue hands over objects asynchronously, so there may still be some on
                     # their way.
-                    if self.queue.qsize() > 0:
+                    if self.has_work():
                         continue
-                    if self.context.barrier_wait():
+                    if self.context.barrier_wait(self.has_work):
                         break
                     else:
                         continue
-- 
2.43.0


From 8109da2eeedb110517bb799c8e5fd521126b756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 65/84] fix: attribute a reference file to the search directory
 with --absolute-path or -D /

---
 libff/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 1dd0953..af863e0 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -117,7 +117,9 @@ class Entry:
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
-            dirname = os.path.abspath(directory) + os.sep
+            if args.absolute_path:
+                directory = os.path.abspath(directory)
+            dirname = os.path.join(os.path.abspath(directory), "")
             if abspath.startswith(dirname):
                 relpath = abspath[len(dirname):]
                 break
-- 
2.43.0


From 74d294032cc8b1b86784a78eb1308fa3492a53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 66/84] fix: a reference path may end with a slash

---
 libff/entry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index af863e0..1f6652f 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -124,7 +124,7 @@ class Entry:
                 relpath = abspath[len(dirname):]
                 break
         else:
-            directory, relpath = split(path)
+            directory, relpath = split(path.rstrip(os.sep) or os.sep)
             directory = directory or "."
 
         start_directory = StartDirectory(args, directory)
@@ -155,7 +155,7 @@ class Entry:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
 
-        self.hide = self.name[0] == "."
+        self.hide = self.name.startswith(".")
 
         self.mode = self.status.st_mode
 
-- 
2.43.0


From 9049ea9864a2b40c07ebe5d33dd29bc24c627bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 67/84] fix: a reference path may contain a symbolic link
 followed by ".."

---
 libff/entry.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 1f6652f..56ac2ee 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -114,13 +114,14 @@ class Entry:
         # from the command line, in order to emulate attributes like depth and samedev. If the
         # reference file is outside of the search area we use default values.
         abspath = os.path.abspath(path)
+        status = os.stat(path, follow_symlinks=args.follow_symlinks)
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
             if args.absolute_path:
                 directory = os.path.abspath(directory)
             dirname = os.path.join(os.path.abspath(directory), "")
-            if abspath.startswith(dirname):
+            if abspath.startswith(dirname) and cls._is_same(args, status, abspath):
                 relpath = abspath[len(dirname):]
                 break
         else:
@@ -128,10 +129,20 @@ class Entry:
             directory = directory or "."
 
         start_directory = StartDirectory(args, directory)
-        status = os.stat(path, follow_symlinks=args.follow_symlinks)
 
         return cls(start_directory, relpath, status)
 
+    @staticmethod
+    def _is_same(args, status, abspath):
+        """Check if a path still leads to the same file after it was normalized, this is not the
+           case if e.g. a symbolic link is followed by "..".
+        """
+        try:
+            return os.path.samestat(status,
+                    os.stat(abspath, follow_symlinks=args.follow_symlinks))
+        except OSError:
+            return False
+
     def __init__(self, start_directory, relpath, status, ignore_paths=None):
         # pylint:disable=too-many-branches
 
-- 
2.43.0


From e3b1fd0df1020d93a4a0c7a8f58e139e36001303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 68/84] fix: report -x/--exec and -X/--exec-batch arguments
 that cannot be passed to a subprocess

---
 libff/context.py    | 4 +++-
 libff/processing.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libff/context.py b/libff/context.py
index 402871d..54c6871 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -235,7 +235,9 @@ class Context:
                 else:
                     process.terminate()
 
-        except OSError as exc:
+        except (OSError, ValueError) as exc:
+            # A ValueError is raised if the arguments cannot be passed to a subprocess, e.g.
+            # because there is a null byte in one of them.
             self.logger.error(exc, None)
 
         if exitcode != 0:
diff --git a/libff/processing.py b/libff/processing.py
index 67d5568..cccbad4 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -396,6 +396,10 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                         entries = entries[:split]
                     else:
                         raise SubprocessError(str(exc)) from exc
+                except ValueError as exc:
+                    # One of the arguments cannot be passed to a subprocess, e.g. because there is
+                    # a null byte in it.
+                    raise SubprocessError(str(exc)) from exc
                 else:
                     entries = remainder
                     remainder = []
-- 
2.43.0


From 4699dced68930a577eb507d48153ee7f193944a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 69/84] fix: Find does not change the query list of the caller

---
 libff/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index bbbf593..15a59e6 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -74,7 +74,7 @@ class Find(_Base):
         elif isinstance(query, str):
             tests = shlex.split(query)
         else:
-            tests = query
+            tests = list(query)
 
         args = FindNamespace()
         args.tests = tests
-- 
2.43.0


From b8f7a079c8354a42f0a038cf7ee141715cbc57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 70/84] fix: fields of -o, --sort, --count and --exec may have
 names of one letter

---
 libff/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/field.py b/libff/field.py
index af6401a..a50f1e8 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -48,7 +48,7 @@ class Fields(list):
     """A class that stores a list of attributes as fields.
     """
 
-    regex = re.compile(r"^((?:[a-zA-Z][a-zA-Z0-9_]+\.)?[a-zA-Z][a-zA-Z0-9_]+?)"\
+    regex = re.compile(r"^((?:[a-zA-Z][a-zA-Z0-9_]*\.)?[a-zA-Z][a-zA-Z0-9_]*?)"\
             r"(?::(-?\d+)?(h|o|x|n|v)?)?$")
 
     def __init__(self, context, argument):
-- 
2.43.0


From 6d9c700e0b85b0b20ff4668082c8f3a755b205d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 71/84] fix: git attributes in submodules and linked worktrees,
 where .git is a file

---
 plugins/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/git.py b/plugins/git.py
index 58c9885..a7c46b4 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -87,7 +87,8 @@ class Git(Plugin):
         """
         if dirname not in self._cache:
             path = os.path.join(dirname, ".git")
-            if os.path.isdir(path):
+            # In submodules and linked worktrees this is a file.
+            if os.path.exists(path):
                 self._cache[dirname] = dirname, Filelist(dirname), Status(dirname)
             else:
                 if dirname == os.sep:
-- 
2.43.0


From 75d2e6c8710397e3ac09321c87364c160c4299dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 72/84] fix: a file that was removed from the git index is not
 git.dirty, as it is not tracked

---
 plugins/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/git.py b/plugins/git.py
index a7c46b4..e52e01a 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -118,6 +118,7 @@ class Git(Plugin):
                     abspath = entry.abspath + os.sep
                     data[key] = any(p.startswith(abspath) for p in paths)
                 else:
-                    data[key] = entry.abspath in paths
+                    # A file that was removed from the index has changed but is not tracked.
+                    data[key] = entry.abspath in paths and entry.abspath in filelist
 
             return data
-- 
2.43.0


From 2620366adc149cc2804a2fa49b2ce5d612bffdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 73/84] fix: py.imports reads source files in the encoding that
 they declare

---
 plugins/introspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 1557458..1a97477 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -123,8 +123,8 @@ class Py(Plugin):
     def parse_imports(self, entry):
         """Extract the names of modules and packages that a Python script imports.
         """
-        # pylint:disable=unspecified-encoding
-        with open(entry.path) as fobj:
+        # The parser knows best about encoding declarations and byte order marks.
+        with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
         for node in ast.walk(ast.parse(data)):
-- 
2.43.0


From 14ab021725e591177dadd2e0159780790b81ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 74/84] fix: no warnings about the contents of Python files on
 standard error

---
 plugins/introspect.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 1a97477..d1476cd 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -20,6 +20,7 @@
 
 import os
 import ast
+import warnings
 
 from libff.plugin import *
 
@@ -127,7 +128,12 @@ class Py(Plugin):
         with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
-        for node in ast.walk(ast.parse(data)):
+        with warnings.catch_warnings():
+            # Do not let the parser print warnings about the contents of the file.
+            warnings.simplefilter("ignore")
+            tree = ast.parse(data)
+
+        for node in ast.walk(tree):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-- 
2.43.0


From ddb8bace7e2af520f6a09caf703592e9c7bc5b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 75/84] fix: report unbalanced quotes in FF_OPTIONS instead of
 a traceback

---
 libff/arguments.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 758e501..8cf2713 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -171,13 +171,16 @@ def create_parser():
     return parser
 
 
-def collect_arguments():
+def collect_arguments(parser):
     """Join arguments for the ArgumentParser from the FF_OPTIONS environment variable with the ones
        from the command line.
     """
     ff_options = os.environ.get("FF_OPTIONS")
     if ff_options:
-        argv = shlex.split(ff_options)
+        try:
+            argv = shlex.split(ff_options)
+        except ValueError as exc:
+            parser.error(f"invalid value for FF_OPTIONS: {exc}")
     else:
         argv = []
     argv += sys.argv[1:]
@@ -341,7 +344,7 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    argv = collect_arguments(parser)
     args = parser.parse_args(argv)
 
     if args.help == "all":
-- 
2.43.0


From 82f61eb1642157fbbdddb73e9a2f927e8fd92486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 76/84] fix: -x and -X at the end of a bundle of short options
 may be joined with their argument

---
 libff/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 59ce0de..e6925c8 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -357,7 +357,7 @@ class ArgumentParser:
             short_option = f"-{arg[0]}"
             option = self.get_option(short_option)
 
-            if option.action in ("store", "store_optional", "append"):
+            if option.action in ("store", "store_optional", "append", "store_remainder"):
                 argv.insert(i, short_option)
                 if arg[1:]:
                     argv.insert(i + 1, arg[1:])
-- 
2.43.0


From 37e83bc5e689e661c87bb176d79956d948e4a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 77/84] fix: report --clean-cache together with --no-cache
 instead of a traceback

---
 libff/arguments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index 8cf2713..a418e3c 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -209,6 +209,9 @@ class ArgumentsPostProcessor:
             if self.args.profile and (self.args.exec or self.args.exec_batch):
                 raise UsageError("You cannot use --exec or --exec-batch together with --profile!")
 
+        if self.args.action == "clean" and self.args.cache is None:
+            raise UsageError("You cannot use --clean-cache together with --no-cache!")
+
         if self.args.count and (self.args.exec or self.args.exec_batch):
             raise UsageError("You cannot use --exec or --exec-batch together with --count!")
 
-- 
2.43.0


From 198bb3713691c6b30f729bba562f332095acd522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 78/84] fix: --json prints nothing if the search fails to start

---
 libff/console.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 246d316..bd326f5 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -101,19 +101,19 @@ class JsonConsole(JsonlConsole):
     def __init__(self, context):
         super().__init__(context)
 
-        print("[", end="")
         self.print_comma = False
 
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        if self.print_comma:
-            print(",", end="")
+        # Start the object with the first record, so that there is no output if the search fails to
+        # start.
+        print("," if self.print_comma else "[", end="")
         json.dump(record, sys.stdout, default=sorted)
         self.print_comma = True
 
     def close(self):
-        print("]")
+        print("]" if self.print_comma else "[]")
 
 
 class Console(BaseConsole):
-- 
2.43.0


From 3b6520efa81043c505d8f5bff70089a4e954ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 79/84] fix: refuse operators and brackets in --exclude instead
 of failing with a traceback

---
 libff/filter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libff/filter.py b/libff/filter.py
index c8654ee..559595d 100644
--- a/libff/filter.py
+++ b/libff/filter.py
@@ -21,7 +21,7 @@
 import itertools
 
 from . import BaseClass
-from .parser import Parser
+from .parser import AND, OR, Parser
 
 
 class MatcherParser(Parser):
@@ -37,6 +37,16 @@ class MatcherParser(Parser):
         return super().create_test(attribute, operator, reference, value)
 
 
+class ExcluderParser(Parser):
+    """The ExcluderParser allows nothing but tests, no operators and no brackets.
+    """
+
+    def parse(self):
+        sequence = AND()
+        sequence.extend(self.parse_test(token) for token in self.tokens)
+        return OR(sequence)
+
+
 class Filter(BaseClass):
     """Basic Filter class to build Excluder and Matcher upon.
     """
@@ -63,7 +73,7 @@ class Excluder(Filter):
     # pylint:disable=method-hidden
 
     def __init__(self, context, tokens):
-        super().__init__(context, Parser(context, tokens))
+        super().__init__(context, ExcluderParser(context, tokens))
 
     def test_empty(self, entry):
         """Default test method when the list of tests is empty.
-- 
2.43.0


From 504fa16a79fb185cc87fcb393d0419ec784cd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 80/84] fix: pacman plugin looks up the absolute path, so
 relative searches find packages

---
 plugins/pacman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index c17f896..672729e 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -50,10 +50,10 @@ class Pacman(Plugin):
         return True
 
     def process(self, entry, cached):
-        if entry.path in self.filelist:
+        if entry.abspath in self.filelist:
             yield "installed", True
             for pkgname, filelist in self.pkglist.items():
-                if entry.path in filelist:
+                if entry.abspath in filelist:
                     yield "pkgname", pkgname
         else:
             yield "installed", False
-- 
2.43.0


From baf76e15544a0766e374a46f41aedbc0058eff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:02 +0000
Subject: [PATCH 81/84] fix: pacman plugin finds names with trailing blanks and
 undecodable names

---
 plugins/pacman.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index 672729e..f8c4dd0 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -38,10 +38,9 @@ class Pacman(Plugin):
     def setup(self):
         self.pkglist = {}
         self.filelist = set()
-        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE, text=True) as proc:
+        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE) as proc:
             for line in proc.stdout:
-                line = line.strip()
-                pkgname, path = line.split(None, 1)
+                pkgname, path = os.fsdecode(line).rstrip("\n").split(" ", 1)
                 path = path.rstrip(os.sep)
                 self.filelist.add(path)
                 self.pkglist.setdefault(pkgname, set()).add(path)
-- 
2.43.0


From 6d5f1e88f0bfccb5d62db9adde6b3281a780a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 82/84] fix: help pages work with plugins and types that have
 no description

---
 libff/help.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/help.py b/libff/help.py
index 2753c77..4230256 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -187,7 +187,8 @@ class ManPage:
     def add(self, line=""):
         """Add a line to the internal buffer.
         """
-        self.lines.append(self.process(line))
+        # Plugins, types and attributes may come without a description.
+        self.lines.append(self.process(line or ""))
 
     def add_header(self, name, section, title):
         """Add a manpage header.
-- 
2.43.0


From fd9b7fb19994d156047fbd9f9f9d2a844df5d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 83/84] fix: help pages do not lose lines that look like roff
 requests or escapes

---
 libff/help.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 4230256..2962d8a 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -158,6 +158,9 @@ class ManPage:
         # Turn paragraphs into one long line each.
         string = "\n\n".join(" ".join(s.split()) for s in string.split("\n\n"))
 
+        # Escape backslashes.
+        string = string.replace("\\", r"\[rs]")
+
         def replace(match):
             if match.group(1):
                 # Make single-quoted strings italic. It should match "'s'" but not "file's".
@@ -182,7 +185,10 @@ class ManPage:
                         r"(?<![a-zA-Z])(\-[a-zA-Z]|\-\-[a-zA-Z-]+)", replace, string)
 
         # Escape dashes.
-        return string.replace("-", "\\-")
+        string = string.replace("-", "\\-")
+
+        # Text lines must not be mistaken for control lines.
+        return re.sub(r"^(?=[.'])", r"\\&", string, flags=re.MULTILINE)
 
     def add(self, line=""):
         """Add a line to the internal buffer.
@@ -232,7 +238,7 @@ class ManPage:
 
             self.add_definition(attribute)
             self.add(f"Type: {type_cls.name}  ( {' '.join(type_cls.operators)} )")
-            self.add(br)
+            self.lines.append(br)
             self.add(help_text)
             self.add()
 
@@ -250,7 +256,7 @@ class ManPage:
                 self.add(f"Uses cache: {'Yes' if plugin.use_cache else 'No'}")
             else:
                 self.add(f"{name.capitalize()}: {getattr(plugin, name)}")
-            self.add(br)
+            self.lines.append(br)
 
     def print(self):
         """Print the raw manpage to stdout.
@@ -370,9 +376,9 @@ class TypesManPage(ManPage):
         """
         self.add_section(f"{type_cls.name} Type")
         self.add(f"Name:  {type_cls.name}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Operators:  {' '.join(type_cls.operators)}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Count: {type_cls.count.name.lower()}")
         self.add()
         self.add(type_cls.__doc__)
-- 
2.43.0


From 5ae4f10b066da6550d29e2344e42c7827350c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 84/84] fix: an empty range in a glob pattern matches its start
 as git does

---
 libff/ignore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/ignore.py b/libff/ignore.py
index aaca841..f58aee0 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -150,6 +150,9 @@ class Glob:
                 stop = match.group("stop")[-1]
                 if start <= stop:
                     items.append(f"{re.escape(start)}-{re.escape(stop)}")
+                else:
+                    # git(1) matches the start of an empty range.
+                    items.append(re.escape(start))
             else:
                 items.append(re.escape(match.group("start")[-1]))
 
-- 
2.43.0

