From e1dfec555f8fdb67fc716c7830106fc4b9ef1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 01/30] fix: pop the database call stack when a cached function
 raises

---
 lib/fbuild/db/database.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..0e42750 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -180,9 +180,13 @@ class Database:
         external_srcs = set()
         external_dsts = set()
 
-        # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        # The call was dirty, so recompute it. Make sure our entry leaves the
+        # call stack even if the function raises, or the functions that get
+        # called afterwards would be recorded with the wrong parent.
+        try:
+            call_result = outer_function(*args, **kwargs)
+        finally:
+            fun_dependents = tuple(self._callstack.pop())
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
-- 
2.43.0


From bb2bc75a4b558a0d82bfdc32fd4b3638241de2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 02/30] fix: keep the calls' file records when the content of a
 file changes

---
 lib/fbuild/db/backend.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..98f7466 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -299,15 +299,9 @@ class Backend:
             self.save_file(file_id, file_name, file_mtime, digest)
             return False, file_id, file_mtime, digest
 
-        if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
-            self.delete_file(file_name)
-
-            # The file_id is now invalid.
-            file_id = None
-
-        # Now, add the file back to the database.
+        # Now, update the file in the database. The calls that used the file
+        # notice the change by comparing their digest with this one, so their
+        # records must stay: they say which files each call depends upon.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
         # Returns True since the file changed.
-- 
2.43.0


From 14a1d10e79d7b31baea1c3b0310e0314a3899361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 03/30] fix: re-run a cached call if one of its registered
 sources is gone

---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 98f7466..8beb588 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -246,7 +246,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file's gone, so we're dirty.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From 598dbcd9c8d1f3273d2ae7dcaf1f5090cdf13f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 04/30] fix: report from the sqlite engine whether something
 was deleted

---
 lib/fbuild/db/sqlite_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..4b24abd 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -218,6 +218,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -509,7 +511,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
         (file_id,), = rows
 
@@ -527,3 +529,5 @@ class SqliteBackend(fbuild.db.backend.Backend):
             (file_id,))
 
         self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+
+        return True
-- 
2.43.0


From 016aa9e502caa1d4fb8d69bb75c6fd7ada431e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 05/30] fix: store every registered destination in the sqlite
 engine

---
 lib/fbuild/db/sqlite_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 4b24abd..fe826f1 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -453,7 +453,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
             self.cursor.executemany(
                 'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
                 ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                    for dirty, file_id, file_digest in dst_call_files))
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 4c1ccb43ff0b8e5badc3bebaf92eb05e6434b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 06/30] fix: apply install permissions to the installed file,
 not to its source

---
 lib/fbuild/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..f879bec 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,13 +22,13 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            if target.lexists():
                 target.remove()
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
         if perms is not None:
-            file.chmod(perms)
+            target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From 17e300affa9d8365af1fb18fb51b102ce92da5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 07/30] fix: run build after configure when only configure and
 install are given

---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..3669c19 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -106,7 +106,7 @@ def build(ctx):
         if targets[-1] != 'install':
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From dcc63fa48f40eaeba93e4dde02872c6912dfd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 08/30] fix: mark the rpc server as running before reporting it
 started

---
 lib/fbuild/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..fbbedde 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -77,8 +77,8 @@ class RPC(threading.Thread):
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._started.set()
 
         try:
             while True:
-- 
2.43.0


From 1052c5a368c9c0c32c82053ee09251f571b4cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 09/30] fix: never install or set permissions through a link

---
 lib/fbuild/install.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index f879bec..c196998 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -20,15 +20,17 @@ class LocalCommander:
     def install(self, file, target, perms=None):
         target.parent.makedirs(exist_ok=True)
 
+        # Never write through a link that's in the way of the target.
+        if target.islink() or (file.islink() and target.exists()):
+            target.remove()
+
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.lexists():
-                target.remove()
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
-        if perms is not None:
-            target.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From 62bebdc677ae0120fcbe0d3cd71273f48c969d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 10/30] fix: re-run the dependents of a changed function,
 whichever runs first

---
 lib/fbuild/db/backend.py        | 49 +++++++++++++++++++++++++++------
 lib/fbuild/db/cache_backend.py  |  7 +++++
 lib/fbuild/db/sqlite_backend.py |  9 ++++++
 3 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 8beb588..bfc2388 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -96,17 +96,29 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
+        # The function may have been stored or deleted since we prepared the
+        # call, by another call of it or by a function that it called, so check
+        # it again.
+        fun_dirty, fun_id = self.check_function(fun_name)
+
         # Lock the db since we're updating data structures.
         if fun_dirty:
-            # Since the function changed, delete out all the related data.
-            if fun_id is not None:
-                self.delete_function(fun_name)
-
-                # The fun_id is now invalid.
-                fun_id = None
+            # Since the function changed, delete out all the related data,
+            # along with the functions that depend upon it. They would look up
+            # to date once we stored the new digest.
+            for name in self.find_dependent_functions(fun_name):
+                self.delete_function(name)
+
+            # The old ids are now invalid.
+            fun_id = None
+            call_id = None
+        else:
+            # The other calls of this function may have used other functions.
+            _, _, old_dependents = self.find_function(fun_name)
+            fun_dependents = (*old_dependents, *fun_dependents)
 
-            fun_id = self.save_function(fun_id, fun_name, fun_digest,
-                                        fun_dependents)
+        fun_id = self.save_function(fun_id, fun_name, fun_digest,
+                                    tuple(dict.fromkeys(fun_dependents)))
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
@@ -143,6 +155,27 @@ class Backend:
         return fun_dirty, fun_id
 
 
+    def find_dependent_functions(self, fun_name):
+        """Returns the function and all the functions that directly or
+        indirectly depend upon it."""
+
+        names = {fun_name}
+        found = True
+        while found:
+            found = False
+            for name, fun_dependents in self.find_function_dependents():
+                if name not in names and not names.isdisjoint(fun_dependents):
+                    names.add(name)
+                    found = True
+
+        return names
+
+
+    def find_function_dependents(self):
+        """Returns the names and the dependents of all the functions."""
+        raise NotImplementedError
+
+
     def find_function(self, fun_name):
         """Returns the function record or None if it does not exist."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..1154794 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -50,6 +50,13 @@ class CacheBackend(fbuild.db.backend.Backend):
         return fun_id, fun_digest, fun_dependents
 
 
+    def find_function_dependents(self):
+        """Returns the names and the dependents of all the functions."""
+
+        return [(fun_name, fun_dependents)
+            for fun_name, (_, fun_dependents) in self._functions.items()]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index fe826f1..25b9340 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -161,6 +161,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
             return fun_id, fun_digest, split_dependents
 
 
+    def find_function_dependents(self):
+        """Returns the names and the dependents of all the functions."""
+
+        self.cursor.execute('SELECT fun_name,fun_dependents FROM Function')
+
+        return [(fun_name, fun_dependents.split('\0') if fun_dependents else [])
+            for fun_name, fun_dependents in self.cursor.fetchall()]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
-- 
2.43.0


From 8e65b8973631ecd8a20a785aa9a01c5dd35a00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 11/30] fix: stop checking functions that call each other over
 and over

---
 lib/fbuild/db/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index bfc2388..43c862e 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -147,7 +147,7 @@ class Backend:
         if not fun_dirty:
             # Have any of it's dependents changed?
             for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
-- 
2.43.0


From b6cc22a3ed3b81d561f4363d089ae9df35e15ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 12/30] fix: re-run a cached function if one it called is not
 defined any more

---
 lib/fbuild/db/backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 43c862e..0261a37 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -139,7 +139,12 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function's not there any more or not imported yet.
+            return True, None
+
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
         # Has the function changed?
-- 
2.43.0


From d2852cd75df9e3f14bf98a164c2a1b55a3367a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 13/30] fix: let platform options add to sets

---
 lib/fbuild/builders/platform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..62d7b47 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -207,7 +207,10 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        value += modifier
+                        if isinstance(value, set):
+                            value.update(modifier)
+                        else:
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
-- 
2.43.0


From 5f83d5cdedf01f10cfe914ae5a6b475650088a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 14/30] fix: let file name patterns match names with line
 breaks exactly

---
 lib/fbuild/fnmatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 1947bc4..35e00bd 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -85,7 +85,7 @@ def translate(pat):
     There is no way to quote meta-characters.
     """
 
-    return _translate(0, pat, '')[2] + '$'
+    return '(?s:' + _translate(0, pat, '')[2] + r')\Z'
 
 def _translate(i, pat, end):
     res = ''
-- 
2.43.0


From 758c07b34f844a908d4415a250138e7240f224d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 15/30] fix: do not accept positional arguments for
 keyword-only parameters

---
 lib/fbuild/functools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..72ba568 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -121,7 +121,7 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
-- 
2.43.0


From 3efae032363b45e371ec841ba94b20bb48b6bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 16/30] fix: bind parameters named kw or kwargs like any other

---
 lib/fbuild/functools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index 72ba568..e089b9e 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -254,9 +254,8 @@ def bind_args(function, args, kwargs):
 
     # Remove __FBUILD_INNER, because it doesn't really matter here and will
     # only make the rest of the code more complicated.
-    for kind in 'kw', 'kwargs':
-        if kind in bound and '__FBUILD_INNER' in bound[kind]:
-            bound[kind].pop('__FBUILD_INNER', None)
+    if spec.varkw is not None:
+        bound[spec.varkw].pop('__FBUILD_INNER', None)
 
     return bound
 
-- 
2.43.0


From 1a7df8ddfd1d4c313e2a7c335c191652940003b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 17/30] fix: store a call that another one stored meanwhile in
 its place

---
 lib/fbuild/db/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 0261a37..57c16b4 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -117,6 +117,9 @@ class Backend:
             _, _, old_dependents = self.find_function(fun_name)
             fun_dependents = (*old_dependents, *fun_dependents)
 
+            # The same goes for the call: it may have been stored by now.
+            _, call_id, _ = self.find_call(fun_id, bound)
+
         fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                     tuple(dict.fromkeys(fun_dependents)))
 
-- 
2.43.0


From dfb931be62511be0df8e031ee0e3087bd4badf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:41 +0000
Subject: [PATCH 18/30] fix: keep the registered names of a file deleted from
 the sqlite engine

---
 lib/fbuild/db/sqlite_backend.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 25b9340..b8cadaf 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -513,30 +513,33 @@ class SqliteBackend(fbuild.db.backend.Backend):
         """Remove the file from the database."""
 
         self.cursor.execute(
-            'SELECT file_id FROM File WHERE file_name=?',
+            'SELECT file_id,file_digest FROM File WHERE file_name=?',
             (file_name,))
 
         rows = self.cursor.fetchall()
 
-        # Exit early if we got nothing returned.
-        if not rows:
+        # Exit early if we got nothing returned, or only a name that we kept.
+        if not rows or rows[0][1] is None:
             return False
 
-        (file_id,), = rows
+        (file_id, _), = rows
 
         # And delete all of the related call files.
         self.cursor.execute(
             'DELETE FROM CallFile WHERE file_id=?',
             (file_id,))
 
+        # The calls that registered the file still depend upon it, so keep its
+        # name for them or they wouldn't notice that they have to run again.
         self.cursor.execute(
-            'DELETE FROM ExternalSrc WHERE file_id=?',
+            'UPDATE File SET file_mtime=NULL, file_digest=NULL WHERE file_id=?',
             (file_id,))
 
-        self.cursor.execute(
-            'DELETE FROM ExternalDst WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+        self.cursor.execute('''
+            DELETE FROM File
+            WHERE file_id=?
+                AND file_id NOT IN (SELECT file_id FROM ExternalSrc)
+                AND file_id NOT IN (SELECT file_id FROM ExternalDst)
+            ''', (file_id,))
 
         return True
-- 
2.43.0


From b1938902444fbc62892e2c8e12e242f85000cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 19/30] fix: do not accept positional-only arguments by keyword

---
 lib/fbuild/functools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e089b9e..33b05f6 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -92,10 +92,15 @@ def normalize_args(function, args, kwargs):
     varargs = spec.varargs is not None
     varkw = spec.varkw is not None
 
+    # The spec doesn't say which arguments cannot be passed by keyword.
+    code = getattr(function, '__code__', None)
+    posonly = getattr(code, 'co_posonlyargcount', 0)
+
     # If the function is a method, then we've already got the "self" argument
     # bundled up with it, so don't try to find it in our spec.
     if inspect.ismethod(function):
         fn_args = fn_args[1:]
+        posonly = max(posonly - 1, 0)
 
     # If there are no arguments, error out if extra ones were provided.
     if not fn_args and not fn_kwargs and not varargs and not varkw:
@@ -139,6 +144,8 @@ def normalize_args(function, args, kwargs):
     for i, key in enumerate(fn_args):
         # First, check if we provide a kwarg for it
         try:
+            if i < posonly:
+                raise KeyError(key)
             value = kwargs.pop(key)
         except KeyError:
             # No kwarg, so see if we specified an argument
@@ -201,7 +208,7 @@ def normalize_args(function, args, kwargs):
         for key, value in kwargs.items():
             # if the key isn't in the fn_args and isn't related to
             # magic method decorators, it's unknown
-            if key not in fn_args and key != '__FBUILD_INNER':
+            if key not in fn_args[posonly:] and key != '__FBUILD_INNER':
                 raise TypeError(
                     '%s() got an unexpected keyword argument %r' %
                     (function.__name__, key))
-- 
2.43.0


From dbd9c63854264fd60621425007137139d6d252bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 20/30] fix: do not modify the caller's values when adding
 platform options

---
 lib/fbuild/builders/platform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 62d7b47..b0503c2 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -1,3 +1,4 @@
+import copy
 import platform
 import os
 
@@ -207,6 +208,8 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
+                        # Don't modify the caller's value or options.
+                        value = copy.copy(value)
                         if isinstance(value, set):
                             value.update(modifier)
                         else:
-- 
2.43.0


From 26c91c584406c0cbdff5ca4e633ea1b570dbfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 21/30] fix: keep adding platform options in place, copy the
 caller's values and the options instead

---
 lib/fbuild/builders/platform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index b0503c2..164a163 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -208,8 +208,6 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        # Don't modify the caller's value or options.
-                        value = copy.copy(value)
                         if isinstance(value, set):
                             value.update(modifier)
                         else:
@@ -226,7 +224,8 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
-                    kwargs[key] = modifier
+                    # A later addition must not modify the option itself.
+                    kwargs[key] = copy.copy(modifier)
 
 
 def auto_platform_options(pass_platform=False):
@@ -248,6 +247,10 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                # Additions are done in place, so don't modify the caller's
+                # values.
+                kw = {key: copy.copy(value) if isinstance(value, (list, set))
+                      else value for key, value in kw.items()}
                 parse_platform_options(ctx, kw.get('platform', None),
                                        kw.pop('platform_options', []), kw)
             if not pass_platform:
-- 
2.43.0


From 874dd9f403170be7d1fc2af54bcbcbde2d4a41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 22/30] fix: raise what stopped a worker thread from the map
 that ran it

---
 lib/fbuild/sched.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..c09d753 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -414,3 +414,7 @@ class Task:
             self.result = self.function(self.src)
         except Exception as e:
             self.exc = e
+        except BaseException as e:
+            # Let the map know that it didn't get a result.
+            self.exc = e
+            raise
-- 
2.43.0


From eee1e055eb2a2794ce3f28965b4476226916afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 23/30] fix: write buffered log messages before the unbuffered
 ones that follow them

---
 lib/fbuild/console.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..974db6c 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -128,8 +128,12 @@ class Log:
             self.flush()
 
     def write(self, msg, *, buffer=True, **kwargs):
+        # make sure message is a string
+        msg = str(msg)
         if not buffer or self._threadcount == 1:
             with self._lock:
+                # Write what this thread logged before first.
+                self.flush()
                 self._write(msg, **kwargs)
         else:
             if buffer and self._thread_stack:
@@ -137,11 +141,10 @@ class Log:
                 if msg.endswith('\n'):
                     self.flush()
             else:
-                self._write(msg, **kwargs)
+                with self._lock:
+                    self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
-        # make sure message is a string
-        msg = str(msg)
         if self.file:
             self.file.write(msg)
 
-- 
2.43.0


From 1078f5fabb396f62cd65f06cfc75b935c7bb6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 24/30] fix: refuse install targets that are not the last

---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 3669c19..0a64b87 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -103,7 +103,7 @@ def build(ctx):
 
     # Installation stuff.
     if 'install' in targets:
-        if targets[-1] != 'install':
+        if targets.index('install') != len(targets) - 1:
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
             targets.insert(targets.index('install'), 'build')
-- 
2.43.0


From 03e1d4aaa8c0cf4ea69b1358a49eac8b4909af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 25/30] fix: return exception objects that a database request
 evaluates to

---
 lib/fbuild/rpc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index fbbedde..9acdfa9 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -20,6 +20,7 @@ class _Result:
 
     def __init__(self):
         self.result = _NULL
+        self.exc = None
 
 # ------------------------------------------------------------------------------
 
@@ -61,13 +62,13 @@ class RPC(threading.Thread):
         # Wait for the message to be processed.
         event.wait()
 
+        # Raise any exceptions we've received.
+        if result.exc is not None:
+            raise result.exc
+
         assert result.result is not _NULL, "function failed to get called!"
 
-        # Raise any exceptions we've received.
-        if isinstance(result.result, BaseException):
-            raise result.result
-        else:
-            return result.result
+        return result.result
 
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
@@ -111,10 +112,10 @@ class RPC(threading.Thread):
         try:
             result.result = self._handler(*args, **kwargs)
         except Exception as err:
-            result.result = err
+            result.exc = err
         except BaseException as err:
             # Let the client know that we had a fatal error.
-            result.result = err
+            result.exc = err
             raise
         finally:
             # Let the client know that we finished.
-- 
2.43.0


From a7e8a74c0fa3a564a24c07cad17367237a1fdbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 26/30] fix: wake every worker at shutdown, also when a task
 took its wake-up call

---
 lib/fbuild/sched.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index c09d753..c41729d 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -305,12 +305,14 @@ class Scheduler:
     def shutdown(self):
         """Tell the worker threads to shut down."""
 
+        for thread in self.__threads:
+            thread.shutdown()
+
         # make sure we wake the threads before we kill them.
         for thread in self.__threads:
             self.__ready_queue.put(None)
 
         for thread in self.__threads:
-            thread.shutdown()
             thread.join()
 
         # Reset our thread list.
@@ -349,6 +351,11 @@ class WorkerThread(threading.Thread):
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
             raise
+        finally:
+            # A task that evaluated others may have taken the wake-up calls of
+            # other threads.
+            if self.__finished:
+                self.__ready_queue.put(None)
 
     def read_task(self, *args, **kwargs):
         """
-- 
2.43.0


From ceb32a779248a5b29259f39631c76dc64ee8ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 27/30] fix: do not report a command as timed out that ended on
 its own

---
 lib/fbuild/context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..54f1b4a 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -186,8 +186,10 @@ class Context:
             timed_out = False
             def timeout_function(p):
                 nonlocal timed_out
-                timed_out = True
-                p.kill(group=True)
+                # The command may just have ended on its own.
+                if p.returncode is None:
+                    timed_out = True
+                    p.kill(group=True)
 
             # Set the timer to None for now to make sure it's defined.
             timer = None
-- 
2.43.0


From 279ca9413791d5bfbcd34482518c67edcc5c790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 28/30] fix: wait for the rpc server itself to start, not for
 its thread

---
 lib/fbuild/rpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 9acdfa9..3ad5441 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -34,7 +34,7 @@ class RPC(threading.Thread):
         self._lock = threading.Lock()
         self._queue = queue.Queue()
         self._events = threading.local()
-        self._started = threading.Event()
+        self._serving = threading.Event()
         self._running = False
 
     def call(self, *args, **kwargs):
@@ -73,13 +73,13 @@ class RPC(threading.Thread):
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
 
-        self._started.wait()
+        self._serving.wait()
 
     def run(self):
         """Run the rpc thread."""
 
         self._running = True
-        self._started.set()
+        self._serving.set()
 
         try:
             while True:
-- 
2.43.0


From c5741ab87a10d69ae509b8c0a94c9ac8956bface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 29/30] fix: keep installed files below the destination root

A subdirectory or prefix beginning with several separators lost only the
first one, so that the rest was still absolute and replaced the destination
root when joined with it.
---
 lib/fbuild/context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 54f1b4a..ab4fc41 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -270,10 +270,9 @@ class Context:
         prefix = Path(self.install_prefix)
 
         if subdir.startswith('/'):
-            target_root = destdir / subdir[1:]
+            target_root = destdir / subdir.lstrip('/')
         else:
-            if prefix.startswith('/'):
-                prefix = prefix[1:]
+            prefix = prefix.lstrip('/')
             target_root = destdir / prefix / subdir
 
         # Generate the target path.
-- 
2.43.0


From 4599cac819e95bab3f5f719966609777b493d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 30/30] fix: record calls made in several threads with their
 own callers

The stack of active calls was shared between threads, so with -j>1 a call
could be recorded as made by a call active in another thread, or not at all
by its own caller, which then could return a stale result. Each thread now
has its own active call, and a task run by the scheduler runs as if it was
called by whoever scheduled it.
---
 lib/fbuild/db/database.py | 28 +++++++++++++++++-----------
 lib/fbuild/sched.py       |  7 ++++++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 0e42750..ba24bee 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,3 +1,4 @@
+import contextvars
 import hashlib
 import itertools
 import pprint
@@ -26,7 +27,11 @@ class Database:
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
+
+        # The cached functions called by the active call. Calls run in several
+        # threads at the same time, so each of them has its own.
+        self._dependents = contextvars.ContextVar('dependents', default=None)
+
         self._explain = explain
         self._connected = False
 
@@ -94,10 +99,10 @@ class Database:
         else:
             outer_function = function
 
-        # If there is a call stack, then this function is a dependent of the
-        # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        # If there is an active call, then this function is a dependent of it.
+        parent_dependents = self._dependents.get()
+        if parent_dependents is not None:
+            parent_dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -173,20 +178,21 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
+        fun_dependents = []
+        token = self._dependents.set(fun_dependents)
 
         # Clear external srcs and dsts since they'll be recomputed inside
         # the function.
         external_srcs = set()
         external_dsts = set()
 
-        # The call was dirty, so recompute it. Make sure our entry leaves the
-        # call stack even if the function raises, or the functions that get
-        # called afterwards would be recorded with the wrong parent.
+        # The call was dirty, so recompute it. Make sure our parent is the
+        # active call again even if the function raises, or the functions that
+        # get called afterwards would be recorded with the wrong parent.
         try:
             call_result = outer_function(*args, **kwargs)
         finally:
-            fun_dependents = tuple(self._callstack.pop())
+            self._dependents.reset(token)
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
@@ -194,7 +200,7 @@ class Database:
 
         # Save the results in the database.
         self._rpc.call(self._backend.cache,
-            fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
+            fun_dirty, fun_id, fun_name, fun_digest, tuple(fun_dependents),
             call_id, call_bound, call_result,
             call_file_digests, external_srcs, external_dsts)
 
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index c41729d..de8015c 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -1,5 +1,6 @@
 import collections
 import contextlib
+import contextvars
 import io
 import operator
 import queue
@@ -402,6 +403,10 @@ class Task:
         self.dependencies = []
         self.exc = None
 
+        # The function is run as if it was called by whoever made this task,
+        # whichever thread runs it.
+        self.context = contextvars.copy_context()
+
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
         return False."""
@@ -418,7 +423,7 @@ class Task:
         """Run the task's function."""
 
         try:
-            self.result = self.function(self.src)
+            self.result = self.context.run(self.function, self.src)
         except Exception as e:
             self.exc = e
         except BaseException as e:
-- 
2.43.0

