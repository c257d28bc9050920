From d81ffc36fd59ab40bc25f92ca26aa1233573f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 01/82] fix: memory: tell the last path component by position,
 not by name

A path such as /a/b/a, with /a a symlink, was looked up as if its first
component were its last one, so the link was not followed there.
---
 abl/vpath/base/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..d858136 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,11 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        last = len(steps) - 1
+        for i, part in enumerate(steps):
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = i == last
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
-- 
2.43.0


From 130c9be025aa799f88b28ed1d591ae9eddc2451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 02/82] fix: memory: treat a file or a dangling link inside a
 path as not a directory

Looking up a path below a file (or below a link that leads nowhere), and
listing a file, raised AttributeError. Queries now answer False and other
operations raise OSError (ENOTDIR), as the local backend does.
---
 abl/vpath/base/memory.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index d858136..270a98a 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -341,6 +341,13 @@ class MemoryFileSystem(FileSystem):
         current = base
         last = len(steps) - 1
         for i, part in enumerate(steps):
+            if current is None or current.kind != NodeKind.DIR:
+                if throw:
+                    p = '/'.join(steps)
+                    raise self.lookup_exc_class(errno.ENOTDIR,
+                                                "Not a directory: %s" % p)
+                else:
+                    return [None, None]
             prev = current
             if current.has(part):
                 is_last = i == last
@@ -364,6 +371,14 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, base, steps):
+        nd = self._get_node(base, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %s" % '/'.join(steps))
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -423,7 +438,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(self._fs, p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
@@ -457,7 +472,7 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        nd = self._get_dir(self._fs, p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
 
         if nd.has(file_to_create):
@@ -542,8 +557,8 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir(self._fs,
+                           [x for x in self._path(path).split("/") if x])
         return sorted(nd.keys())
 
 
@@ -615,7 +630,7 @@ class MemoryFileSystem(FileSystem):
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(self._fs, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-- 
2.43.0


From ba655c43b51d6cda21fed3666076d9e94ff7d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 03/82] fix: memory: islink answers False below a looping link

exists, isdir and isfile already do; islink let the ELOOP error escape.
---
 abl/vpath/base/memory.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 270a98a..8890674 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -619,11 +619,15 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._path(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
-            if nd is None:
-                return False
-            return nd.kind == NodeKind.LINK
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+                if nd is None:
+                    return False
+                return nd.kind == NodeKind.LINK
+            except OSError as e:
+                if e.errno == errno.ELOOP:
+                    return False
         return False
 
 
-- 
2.43.0


From d21a39b88300f7674f4152ac561451a8c4ff1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 04/82] fix: memory: opening a directory is refused with EISDIR
 in every mode

---
 abl/vpath/base/memory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 8890674..935c666 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -464,8 +464,14 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p](path, func)
 
 
+    def _refuse_directory(self, nd):
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory" )
+
+
     def _open_for_read(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        self._refuse_directory(nd)
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
@@ -477,8 +483,7 @@ class MemoryFileSystem(FileSystem):
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
-            if cnd is not None and cnd.kind == NodeKind.DIR:
-                raise IOError(errno.EISDIR, "File is directory" )
+            self._refuse_directory(cnd)
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
         else:
@@ -489,6 +494,7 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_append(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        self._refuse_directory(nd)
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
-- 
2.43.0


From d1a64caed14e96b39ab8e5664faf389ccfb88785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 05/82] fix: memory: append creates a missing file, writing
 follows a dangling link

---
 abl/vpath/base/memory.py | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 935c666..79b4488 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -476,26 +476,36 @@ class MemoryFileSystem(FileSystem):
         return MemoryFileProxy(nd, True, binary=binary)
 
 
+    def _open_or_create(self, path):
+        """the file at the given path, or a new one if there is none yet; a
+        dangling link in the last position is followed to where it points
+        """
+        for _ in range(33):
+            p = self._path(path)
+            nd = self._get_dir(self._fs, p.split("/")[:-1])
+            file_to_create = p.split("/")[-1]
+            if not nd.has(file_to_create):
+                f = MemoryFile(p)
+                self._create_child(nd, file_to_create, f)
+                return f
+            cnd = self._child(nd, file_to_create, resolve_link=False)
+            if cnd.kind != NodeKind.LINK:
+                self._refuse_directory(cnd)
+                return cnd
+            path = cnd.target
+        raise self.lookup_exc_class(errno.ELOOP,
+                                    "Too many symbolic links encountered")
+
+
     def _open_for_write(self, path, binary=False):
-        p = self._path(path)
-        nd = self._get_dir(self._fs, p.split("/")[:-1])
-        file_to_create = p.split("/")[-1]
-
-        if nd.has(file_to_create):
-            cnd = self._child(nd, file_to_create)
-            self._refuse_directory(cnd)
-            cnd.reset()
-            return MemoryFileProxy(cnd, False, binary=binary)
-        else:
-            f = MemoryFile(p)
-            self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, False, binary=binary)
+        nd = self._open_or_create(path)
+        nd.reset()
+        return MemoryFileProxy(nd, False, binary=binary)
 
 
     def _open_for_append(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
-        self._refuse_directory(nd)
-        nd.seek(len(nd))
+        nd = self._open_or_create(path)
+        nd.seek(nd.size())
         return MemoryFileProxy(nd, False, binary=binary)
 
 
-- 
2.43.0


From d9744dc3d27f062329b8616cba5e44f37b428e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 06/82] fix: memory: every handle has a position of its own

---
 abl/vpath/base/memory.py | 54 ++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 79b4488..af8e661 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -135,11 +135,17 @@ class MemoryFile(object):
 
 
 class MemoryFileProxy(object):
+    """
+    An open file: the content is that of mem_file, but the position belongs
+    to the handle, so that several handles can use the same file.
+    """
 
-    def __init__(self, mem_file, readable, binary=False):
+    def __init__(self, mem_file, readable, binary=False, append=False):
         self.mem_file = mem_file
         self.readable = readable
         self.binary = binary
+        self.append = append
+        self.position = mem_file.size() if append else 0
 
 
     def encode(self, data):
@@ -150,14 +156,40 @@ class MemoryFileProxy(object):
         return data if self.binary else data.decode('utf-8')
 
 
+    def _at_position(self, func, *args, **kwargs):
+        self.mem_file.seek(self.position)
+        try:
+            return func(*args, **kwargs)
+        finally:
+            self.position = self.mem_file.tell()
+
+
     def read(self, *args, **kwargs):
         if not self.readable:
             raise IOError(errno.EBADF, "bad file descriptor")
-        return self.decode(self.mem_file.read(*args, **kwargs))
+        return self.decode(self._at_position(self.mem_file.read, *args, **kwargs))
 
 
     def write(self, data, *args, **kwargs):
-        return self.mem_file.write(self.encode(data), *args, **kwargs)
+        if self.append:
+            self.position = self.mem_file.size()
+        return self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
+
+
+    def seek(self, *args, **kwargs):
+        return self._at_position(self.mem_file.seek, *args, **kwargs)
+
+
+    def tell(self):
+        return self.position
+
+
+    def truncate(self, pos=None):
+        return self.mem_file.truncate(self.position if pos is None else pos)
+
+
+    def close(self):
+        self.position = 0
 
 
     def __getattr__(self, name):
@@ -177,19 +209,23 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
-        return self.decode(next(self.mem_file))
+        line = self.readline()
+        if line:
+            return line
+        else:
+            raise StopIteration
 
 
     next = __next__ # Python 2 iterator interface
 
 
     def readline(self):
-        return self.decode(self.mem_file.readline())
+        return self.decode(self._at_position(self.mem_file.readline))
 
 
     def readlines(self):
-        for line in self.mem_file.readlines():
-            yield self.decode(line)
+        for line in self:
+            yield line
 
 
 class MemoryDir(object):
@@ -472,7 +508,6 @@ class MemoryFileSystem(FileSystem):
     def _open_for_read(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
         self._refuse_directory(nd)
-        nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
@@ -505,8 +540,7 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_append(self, path, binary=False):
         nd = self._open_or_create(path)
-        nd.seek(nd.size())
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, False, binary=binary, append=True)
 
 
     def open(self, path, options, mimetype):
-- 
2.43.0


From 24ac3c61163e13980577acfadf5b9804d43fec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 07/82] fix: memory: handles refuse what their mode does not
 allow

---
 abl/vpath/base/memory.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index af8e661..c6c28d5 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -140,9 +140,10 @@ class MemoryFileProxy(object):
     to the handle, so that several handles can use the same file.
     """
 
-    def __init__(self, mem_file, readable, binary=False, append=False):
+    def __init__(self, mem_file, readable, binary=False, append=False, writable=False):
         self.mem_file = mem_file
         self.readable = readable
+        self.writable = writable
         self.binary = binary
         self.append = append
         self.position = mem_file.size() if append else 0
@@ -164,13 +165,18 @@ class MemoryFileProxy(object):
             self.position = self.mem_file.tell()
 
 
-    def read(self, *args, **kwargs):
-        if not self.readable:
+    def _require(self, allowed):
+        if not allowed:
             raise IOError(errno.EBADF, "bad file descriptor")
+
+
+    def read(self, *args, **kwargs):
+        self._require(self.readable)
         return self.decode(self._at_position(self.mem_file.read, *args, **kwargs))
 
 
     def write(self, data, *args, **kwargs):
+        self._require(self.writable)
         if self.append:
             self.position = self.mem_file.size()
         return self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
@@ -185,6 +191,7 @@ class MemoryFileProxy(object):
 
 
     def truncate(self, pos=None):
+        self._require(self.writable)
         return self.mem_file.truncate(self.position if pos is None else pos)
 
 
@@ -220,6 +227,7 @@ class MemoryFileProxy(object):
 
 
     def readline(self):
+        self._require(self.readable)
         return self.decode(self._at_position(self.mem_file.readline))
 
 
@@ -505,10 +513,10 @@ class MemoryFileSystem(FileSystem):
             raise IOError(errno.EISDIR, "File is directory" )
 
 
-    def _open_for_read(self, path, binary=False):
+    def _open_for_read(self, path, binary=False, update=False):
         nd = self._get_node_for_path(self._fs, path)
         self._refuse_directory(nd)
-        return MemoryFileProxy(nd, True, binary=binary)
+        return MemoryFileProxy(nd, True, binary=binary, writable=update)
 
 
     def _open_or_create(self, path):
@@ -532,26 +540,27 @@ class MemoryFileSystem(FileSystem):
                                     "Too many symbolic links encountered")
 
 
-    def _open_for_write(self, path, binary=False):
+    def _open_for_write(self, path, binary=False, update=False):
         nd = self._open_or_create(path)
         nd.reset()
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, update, binary=binary, writable=True)
 
 
-    def _open_for_append(self, path, binary=False):
+    def _open_for_append(self, path, binary=False, update=False):
         nd = self._open_or_create(path)
-        return MemoryFileProxy(nd, False, binary=binary, append=True)
+        return MemoryFileProxy(nd, update, binary=binary, append=True, writable=True)
 
 
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
-            binary = (options and "b" in options)
+            binary = bool(options and "b" in options)
+            update = bool(options and "+" in options)
             if options is None or "r" in options:
-                return self._open_for_read(path, binary=binary)
+                return self._open_for_read(path, binary=binary, update=update)
             elif "w" in options:
-                return self._open_for_write(path, binary=binary)
+                return self._open_for_write(path, binary=binary, update=update)
             elif "a" in options:
-                return self._open_for_append(path, binary=binary)
+                return self._open_for_append(path, binary=binary, update=update)
             else:
                 raise OSError(errno.EINVAL, "The mode flag is not valid")
 
-- 
2.43.0


From 6c65ef26284099c9b72b41b78849c83978030126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 08/82] fix: memory: reading part of a text counts characters,
 not bytes

---
 abl/vpath/base/memory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index c6c28d5..9f91ba9 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -170,9 +170,15 @@ class MemoryFileProxy(object):
             raise IOError(errno.EBADF, "bad file descriptor")
 
 
-    def read(self, *args, **kwargs):
+    def read(self, size=-1):
         self._require(self.readable)
-        return self.decode(self._at_position(self.mem_file.read, *args, **kwargs))
+        if self.binary or size is None or size < 0:
+            return self.decode(self._at_position(self.mem_file.read, size))
+        # the size of a text is given in characters
+        start = self.position
+        text = self.decode(self._at_position(self.mem_file.read))[:size]
+        self.position = start + len(text.encode('utf-8'))
+        return text
 
 
     def write(self, data, *args, **kwargs):
-- 
2.43.0


From 31fc453a7cd2f6198f1d6346298bf10ead287dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 09/82] fix: memory: overwriting a file keeps its mode

---
 abl/vpath/base/memory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 9f91ba9..5d992c1 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -40,7 +40,6 @@ class MemoryFile(object):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
 
 
-- 
2.43.0


From 27488c2ae2fac98e167c42be949ee313542a28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 10/82] fix: memory: file locks belong to their file system,
 not to all of them

---
 abl/vpath/base/memory.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5d992c1..ac05f5e 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -25,22 +25,19 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path):
+    def __init__(self, path, lock):
         self.path = path
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
+        self.lock = lock
 
 
     def reset(self):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
@@ -357,7 +354,7 @@ class MemoryFileSystem(FileSystem):
         self.lookup_exc_class = OSError
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self.file_locks = defaultdict(threading.Lock)
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -533,7 +530,7 @@ class MemoryFileSystem(FileSystem):
             nd = self._get_dir(self._fs, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if not nd.has(file_to_create):
-                f = MemoryFile(p)
+                f = MemoryFile(p, self.file_locks[p])
                 self._create_child(nd, file_to_create, f)
                 return f
             cnd = self._child(nd, file_to_create, resolve_link=False)
@@ -659,13 +656,13 @@ class MemoryFileSystem(FileSystem):
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.file_locks[p]
             res = lock.acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.file_locks[p]
             lock.release()
 
         if mtime is not self.SENTINEL:
-- 
2.43.0


From e8a3b497f01543987974ac7eed9f372e0240dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 11/82] fix: memory: lock() leaves the content alone until it
 holds the lock

---
 abl/vpath/base/memory.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index ac05f5e..ce16cc7 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -11,6 +11,7 @@ from collections import defaultdict
 
 from io import BytesIO
 
+from .exceptions import FileDoesNotExistError
 from .fs import FileSystem, BaseUri
 
 from abl.util import Bunch, LockFileObtainException
@@ -311,20 +312,32 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
-        self.lock = mfile.lock
+        # the content belongs to whoever holds the lock: don't touch it before
+        self.lock = self._open().lock
         if self.fail_on_lock:
             if not self.lock.acquire(False):
                 raise LockFileObtainException
         else:
             self.lock.acquire()
-        return mfile
+        try:
+            return self._open()
+        except:
+            self.lock.release()
+            raise
+
+
+    def _open(self):
+        return self.fs.open(self.path, "a", mimetype='application/octet-stream')
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
-        self.lock.release()
-        if self.cleanup:
-            self.path.remove()
+        try:
+            if self.cleanup:
+                self.path.remove()
+        except FileDoesNotExistError:
+            pass
+        finally:
+            self.lock.release()
 
 
 class LookupExceptionClass(object):
-- 
2.43.0


From 1f6b12c7ababc042db52b44a45ceecf3d3e4e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 12/82] fix: memory: empty path components don't name anything

---
 abl/vpath/base/memory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index ce16cc7..6454e97 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -452,8 +452,8 @@ class MemoryFileSystem(FileSystem):
         p = super(MemoryFileSystem, self)._path(path)
         # cut off leading slash, that's our root
         assert p.startswith("/")
-        p = p[1:]
-        return p
+        # empty parts, as in '/foo//bar/', don't mean anything
+        return "/".join([x for x in p.split("/") if x])
 
 
     def isdir(self, path):
@@ -540,6 +540,8 @@ class MemoryFileSystem(FileSystem):
         """
         for _ in range(33):
             p = self._path(path)
+            if not p:
+                self._refuse_directory(self._fs)
             nd = self._get_dir(self._fs, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if not nd.has(file_to_create):
@@ -645,14 +647,14 @@ class MemoryFileSystem(FileSystem):
                                         [x for x in self._path(path).split("/") if x],
                                         follow_link=False)
         if parent is not None:
-            self._del_child(parent, path.last())
+            self._del_child(parent, self._path(path).split("/")[-1])
 
 
     def removedir(self, path):
         prev, _ = self._get_node_prev(self._fs,
                                             [x for x in self._path(path).split("/") if x])
         if prev is not None:
-            part = path.last()
+            part = self._path(path).split("/")[-1]
             if self._child(prev, part).isempty():
                 self._del_child(prev, part)
             else:
-- 
2.43.0


From 2f76cb31e2e8a3b79231b5a717abd267b59d35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 13/82] fix: a relative path may start with '..' or with a
 hidden name

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..148ffc8 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -277,7 +277,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From 4f9194041529723f9c9401d5806562a5c8278641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 14/82] fix: '/.hidden' is an absolute path

---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 148ffc8..9234df7 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -233,6 +233,8 @@ def with_connection(func, self, *args, **argd):
 #============================================================================
 
 scheme_re = re.compile("([a-z+-]+)://")
+# '/./foo' and '/../foo' stand for relative paths, '/.foo' doesn't
+relative_re = re.compile(r"/\.\.?(/|$)")
 
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
@@ -334,7 +336,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if relative_re.match(path) else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -407,7 +409,7 @@ class BaseUri(object):
     @property
     def is_absolute(self):
         path = self.parse_result.path
-        if path.startswith('/.'):
+        if relative_re.match(path):
             path = path[1:]
         return path.startswith('/')
 
-- 
2.43.0


From 441760382b36f41aca08570e624f975467b8764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 15/82] fix: credentials in the query or without a host reach
 the backend

---
 abl/vpath/base/fs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 9234df7..fcaa1c8 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -287,12 +287,12 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
+        if not self.username:
             if 'username' in self.extras:
                 self.username = self.extras.pop('username')
             elif 'username' in self.parse_result.query:
                 self.username = self.parse_result.query['username']
-        if self.password is None:
+        if not self.password:
             if 'password' in self.extras:
                 self.password = self.extras.pop('password')
             elif 'password' in self.parse_result.query:
@@ -307,6 +307,9 @@ class BaseUri(object):
         extras = self.extras.copy()
         if self.scheme not in ('http','https'):
             extras.update(self.query)
+        # the credentials have their own place in the connection's key
+        extras.pop('username', None)
+        extras.pop('password', None)
 
         return extras
 
-- 
2.43.0


From db5ec21f4846b81d0cee2184f6c121c05abd5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 16/82] fix: split, last and + work on the path, not on query
 or connector

---
 abl/vpath/base/fs.py | 50 +++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index fcaa1c8..382800a 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -398,13 +398,22 @@ class BaseUri(object):
         return self.join(other)
 
 
-    def __add__(self, suffix):
-        path = self.uri + suffix
-        result = self.__class__(
-            path,
+    def _with_path(self, path, query=None):
+        """
+        an URI for another path of the same connection
+        """
+        parts = self.parse_result.as_list()
+        parts[2] = path
+        parts[3] = query
+        return self.__class__(
+            uri_from_parts(parts),
             sep=self.sep,
             **self._extras()
             )
+
+
+    def __add__(self, suffix):
+        result = self._with_path(self.parse_result.path + suffix, self.query)
         result.parse_result.query = self.query.copy()
         return result
 
@@ -425,23 +434,14 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        try:
-            first, second = self.uri.rsplit('/', 1)
-        except ValueError:
-            first = ''
-            second = self.uri
+        path = self.parse_result.path
+        first, slash, second = path.rpartition('/')
         # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
-        if not first:
+        if slash and not first:
+            first = '/'
+        if path and not first:
             first = '.'
-        return (self.__class__(
-            first,
-            sep=self.sep,
-            **self._extras()
-            ),
-            second.partition('?')[0]
-            )
+        return (self._with_path(first), second)
 
 
     def directory(self, level=1):
@@ -480,7 +480,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
+        parts = self.parse_result.path.split('/')
         if not parts:
             return ''
         if len(parts) > 1:
@@ -507,15 +507,7 @@ class BaseUri(object):
             [x.strip('/') for x in args[:-1]] +
             [args[-1]]
             )
-        parts = self.parse_result.as_list()
-        parts[2] = '/'.join(args)
-
-        result = self.__class__(
-            uri_from_parts(parts),
-            sep=sep,
-            **self._extras()
-            )
-
+        result = self._with_path('/'.join(args), self.query)
         result.parse_result.query = self.query.copy()
 
         return result
-- 
2.43.0


From b8b12ede3bc94c074f9ece93d653ae54ea4f387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 17/82] fix: derived and copied URIs keep credentials and query

---
 abl/vpath/base/fs.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 382800a..f6e1424 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,4 +1,5 @@
 import atexit
+import copy
 from collections import defaultdict
 import fnmatch
 import hashlib
@@ -273,8 +274,11 @@ class BaseUri(object):
         if isinstance(uri, BaseUri):
             self.uri = uri.uri
             self.sep = uri.sep
-            self.parse_result = UriParse(uri.uri)
+            self.parse_result = copy.copy(uri.parse_result)
+            self.parse_result.query = uri.query.copy()
             self.extras = uri.extras.copy()
+            self.username = uri.username
+            self.password = uri.password
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -405,11 +409,14 @@ class BaseUri(object):
         parts = self.parse_result.as_list()
         parts[2] = path
         parts[3] = query
-        return self.__class__(
+        result = self.__class__(
             uri_from_parts(parts),
             sep=self.sep,
             **self._extras()
             )
+        result.username = self.username
+        result.password = self.password
+        return result
 
 
     def __add__(self, suffix):
-- 
2.43.0


From 5647108344556df24cb71c2c38b51e0741ba00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 18/82] fix: URIs of different archives are not equal

---
 abl/vpath/base/simpleuri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..7bbabab 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -149,6 +149,7 @@ class UriParse(object):
         return (
             self.scheme == other.scheme and
             self.netloc == other.netloc and
+            self.vpath_connector == other.vpath_connector and
             self.path == other.path and
             self.query == other.query
             )
-- 
2.43.0


From 3d1c50e10e3acd5d68b5ee92cf69e4d13b71a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 19/82] fix: double parentheses are special only in place of
 the authority

---
 abl/vpath/base/uriparse.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..abe86b3 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -57,6 +57,26 @@ from __future__ import print_function
 
 import re
 
+def find_inner_part(uri):
+    """
+       An URI in double parentheses can take the place of the authority
+
+       >>> find_inner_part("zip://((file:///some.zip))/path")
+       (6, 26)
+
+    """
+    m = re.match(r'[^:/?#]+://\(\(', uri)
+    if m is None:
+        return (0, 0)
+    start = m.end() - 2
+    depth = 0
+    for m in re.finditer(r'\(\(|\)\)', uri):
+        depth += 1 if m.group() == '((' else -1
+        if depth == 0:
+            return (start, m.end())
+    return (0, 0)
+
+
 def urisplit(uri):
     """
        Basic URI Parser according to STD66 aka RFC3986
@@ -65,12 +85,10 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
-    m = inner_part.search(uri)
-    inner_value = ''
-    if m is not None:
-        inner_value = uri[m.start():m.end()]
-        uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
+    start, end = find_inner_part(uri)
+    inner_value = uri[start:end]
+    if inner_value:
+        uri = uri[:start]+'__inner_part__'+uri[end:]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     p = re.match(regex, uri).groups()
-- 
2.43.0


From 5f549a7c73b1af6a61f84c013d60405fb540fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 20/82] fix: a '#' at the end of a file name belongs to the
 name

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index abe86b3..8cba896 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -101,7 +101,7 @@ def urisplit(uri):
     # bugfix: '#' might be a legal character in a file name
     # it only has special meaning in urls
     if scheme not in ['http', 'https']:
-        if fragment:
+        if fragment is not None:
             path = '#'.join([path, fragment])
             fragment = ''
     return (scheme, authority, path, query, fragment)
-- 
2.43.0


From 70a98d9274f0699c4abe490649bbda66e058c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 21/82] fix: uriparse: an uri without authority can be split

---
 abl/vpath/base/uriparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 8cba896..2c4778f 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -94,7 +94,8 @@ def urisplit(uri):
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if inner_value:
+        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-- 
2.43.0


From 6ed8a53f5a8727f46cb1301a0b448932f4c40799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 22/82] fix: uriparse: URIParser.unparse is the reverse of
 parse

---
 abl/vpath/base/uriparse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 2c4778f..459c58e 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -170,7 +170,8 @@ def join_authority(authority):
         if passwd:
             result += ':' + passwd
         result += '@'
-    result += host
+    if host:
+        result += host
     if port:
         result += ':' + port
     return result
@@ -334,7 +335,8 @@ class URIParser(object):
         the rest of the pieces can be interpreted.
 
         """
-        return self.parser_for(pieces[0])(defaults).unparse(pieces)
+        rest = self.parser_for(pieces[0])(defaults).unparse(pieces[1:])
+        return '%s:%s' % (pieces[0], rest)
 
     # these work on any URI
     def scheme_of(self, uri):
-- 
2.43.0


From 4fa09b764618e03fcbea0fc8fca8c88550910bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 23/82] fix: a printed URI encodes its query, so that it can be
 parsed again

---
 abl/vpath/base/simpleuri.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index 7bbabab..6090e57 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -7,9 +7,9 @@ urlparse module for non http urls
 """
 
 try:
-    from urllib.parse import urlencode, unquote_plus
+    from urllib.parse import urlencode, quote_plus, unquote_plus
 except ImportError: # Python 2
-    from urllib import urlencode, unquote_plus
+    from urllib import urlencode, quote_plus, unquote_plus
 
 from .uriparse import urisplit, split_authority
 
@@ -25,7 +25,7 @@ def parse_query_string(query):
         key, value = item.split('=')
         key = key.strip()
         value = value.strip()
-        result[key] = unquote_plus(value)
+        result[unquote_plus(key)] = unquote_plus(value)
     return result
 
 class UriParse(object):
@@ -113,7 +113,8 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
+            qup = ['%s=%s' % (quote_plus(str(key), '/:@,;'), quote_plus(str(value), '/:@,;'))
+                   for key, value in list(self.query.items())]
             rest = '?'+('&'.join(qup))
         else:
             rest = ''
-- 
2.43.0


From 0f6fbdb234892007daea9d11d19ffd5a0c64f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 24/82] fix: registry: looking up, creating and expiring
 connections don't race

---
 abl/vpath/base/fs.py | 49 +++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index f6e1424..a244361 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -64,6 +64,8 @@ class ConnectionRegistry(object):
 
     def __init__(self, clean_interval=300, clean_timeout=1800):
         self.connections = {}
+        # guards 'connections' and the 'last_used' of what is in there
+        self.connections_lock = threading.Lock()
         self.schemes = {}
         self.run_clean_thread = True
         self.clean_interval = clean_interval
@@ -76,8 +78,22 @@ class ConnectionRegistry(object):
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+            # somebody else might have been faster
+            conn = self.lookup(key)
+            if conn is None:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                with self.connections_lock:
+                    self.connections[key] = conn
+            return conn
+
+
+    def lookup(self, key):
+        with self.connections_lock:
+            conn = self.connections.get(key)
+            if conn is not None:
+                # not idle any more: the cleaner must not close it
+                conn.last_used = time.time()
+            return conn
 
 
     def get_connection(self,
@@ -127,21 +143,26 @@ class ConnectionRegistry(object):
             frozenset(extras.items())
             )
 
-        if not key in self.connections:
-            self.create(scheme, key, extras)
-        return self.connections[key]
+        conn = self.lookup(key)
+        if conn is None:
+            conn = self.create(scheme, key, extras)
+        return conn
 
 
     def cleanup(self, force=False):
-        now = time.time()
-        for key, conn in list(self.connections.items()):
-            if ((now - conn.last_used) > self.clean_timeout) or force:
-                try:
-                    conn.close()
-                except:
-                    print("### Exception while closing connection %s" % conn)
-                    traceback.print_exc()
-                del self.connections[key]
+        stale = []
+        with self.connections_lock:
+            now = time.time()
+            for key, conn in list(self.connections.items()):
+                if ((now - conn.last_used) > self.clean_timeout) or force:
+                    stale.append(conn)
+                    del self.connections[key]
+        for conn in stale:
+            try:
+                conn.close()
+            except:
+                print("### Exception while closing connection %s" % conn)
+                traceback.print_exc()
 
 
     def cleaner(self):
-- 
2.43.0


From eda9fde0827b0206097908ff162d00ba6fce6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 25/82] fix: copying a tree keeps blanks in names and takes a
 trailing slash

---
 abl/vpath/base/fs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index a244361..cf6f622 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -963,11 +963,9 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
-                spth_len = len(spth) + 1
+                spth_len = len(source.unipath.rstrip('/'))
                 for root, dirs, files in source.walk(followlinks=followlinks):
-                    rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = root.unipath[spth_len:].strip('/')
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From 479ec19977ae34bc2ba2e03a3dfd2e0725c86d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 26/82] fix: links and stats are copied only within one file
 system

---
 abl/vpath/base/fs.py      | 12 +++++++++++-
 abl/vpath/base/localfs.py |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index cf6f622..4977c4f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -918,6 +918,13 @@ class FileSystem(object):
         pass
 
 
+    def _is_same_backend(self, path):
+        """
+        True, if path is part of the same file system
+        """
+        return path.get_connection() is self
+
+
     def _copy_link(self, source, dest):
         assert self.islink(source)
         if dest.isfile():
@@ -930,7 +937,10 @@ class FileSystem(object):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
+        use_same_backend = self._is_same_backend(dest)
+        if not use_same_backend:
+            # a link can't point into another backend
+            followlinks = True
 
         if ignore is not None:
             ignore = set(ignore)
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..0836244 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -49,6 +49,11 @@ class LocalFileSystem(FileSystem):
         pass
 
 
+    def _is_same_backend(self, path):
+        # there is only one, whatever the connection
+        return path.scheme == self.scheme
+
+
     def info(self, unc, set_info=None, followlinks=True):
         p = self._path(unc)
 
-- 
2.43.0


From 8e315891210554457dbaf73a6703c73f36bd5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 27/82] fix: copying a link replaces a link that points nowhere
 or to a directory

---
 abl/vpath/base/fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 4977c4f..e4d3512 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -927,9 +927,10 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
-        if dest.isfile():
+        target = self.readlink(source)
+        if dest.islink() or dest.isfile():
             self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+        self.symlink(target, dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
-- 
2.43.0


From 9fda9e9653721b8c1aa0a11c5d5e210dc7bb3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 28/82] fix: copying a file onto itself is refused before it is
 truncated

---
 abl/vpath/base/fs.py      | 44 ++++++++++++++++++++++++++++++---------
 abl/vpath/base/localfs.py |  5 +++++
 abl/vpath/base/memory.py  |  6 ++++++
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e4d3512..ef74e61 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -925,9 +925,40 @@ class FileSystem(object):
         return path.get_connection() is self
 
 
+    def _is_same_file(self, path, other):
+        """
+        True, if both are existing and the same file or directory. 'other' is
+        part of the same backend
+        """
+        return path == other
+
+
+    def _is_same_entry(self, path, other):
+        """
+        like _is_same_file, but a link is itself, not what it points to
+        """
+        return (path.last() == other.last() and
+                self._is_same_file(path.dirname(), other.dirname()))
+
+
+    def _refuse_same_file(self, path, other):
+        if self._is_same_backend(other) and self._is_same_file(path, other):
+            raise shutil.SameFileError("%s and %s are the same file" % (path, other))
+
+
+    def _copy_file(self, source, dest):
+        self._refuse_same_file(source, dest)
+        with source.open('rb') as infs, dest.open('wb') as outfs:
+            shutil.copyfileobj(infs, outfs, 8192)
+        if self._is_same_backend(dest):
+            self.copystat(source, dest)
+
+
     def _copy_link(self, source, dest):
         assert self.islink(source)
         target = self.readlink(source)
+        if dest.islink() and self._is_same_entry(source, dest):
+            raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
         if dest.islink() or dest.isfile():
             self.removefile(dest)
         self.symlink(target, dest)
@@ -938,8 +969,7 @@ class FileSystem(object):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = self._is_same_backend(dest)
-        if not use_same_backend:
+        if not self._is_same_backend(dest):
             # a link can't point into another backend
             followlinks = True
 
@@ -959,10 +989,7 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, dest)
             else:
-                with source.open('rb') as infs, dest.open('wb') as outfs:
-                    shutil.copyfileobj(infs, outfs, 8192)
-                if use_same_backend:
-                    self.copystat(source, dest)
+                self._copy_file(source, dest)
         else:
             assert source.isdir()
             if dest.isdir():
@@ -999,10 +1026,7 @@ class FileSystem(object):
                         if srcf.islink() and not followlinks:
                             self._copy_link(srcf, destf)
                         else:
-                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
-                                shutil.copyfileobj(infs, outfs, 8192)
-                            if use_same_backend:
-                                self.copystat(srcf, destf)
+                            self._copy_file(srcf, destf)
 
 
     def makedirs(self, path):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 0836244..fe3c2a3 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -54,6 +54,11 @@ class LocalFileSystem(FileSystem):
         return path.scheme == self.scheme
 
 
+    def _is_same_file(self, path, other):
+        pth, oth = self._path(path), self._path(other)
+        return os.path.exists(pth) and os.path.exists(oth) and os.path.samefile(pth, oth)
+
+
     def info(self, unc, set_info=None, followlinks=True):
         p = self._path(unc)
 
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 6454e97..7cadf69 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -484,6 +484,12 @@ class MemoryFileSystem(FileSystem):
         return False
 
 
+    def _is_same_file(self, path, other):
+        return (self.exists(path) and self.exists(other) and
+                self._get_node_for_path(self._fs, path) is
+                self._get_node_for_path(self._fs, other))
+
+
     def isexec(self, path, mode_mask):
         return self.info(path).mode & mode_mask != 0
 
-- 
2.43.0


From d218ccac6c0361d2bdbb23daed69ffc7172c8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 29/82] fix: preserving a link across backends is refused, not
 misplaced

---
 abl/vpath/base/fs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ef74e61..ff56f73 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -956,6 +956,10 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
+        if not self._is_same_backend(dest):
+            # what a link points to doesn't mean the same over there
+            raise OperationIsNotSupportedOnPlatform(
+                "can't copy the link %s to another backend" % source)
         target = self.readlink(source)
         if dest.islink() and self._is_same_entry(source, dest):
             raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
@@ -969,10 +973,6 @@ class FileSystem(object):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        if not self._is_same_backend(dest):
-            # a link can't point into another backend
-            followlinks = True
-
         if ignore is not None:
             ignore = set(ignore)
         else:
-- 
2.43.0


From ae54278b2315c89e6b8441f76bd1c59b028bd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 30/82] fix: copying a directory into itself is refused

---
 abl/vpath/base/fs.py      | 20 ++++++++++++++++++++
 abl/vpath/base/localfs.py |  6 ++++++
 abl/vpath/base/memory.py  | 13 +++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ff56f73..4112977 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -941,6 +941,24 @@ class FileSystem(object):
                 self._is_same_file(path.dirname(), other.dirname()))
 
 
+    def _is_inside(self, path, top):
+        """
+        True, if path (which doesn't have to exist) is the directory top or
+        somewhere below it
+        """
+        while not path.exists():
+            parent = path.dirname()
+            if parent == path:
+                return False
+            path = parent
+        while not self._is_same_file(path, top):
+            parent = path.dirname()
+            if parent == path:
+                return False
+            path = parent
+        return True
+
+
     def _refuse_same_file(self, path, other):
         if self._is_same_backend(other) and self._is_same_file(path, other):
             raise shutil.SameFileError("%s and %s are the same file" % (path, other))
@@ -1000,6 +1018,8 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
             else:
+                if self._is_same_backend(droot) and self._is_inside(droot, source):
+                    raise shutil.Error("can't copy %s into itself: %s" % (source, droot))
                 droot.makedirs()
                 spth_len = len(source.unipath.rstrip('/'))
                 for root, dirs, files in source.walk(followlinks=followlinks):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index fe3c2a3..203c3bf 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -59,6 +59,12 @@ class LocalFileSystem(FileSystem):
         return os.path.exists(pth) and os.path.exists(oth) and os.path.samefile(pth, oth)
 
 
+    def _is_inside(self, path, top):
+        pth = os.path.realpath(self._path(path))
+        tpth = os.path.realpath(self._path(top))
+        return (pth + os.sep).startswith(tpth.rstrip(os.sep) + os.sep)
+
+
     def info(self, unc, set_info=None, followlinks=True):
         p = self._path(unc)
 
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7cadf69..47abe1f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -490,6 +490,19 @@ class MemoryFileSystem(FileSystem):
                 self._get_node_for_path(self._fs, other))
 
 
+    def _is_inside(self, path, top):
+        while not self.exists(path):
+            path = path.dirname()
+        searched = self._get_node_for_path(self._fs, path)
+        nodes = [self._get_node_for_path(self._fs, top)]
+        for nd in nodes:
+            if nd is searched:
+                return True
+            if nd.kind == NodeKind.DIR:
+                nodes.extend([child for _, child in nd.items()])
+        return False
+
+
     def isexec(self, path, mode_mask):
         return self.info(path).mode & mode_mask != 0
 
-- 
2.43.0


From 24332f8d0f370630dc7bc4bc75aba94623c07af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 31/82] fix: move works like mv: keeps links, replaces links
 and files, refuses to lose anything

---
 abl/vpath/base/fs.py      | 37 ++++++++++++++++++++++++++++++++-----
 abl/vpath/base/localfs.py |  6 ++++--
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 4112977..b6a0ae1 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1065,12 +1065,39 @@ class FileSystem(object):
         """
         the semantic should be like unix 'mv' command
         """
-        if source.isfile():
-            source.copy(destination)
-            source.remove()
+        destination = self._move_target(source, destination)
+        if destination.islink():
+            destination.remove()
+        same_backend = self._is_same_backend(destination)
+        if source.islink() and same_backend:
+            self._copy_link(source, destination)
         else:
-            source.copy(destination, recursive=True)
-            source.remove('r')
+            source.copy(destination, recursive=source.isdir(),
+                        followlinks=not same_backend)
+        source.remove(recursive=True)
+
+
+    def _move_target(self, source, destination):
+        """
+        the path that source gets by moving it to destination; fails, if it
+        can't be moved there
+        """
+        if not (source.exists() or source.islink()):
+            raise FileDoesNotExistError(str(source))
+        is_real_dir = source.isdir() and not source.islink()
+        if destination.isdir():
+            destination = destination / source.last()
+        if self._is_same_backend(destination):
+            if self._is_same_entry(source, destination):
+                raise shutil.SameFileError("%s and %s are the same file" % (source, destination))
+            if not destination.islink():
+                self._refuse_same_file(source, destination)
+            if is_real_dir and self._is_inside(destination, source):
+                raise shutil.Error("can't move %s into itself: %s" % (source, destination))
+        if destination.islink() or destination.exists():
+            if is_real_dir or (destination.isdir() and not destination.islink()):
+                raise shutil.Error("%s already exists" % destination)
+        return destination
 
 
     def walk(self, top, topdown=True, followlinks=True):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 203c3bf..ee7934d 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -159,8 +159,10 @@ class LocalFileSystem(FileSystem):
         ends up in c.
         """
         if dest.scheme == 'file':
-            if source.isdir() and dest.isdir():
-                dest /= source.basename()
+            dest = self._move_target(source, dest)
+            if dest.isdir():
+                # a link, which shutil.move would follow
+                self.removefile(dest)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 38b585263156e306f411b79ae6c8793cdb44a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 32/82] fix: zip: asking for a path works without a previous
 open or an archive

---
 abl/vpath/base/zip.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..902b415 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -181,18 +181,23 @@ class ZipFileSystem(FileSystem):
         return False
 
 
-    def listdir(self, unc):
+    def _names(self):
+        """
+        the names of what is in the archive right now; there is no archive
+        until something is written
+        """
         if not self._zip_file_path().exists():
             return []
-        if self._ziphandle is None:
-            self.open_zip()
+        self.open_zip()
+        return self._ziphandle.namelist()
+
+
+    def listdir(self, unc):
         path_string = self._path(unc)
-        if path_string == '/' and self._ziphandle is None:
-            return []
         if not self.isdir(unc):
             raise FileDoesNotExistError()
         content_set = set()
-        for item in self._ziphandle.namelist():
+        for item in self._names():
             citem = content_item(path_string, item)
             if citem:
                 content_set.add(citem)
@@ -203,8 +208,8 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
-        for item in self._ziphandle.namelist():
+            return ISDIR in expected
+        for item in self._names():
             result = compare_path_strings(path_string, item)
             if result in expected:
                 return True
-- 
2.43.0


From 85da849cd52bc4e82187ee32b29f08e34dc8d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 33/82] fix: zip: handles don't disturb each other, close()
 writes the content

---
 abl/vpath/base/zip.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 902b415..4d7c864 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -15,6 +15,7 @@ class WriteStatement(object):
         self.path_string = path_string
         self.zip_backend = zip_backend
         self.byte_buffer = BytesIO()
+        self.closed = False
 
 
     def __enter__(self):
@@ -22,6 +23,15 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
+        self.close()
+
+
+    def close(self):
+        if self.closed:
+            return
+        self.closed = True
+        # other handles might have been used in the meantime
+        self.zip_backend.open_zip('w')
         self.zip_backend._ziphandle.writestr(self.path_string,
                                              self.byte_buffer.getvalue())
         self.byte_buffer.close()
@@ -145,7 +155,8 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         try:
             self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
+            # the handle must not depend on what happens to the archive
+            return BytesIO(self._ziphandle.read(path_string))
         except KeyError:
             raise FileDoesNotExistError()
 
-- 
2.43.0


From 0a174e7749c0c47a657a7d527000ff6a8258b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 34/82] fix: zip: a file can be opened for append

---
 abl/vpath/base/zip.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 4d7c864..45323fb 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -3,6 +3,7 @@
 # Author: Stephan Diehl <stephan.diehl@ableton.com>
 #******************************************************************************
 
+import errno
 from io import BytesIO
 from zipfile import ZipFile
 
@@ -142,13 +143,18 @@ class ZipFileSystem(FileSystem):
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
         if 'r' in options:
+            self.open_zip(options)
             return self._open_for_reading(unc, options)
         elif 'w' in options:
+            self.open_zip(options)
             return self._open_for_writing(unc, options)
+        elif 'a' in options:
+            return self._open_for_appending(unc, options)
+        else:
+            raise OSError(errno.EINVAL, "The mode flag is not valid")
 
 
     def _open_for_reading(self, unc, options):
@@ -166,6 +172,15 @@ class ZipFileSystem(FileSystem):
         return WriteStatement(path_string, self)
 
 
+    def _open_for_appending(self, unc, options):
+        content = b''
+        if self.isfile(unc):
+            content = self.open(unc, 'rb').read()
+        handle = self.open(unc, 'wb')
+        handle.write(content)
+        return handle
+
+
     def exists(self, unc):
         return self._ispart(unc, (ISDIR, ISFILE))
 
-- 
2.43.0


From fae51ef44e2a76eda98a7a93146748f825a2ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 35/82] fix: zip: find what other tools have archived; ignore
 empty path components

---
 abl/vpath/base/zip.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 45323fb..70ffb00 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -109,6 +109,12 @@ class ZipFileSystem(FileSystem):
     uri = ZipFileSystemUri
 
 
+    def _path(self, unc):
+        # empty parts, as in '/foo//bar/', don't mean anything
+        path = super(ZipFileSystem, self)._path(unc)
+        return '/' + '/'.join([x for x in path.split('/') if x])
+
+
     def _zip_file_path(self):
         return URI(self.vpath_connector)
 
@@ -159,12 +165,11 @@ class ZipFileSystem(FileSystem):
 
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
-        try:
-            self._ziphandle.getinfo(path_string)
-            # the handle must not depend on what happens to the archive
-            return BytesIO(self._ziphandle.read(path_string))
-        except KeyError:
-            raise FileDoesNotExistError()
+        for info in reversed(self._ziphandle.infolist()):
+            if '/' + info.filename.lstrip('/') == path_string:
+                # the handle must not depend on what happens to the archive
+                return BytesIO(self._ziphandle.read(info))
+        raise FileDoesNotExistError()
 
 
     def _open_for_writing(self, unc, options):
@@ -215,7 +220,8 @@ class ZipFileSystem(FileSystem):
         if not self._zip_file_path().exists():
             return []
         self.open_zip()
-        return self._ziphandle.namelist()
+        # other tools write names without the leading slash
+        return ['/' + name.lstrip('/') for name in self._ziphandle.namelist()]
 
 
     def listdir(self, unc):
-- 
2.43.0


From 3ff9b385a55196fa81b558dc698b808cf3667b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 36/82] fix: zip: nothing is both a file and a directory

---
 abl/vpath/base/zip.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 70ffb00..10291d6 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -155,6 +155,7 @@ class ZipFileSystem(FileSystem):
             self.open_zip(options)
             return self._open_for_reading(unc, options)
         elif 'w' in options:
+            self._require_writable(unc)
             self.open_zip(options)
             return self._open_for_writing(unc, options)
         elif 'a' in options:
@@ -172,6 +173,16 @@ class ZipFileSystem(FileSystem):
         raise FileDoesNotExistError()
 
 
+    def _require_writable(self, unc):
+        if self.isdir(unc):
+            raise IOError(errno.EISDIR, "File is directory: %s" % unc)
+        parent = unc.dirname()
+        while not self.isdir(parent):
+            if self.isfile(parent):
+                raise IOError(errno.ENOTDIR, "Not a directory: %s" % parent)
+            parent = parent.dirname()
+
+
     def _open_for_writing(self, unc, options):
         path_string = self._path(unc)
         return WriteStatement(path_string, self)
-- 
2.43.0


From 5ef2f0349a29d49c8710a27e57fcf01554dcc8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 37/82] fix: zip: copying within one archive works

---
 abl/vpath/base/zip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 10291d6..5a626ed 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -260,5 +260,5 @@ class ZipFileSystem(FileSystem):
 
 
     def copystat(self, path, other):
-        # TODO
-        raise NotImplementedError
+        # nothing but the content is kept
+        pass
-- 
2.43.0


From 8bd38131a8e83f2449a75d6434fcbef40c5298b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 38/82] fix: the name of a scheme may contain digits and dots

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index b6a0ae1..f6d02a1 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -254,7 +254,7 @@ def with_connection(func, self, *args, **argd):
 
 #============================================================================
 
-scheme_re = re.compile("([a-z+-]+)://")
+scheme_re = re.compile("([a-z][a-z0-9+.-]*)://")
 # '/./foo' and '/../foo' stand for relative paths, '/.foo' doesn't
 relative_re = re.compile(r"/\.\.?(/|$)")
 
-- 
2.43.0


From 5d35369e2f43907d92fd7f70156c961ca3f38cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 39/82] fix: WorkingDirectory returns to where it was entered
 from

---
 abl/vpath/base/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 193582d..c3ecab0 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -41,10 +41,11 @@ class TempFileHandle(object):
 class WorkingDirectory(object):
 
     def __init__(self, working_path):
-        self.cwd = os.getcwd()
+        self.cwd = None
         self.working_path = working_path
 
     def __enter__(self):
+        self.cwd = os.getcwd()
         os.chdir(self.working_path.path)
 
     def __exit__(self, exc_type, exc_value, traceback):
-- 
2.43.0


From f91b2165915e64a44fbb2915d1d7e170f3a71e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 40/82] fix: move keeps a link that the source is reached
 through

---
 abl/vpath/base/fs.py      | 10 +++++++++-
 abl/vpath/base/localfs.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index f6d02a1..bc3bb61 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1067,7 +1067,7 @@ class FileSystem(object):
         """
         destination = self._move_target(source, destination)
         if destination.islink():
-            destination.remove()
+            self._remove_target_link(source, destination)
         same_backend = self._is_same_backend(destination)
         if source.islink() and same_backend:
             self._copy_link(source, destination)
@@ -1077,6 +1077,14 @@ class FileSystem(object):
         source.remove(recursive=True)
 
 
+    def _remove_target_link(self, source, link):
+        target = link.readlink()
+        link.remove()
+        if not (source.exists() or source.islink()):
+            target.symlink(link)
+            raise shutil.Error("%s can't replace %s, it is reached through it" % (source, link))
+
+
     def _move_target(self, source, destination):
         """
         the path that source gets by moving it to destination; fails, if it
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ee7934d..9b76185 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -162,7 +162,7 @@ class LocalFileSystem(FileSystem):
             dest = self._move_target(source, dest)
             if dest.isdir():
                 # a link, which shutil.move would follow
-                self.removefile(dest)
+                self._remove_target_link(source, dest)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 2bb4f40fd9132057cc4274f340cd1b27fe57d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 41/82] fix: move keeps a link that its own arguments are
 reached through

---
 abl/vpath/base/fs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index bc3bb61..5120c0e 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1078,11 +1078,13 @@ class FileSystem(object):
 
 
     def _remove_target_link(self, source, link):
-        target = link.readlink()
+        for path in (source, link):
+            parent = path.dirname()
+            while parent != path:
+                if parent.islink() and self._is_same_entry(parent, link):
+                    raise shutil.Error("%s is needed to reach %s" % (link, path))
+                path, parent = parent, parent.dirname()
         link.remove()
-        if not (source.exists() or source.islink()):
-            target.symlink(link)
-            raise shutil.Error("%s can't replace %s, it is reached through it" % (source, link))
 
 
     def _move_target(self, source, destination):
-- 
2.43.0


From 595b1d1f5295c3b87439f858aa323e14f0e76328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 42/82] fix: memory: seek and write answer what other files
 answer

---
 abl/vpath/base/memory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 47abe1f..da8c300 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -182,11 +182,13 @@ class MemoryFileProxy(object):
         self._require(self.writable)
         if self.append:
             self.position = self.mem_file.size()
-        return self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
+        self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
+        return len(data)
 
 
     def seek(self, *args, **kwargs):
-        return self._at_position(self.mem_file.seek, *args, **kwargs)
+        self._at_position(self.mem_file.seek, *args, **kwargs)
+        return self.position
 
 
     def tell(self):
-- 
2.43.0


From d56c2bbb5d8eab1d8f22381329a924e0321d5dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 43/82] fix: copying a link keeps a link that its own arguments
 are reached through

---
 abl/vpath/base/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 5120c0e..9c18644 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -981,7 +981,9 @@ class FileSystem(object):
         target = self.readlink(source)
         if dest.islink() and self._is_same_entry(source, dest):
             raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
-        if dest.islink() or dest.isfile():
+        if dest.islink():
+            self._remove_target_link(source, dest)
+        elif dest.isfile():
             self.removefile(dest)
         self.symlink(target, dest)
 
-- 
2.43.0


From cc29cdf95f762a173a683e82beb11dcfa61040de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 44/82] fix: memory: truncating a file to more than its size
 extends it

---
 abl/vpath/base/memory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index da8c300..d8ba2ed 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -78,7 +78,11 @@ class MemoryFile(object):
         return self._data.flush()
 
 
-    def truncate(self, pos=None):
+    def truncate(self, pos):
+        missing = pos - self.size()
+        if missing > 0:
+            self._data.seek(0, 2)
+            self._data.write(b'\0' * missing)
         return self._data.truncate(pos)
 
 
-- 
2.43.0


From ddfaf3b2e9a657b8b07c3e3e4624d7a269d37681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 45/82] fix: local: moving onto a link to another device
 replaces the link

---
 abl/vpath/base/localfs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 9b76185..682df8b 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -160,8 +160,9 @@ class LocalFileSystem(FileSystem):
         """
         if dest.scheme == 'file':
             dest = self._move_target(source, dest)
-            if dest.isdir():
-                # a link, which shutil.move would follow
+            if dest.islink():
+                # shutil.move follows it, if it leads to a directory or if it
+                # leads to or from another device
                 self._remove_target_link(source, dest)
             return shutil.move(source.path, dest.path)
         else:
-- 
2.43.0


From e367afb294178b2816c1a5767761c2af985ae5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 46/82] fix: the same parameters mean the same connection, in
 whatever way they are given

What is absent was '' in a URI with an authority and None in one
without, so rec://user@/p and rec:///p with username='user' had two
connections.
---
 abl/vpath/base/fs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 9c18644..f82ee66 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -382,12 +382,13 @@ class BaseUri(object):
 
 
     def _key(self):
+        # what is not given is None, whether there is an authority or not
         return (
             self.scheme,
-            self.hostname,
+            self.hostname or None,
             self.port,
-            self.username,
-            self.password,
+            self.username or None,
+            self.password or None,
             self.vpath_connector,
             )
 
-- 
2.43.0


From 7062b925283eef67700af2e024d8ea2c7aac45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 47/82] fix: threads that create the same memory path at once
 get one node

Whoever looked before the other one had created it replaced the other's
file (or directory, or link), so what had been written to it was lost.
---
 abl/vpath/base/memory.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index d8ba2ed..33f3bca 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -276,7 +276,8 @@ class MemoryDir(object):
 
 
     def create(self, name, obj):
-        self._files[name] = obj
+        "False if there is something of that name, maybe since a moment ago"
+        return self._files.setdefault(name, obj) is obj
 
 
     def remove(self, name):
@@ -394,7 +395,7 @@ class MemoryFileSystem(FileSystem):
         return None
 
     def _create_child(self, parent, name, obj):
-        parent.create(name, obj)
+        return parent.create(name, obj)
 
     def _del_child(self, parent, name):
         parent.remove(name)
@@ -524,9 +525,8 @@ class MemoryFileSystem(FileSystem):
         if p:
             nd = self._get_dir(self._fs, p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
-            if nd.has(dir_to_create):
+            if not self._create_child(nd, dir_to_create, MemoryDir()):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
-            self._create_child(nd, dir_to_create, MemoryDir())
 
 
     def exists(self, path):
@@ -571,8 +571,8 @@ class MemoryFileSystem(FileSystem):
             file_to_create = p.split("/")[-1]
             if not nd.has(file_to_create):
                 f = MemoryFile(p, self.file_locks[p])
-                self._create_child(nd, file_to_create, f)
-                return f
+                if self._create_child(nd, file_to_create, f):
+                    return f
             cnd = self._child(nd, file_to_create, resolve_link=False)
             if cnd.kind != NodeKind.LINK:
                 self._refuse_directory(cnd)
@@ -737,9 +737,8 @@ class MemoryFileSystem(FileSystem):
         if p:
             nd = self._get_dir(self._fs, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
-            if nd.has(file_to_create):
+            if not self._create_child(nd, file_to_create, MemorySymlink(target)):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-            self._create_child(nd, file_to_create, MemorySymlink(target))
 
 
     def readlink(self, path):
-- 
2.43.0


From 66b3f4db534e58c13c206e2d9fa0474f3a4c73ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 48/82] fix: a memory path that vanishes during a lookup is
 missing, not an error

Another thread might remove it - cleaning up its lock, say - between
asking for it and getting it; that ended in a KeyError or an
AttributeError instead of the answer for a missing path.
---
 abl/vpath/base/memory.py | 41 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 33f3bca..7b915a0 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -272,7 +272,7 @@ class MemoryDir(object):
 
 
     def get(self, name):
-        return self._files[name]
+        return self._files.get(name)
 
 
     def create(self, name, obj):
@@ -281,7 +281,7 @@ class MemoryDir(object):
 
 
     def remove(self, name):
-        del self._files[name]
+        return self._files.pop(name, None)
 
 
     def isempty(self):
@@ -343,6 +343,10 @@ class MemoryLock(object):
                 self.path.remove()
         except FileDoesNotExistError:
             pass
+        except OSError as e:
+            # removed by somebody else just now
+            if e.errno != errno.ENOENT:
+                raise
         finally:
             self.lock.release()
 
@@ -378,8 +382,9 @@ class MemoryFileSystem(FileSystem):
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
-        if parent.has(name):
-            nd = parent.get(name)
+        # don't ask first: another thread might remove it in between
+        nd = parent.get(name)
+        if nd is not None:
             if nd.kind == NodeKind.LINK:
                 if resolve_link:
                     # TODO: supports absolute links only for now
@@ -398,7 +403,7 @@ class MemoryFileSystem(FileSystem):
         return parent.create(name, obj)
 
     def _del_child(self, parent, name):
-        parent.remove(name)
+        return parent.remove(name)
 
 
     def _get_node_prev(self, base, steps, follow_link=True, throw=True,
@@ -415,13 +420,12 @@ class MemoryFileSystem(FileSystem):
                 else:
                     return [None, None]
             prev = current
-            if current.has(part):
-                is_last = i == last
-                current = self._child(current, part,
-                                      resolve_link=follow_link if is_last else True,
-                                      throw=throw,
-                                      linklevel=linklevel)
-            else:
+            is_last = i == last
+            current = self._child(current, part,
+                                  resolve_link=follow_link if is_last else True,
+                                  throw=throw,
+                                  linklevel=linklevel)
+            if current is None:
                 if throw:
                     p = '/'.join(steps)
                     raise self.lookup_exc_class(errno.ENOENT,
@@ -569,11 +573,12 @@ class MemoryFileSystem(FileSystem):
                 self._refuse_directory(self._fs)
             nd = self._get_dir(self._fs, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
-            if not nd.has(file_to_create):
+            cnd = self._child(nd, file_to_create, resolve_link=False)
+            if cnd is None:
                 f = MemoryFile(p, self.file_locks[p])
                 if self._create_child(nd, file_to_create, f):
                     return f
-            cnd = self._child(nd, file_to_create, resolve_link=False)
+                continue
             if cnd.kind != NodeKind.LINK:
                 self._refuse_directory(cnd)
                 return cnd
@@ -672,15 +677,17 @@ class MemoryFileSystem(FileSystem):
                                         [x for x in self._path(path).split("/") if x],
                                         follow_link=False)
         if parent is not None:
-            self._del_child(parent, self._path(path).split("/")[-1])
+            if self._del_child(parent, self._path(path).split("/")[-1]) is None:
+                raise OSError(errno.ENOENT,
+                              "No such file or directory: %r" % str(path))
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
+        prev, nd = self._get_node_prev(self._fs,
                                             [x for x in self._path(path).split("/") if x])
         if prev is not None:
             part = self._path(path).split("/")[-1]
-            if self._child(prev, part).isempty():
+            if nd.isempty():
                 self._del_child(prev, part)
             else:
                 raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
-- 
2.43.0


From a48eae044ea425cde9dd56e361e284c3bc33c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 49/82] fix: a memory lock is that of the file that is there
 when it is granted

A file that was deleted and made again through a linked directory while
somebody waited for its lock has another lock; the waiting one went on
with the old lock, which nobody else asked for any more.
---
 abl/vpath/base/memory.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7b915a0..3a4106e 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -319,18 +319,23 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        # the content belongs to whoever holds the lock: don't touch it before
-        self.lock = self._open().lock
-        if self.fail_on_lock:
-            if not self.lock.acquire(False):
-                raise LockFileObtainException
-        else:
-            self.lock.acquire()
-        try:
-            return self._open()
-        except:
+        while True:
+            # the content belongs to whoever holds the lock: don't touch it before
+            self.lock = self._open().lock
+            if self.fail_on_lock:
+                if not self.lock.acquire(False):
+                    raise LockFileObtainException
+            else:
+                self.lock.acquire()
+            try:
+                handle = self._open()
+            except:
+                self.lock.release()
+                raise
+            if handle.lock is self.lock:
+                return handle
+            # meanwhile, the file was replaced by one with another lock
             self.lock.release()
-            raise
 
 
     def _open(self):
-- 
2.43.0


From 5f2ba74bf72a9a7ce3822e2bf6bebd0c659c5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 50/82] fix: writing to an archive inside of an archive is not
 lost

a file of an archive opened with 'r+' was a buffer nobody ever wrote back
---
 abl/vpath/base/zip.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 5a626ed..b3aa059 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -153,7 +153,10 @@ class ZipFileSystem(FileSystem):
             options = 'r'
         if 'r' in options:
             self.open_zip(options)
-            return self._open_for_reading(unc, options)
+            handle = self._open_for_reading(unc, options)
+            if '+' in options:
+                return self._open_for_update(unc, options, handle.read())
+            return handle
         elif 'w' in options:
             self._require_writable(unc)
             self.open_zip(options)
@@ -188,6 +191,13 @@ class ZipFileSystem(FileSystem):
         return WriteStatement(path_string, self)
 
 
+    def _open_for_update(self, unc, options, content):
+        handle = self._open_for_writing(unc, options)
+        handle.write(content)
+        handle.seek(0)
+        return handle
+
+
     def _open_for_appending(self, unc, options):
         content = b''
         if self.isfile(unc):
-- 
2.43.0


From c616ec2165b5fd71f26560231283a35064221c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 51/82] fix: an archive written by others while a handle is
 open is not damaged

opening a file of a new archive for writing kept the archive itself open;
when the handle was closed, an end record was written into whatever others
had written in the meantime
---
 abl/vpath/base/zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index b3aa059..61a82db 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -160,6 +160,8 @@ class ZipFileSystem(FileSystem):
         elif 'w' in options:
             self._require_writable(unc)
             self.open_zip(options)
+            # others might write before the new file is closed
+            self.close_zip()
             return self._open_for_writing(unc, options)
         elif 'a' in options:
             return self._open_for_appending(unc, options)
-- 
2.43.0


From 36a85a3d5f10b9dc3f3ae631a5a57e203a5677b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 52/82] fix: joining a name with a leading slash doubles no
 slash

all but the last of the joined parts were stripped of it
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index f82ee66..d3ffd59 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -534,7 +534,7 @@ class BaseUri(object):
         args = (
             [self.parse_result.path.rstrip('/')] +
             [x.strip('/') for x in args[:-1]] +
-            [args[-1]]
+            [args[-1].lstrip('/')]
             )
         result = self._with_path('/'.join(args), self.query)
         result.parse_result.query = self.query.copy()
-- 
2.43.0


From 20caf56f2f28cc4ea1464cd542f88d1cbb0e505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 53/82] fix: '#' in a path goes along with a query

'memory:///a#b?k=v' had the path '/a#b?k=v' and no query: joining a name
with '#' to an URI with query parameters led to another file
---
 abl/vpath/base/uriparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 459c58e..17ac37a 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -103,7 +103,9 @@ def urisplit(uri):
     # it only has special meaning in urls
     if scheme not in ['http', 'https']:
         if fragment is not None:
-            path = '#'.join([path, fragment])
+            # what comes after it is no less path or query than without it
+            path, mark, query = (path + (p[5] or '') + p[7]).partition('?')
+            query = query if mark else None
             fragment = ''
     return (scheme, authority, path, query, fragment)
 
-- 
2.43.0


From f878f18a7ee5d1021094ee3a956cce08c15be9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 54/82] fix: a file name with '#' and a line break is not cut
 off

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 17ac37a..70da990 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -91,7 +91,7 @@ def urisplit(uri):
         uri = uri[:start]+'__inner_part__'+uri[end:]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
-    p = re.match(regex, uri).groups()
+    p = re.match(regex, uri, re.DOTALL).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
     if inner_value:
-- 
2.43.0


From 2d2116e2fca8037b8ecf1a7829a12867c84764c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 55/82] fix: the directory of a file on top of a Windows drive
 is the root of the drive

URI('C:\\x', sep='\\').dirname().path was '\\C'
---
 abl/vpath/base/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index d3ffd59..1409753 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -211,7 +211,8 @@ def normalize_uri(uri, sep='/'):
 
 
 def denormalize_path(path, sep='\\'):
-    if len(path) > 2 and path[0] == path[2] == '/':
+    if len(path) > 1 and path[0] == '/' != path[1] and path[2:3] in ('', '/'):
+        # '/C' is the root of a drive, just like '/C/'
         return path[1]+':'+sep+path[3:].replace('/', sep)
     else:
         return path.replace('/', sep)
-- 
2.43.0


From 1942810b2100c1ff41ebbf74e7baf2e76497ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 56/82] fix: uriunsplit and join_authority are the reverse of
 urisplit and split_authority

what was empty got lost: 'file:///path' became 'file:/path'
---
 abl/vpath/base/uriparse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 70da990..211b199 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -106,7 +106,7 @@ def urisplit(uri):
             # what comes after it is no less path or query than without it
             path, mark, query = (path + (p[5] or '') + p[7]).partition('?')
             query = query if mark else None
-            fragment = ''
+            fragment = None
     return (scheme, authority, path, query, fragment)
 
 
@@ -119,15 +119,16 @@ def uriunsplit(uri):
     """
     (scheme, authority, path, query, fragment) = uri
     result = ''
+    # what is empty is not the same as what is not there
     if scheme:
         result += scheme + ':'
-    if authority:
+    if authority is not None:
         result += '//' + authority
     if path:
         result += path
-    if query:
+    if query is not None:
         result += '?' + query
-    if fragment:
+    if fragment is not None:
         result += '#' + fragment
     return result
 
@@ -167,14 +168,14 @@ def join_authority(authority):
     """
     (user, passwd, host, port) = authority
     result = ''
-    if user:
+    if user is not None:
         result += user
-        if passwd:
+        if passwd is not None:
             result += ':' + passwd
         result += '@'
     if host:
         result += host
-    if port:
+    if port is not None:
         result += ':' + port
     return result
 
-- 
2.43.0


From 7629f57f7c8f08eed2f48a2450e3a740c0299037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 57/82] fix: URIs without authority can be parsed

URIParser().parse('file:/path') was a TypeError
---
 abl/vpath/base/uriparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 211b199..c8b81ce 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -204,7 +204,7 @@ class URLParser:
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, passwd, host, port = split_authority(authority)
+        user, passwd, host, port = split_authority(authority or '')
         duser, dpasswd, dhost, dport, dpath, dquery, dfrag = self._defaults
         if user is None:
             user = duser
@@ -223,7 +223,7 @@ class URLParser:
         return (user, passwd, host, port, path, query, frag)
 
     def unparse(self, pieces):
-        authority = join_authority(pieces[:4])
+        authority = join_authority(pieces[:4]) or None
         return uriunsplit(('', authority, pieces[4], pieces[5], pieces[6]))
 
 class HttpURLParser(URLParser):
-- 
2.43.0


From 0bd5bacb5bc91a852e4c3614ab591766929129fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 58/82] fix: info_of returns all but the scheme

it ended at the next colon, the one of the port
---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index c8b81ce..b5da5c6 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -348,7 +348,7 @@ class URIParser(object):
 
     def info_of(self, uri):
         """Return the non-scheme part of any URI."""
-        return uri.split(':')[1]
+        return uri.split(':', 1)[1]
 
     def parser_for(self, uri):
         """Return the Parser object used to parse a particular URI.
-- 
2.43.0


From b0e9adfd5756c6e0f2f2d44dda802483f3bcac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 59/82] fix: urljoin resolves references as RFC 3986 says

The module's own examples with a fragment failed: it was taken for a part
of the path, with its dots. The slash at the end of a directory was dropped, a
relative path was glued to the host of a base without path, the fragment of
the base survived, and dots stayed in references with a host.
---
 abl/vpath/base/uriparse.py | 43 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index b5da5c6..9cb6fa8 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -364,13 +364,25 @@ def _dirname(p):
         q = q[:-1]
     return q
 
-def _pathjoin(a,b):
-    if not a or not b:
-        return a or b
-    elif not b.startswith('/'):
-        return a+'/'+b
-    else:
+def _remove_dot_segments(path):
+    result = []
+    segments = path.split('/')
+    for segment in segments:
+        if segment == '..':
+            if len(result) > 1:
+                result.pop()
+        elif segment != '.':
+            result.append(segment)
+    if segments[-1] in ('.', '..'):
+        result.append('')
+    return '/'.join(result)
+
+def _pathjoin(a, b, authority):
+    if b.startswith('/'):
         return b
+    if authority is not None and not a:
+        return '/' + b
+    return _dirname(a) + b
 
 def urljoin(base, url):
     """Join a base URL and a (possiby relative) URL.
@@ -381,22 +393,23 @@ def urljoin(base, url):
     Returns the result as an absolute URL.
 
     """
-    import posixpath
     bscheme, bauthority, bpath, bquery, bfragment = urisplit(base)
     uscheme, uauthority, upath, uquery, ufragment = urisplit(url)
     if uscheme is not None and bscheme != uscheme:
         return url
+    if uscheme is None and bscheme is not None:
+        # whether it has a fragment depends on the scheme
+        uscheme, uauthority, upath, uquery, ufragment = \
+            urisplit(bscheme + ':' + url)
     if uauthority is not None:
-        bauthority, bpath, bquery, bfragment = \
-            uauthority, upath, uquery, ufragment
+        bauthority, bpath, bquery = \
+            uauthority, _remove_dot_segments(upath), uquery
     elif upath != '':
-        bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
-        bquery, bfragment = uquery, ufragment
+        bpath = _remove_dot_segments(_pathjoin(bpath, upath, bauthority))
+        bquery = uquery
     elif uquery is not None:
-        bquery, bfragment = uquery, ufragment
-    elif ufragment is not None:
-        bfragment = ufragment
-    return uriunsplit((bscheme, bauthority, bpath, bquery, bfragment))
+        bquery = uquery
+    return uriunsplit((bscheme, bauthority, bpath, bquery, ufragment))
 
 
 
-- 
2.43.0


From d89550a4fe5d839910962f73bf765d1005bfa976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 60/82] fix: WorkingDirectory objects can be used for nested
 blocks

---
 abl/vpath/base/misc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index c3ecab0..758f9d4 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -43,12 +43,17 @@ class WorkingDirectory(object):
     def __init__(self, working_path):
         self.cwd = None
         self.working_path = working_path
+        # the same object might be used for nested blocks
+        self.outer_cwds = []
 
     def __enter__(self):
-        self.cwd = os.getcwd()
+        cwd = os.getcwd()
         os.chdir(self.working_path.path)
+        self.outer_cwds.append(self.cwd)
+        self.cwd = cwd
 
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        cwd, self.cwd = self.cwd, self.outer_cwds.pop()
+        os.chdir(cwd)
 
 
-- 
2.43.0


From 48528749bb2da751642536a2ebfba74fe0f923e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 61/82] fix: TempFileHandle removes the file it has opened,
 also after a chdir

---
 abl/vpath/base/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 758f9d4..be40f6a 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -20,7 +20,8 @@ class TempFileHandle(object):
     2. read the content once
     """
     def __init__(self, tmpfilename):
-        self.tmpfilename = tmpfilename
+        # the working directory might be another one when it's removed
+        self.tmpfilename = os.path.abspath(tmpfilename)
         self.handle = open(self.tmpfilename)
 
     def __enter__(self):
-- 
2.43.0


From 7255cf5468a7d10660d35d4d37458d78e29dcff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 62/82] fix: closing a TempFileHandle twice removes its file
 once

---
 abl/vpath/base/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index be40f6a..d497a95 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -34,6 +34,9 @@ class TempFileHandle(object):
         return self.handle.read(limit)
 
     def close(self):
+        if self.handle.closed:
+            # the file is gone; what has that name now is not ours
+            return None
         retval = self.handle.close()
         os.unlink(self.tmpfilename)
         return retval
-- 
2.43.0


From 929e04d3b0627aa5bf343e2a8ff9fd6590897e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 63/82] fix: a backend without lock() raises
 NotImplementedError, as for anything else

---
 abl/vpath/base/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 1409753..645a399 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1209,6 +1209,10 @@ class FileSystem(object):
         raise NotImplementedError
 
 
+    def lock(self, path, fail_on_lock, cleanup):
+        raise NotImplementedError
+
+
     def mtime(self, path):
         raise NotImplementedError
 
-- 
2.43.0


From 6d89d704aa108ba3a460ac60885c2e1153c8b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 64/82] fix: switch() of a backend gets the path, too

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 645a399..58dec33 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1222,7 +1222,7 @@ class FileSystem(object):
 
 
 class RevisionedFileSystem(FileSystem):
-    def switch(self, revision):
+    def switch(self, path, branch):
         raise NotImplementedError
 
 
-- 
2.43.0


From b3ad748b88ca6012173c82f7d8d91e532d6eb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 65/82] fix: a provoked error doesn't keep _manipulate from
 switching it off

---
 abl/vpath/base/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 58dec33..3a4f42a 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -839,7 +839,6 @@ class BaseUri(object):
         return self.connection.lock(self, fail_on_lock, cleanup)
 
 
-    @with_connection
     def _manipulate(self, *args, **kwargs):
         """
         This is a semi-private method. It's current use is to
@@ -847,6 +846,9 @@ class BaseUri(object):
         you can create certain conditions, to provoke
         errors that otherwise won't occur.
         """
+        # without the pre_call_hook: what is provoked there could not be
+        # switched off anymore
+        self.connection = self.get_connection()
         self.connection._manipulate(self, *args, **kwargs)
 
 
-- 
2.43.0


From 9648a6116b01ed7cb2692837a5b0d444479118a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 66/82] fix: _manipulate locks the file, however its path is
 spelled

---
 abl/vpath/base/memory.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 3a4106e..0435ba7 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -707,15 +707,11 @@ class MemoryFileSystem(FileSystem):
     def _manipulate(self, path, lock=SENTINEL, unlock=SENTINEL, mtime=SENTINEL,
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
-            p = self._path(path)
-            lock = self.file_locks[p]
-            res = lock.acquire()
+            res = self._lock_for_path(path).acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
-            p = self._path(path)
-            lock = self.file_locks[p]
-            lock.release()
+            self._lock_for_path(path).release()
 
         if mtime is not self.SENTINEL:
             nd = self._get_node_for_path(self._fs, path)
@@ -726,6 +722,14 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p] = next_op_callback
 
 
+    def _lock_for_path(self, path):
+        nd = self._get_node_for_path(self._fs, path, throw=False)
+        if nd is not None and nd.kind == NodeKind.FILE:
+            return nd.lock
+        # the lock it gets when it's created
+        return self.file_locks[self._path(path)]
+
+
     def supports_symlinks(self):
         return True
 
-- 
2.43.0


From 131a8bcaeefb3fce27c8fd8f7604885e76c545db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 67/82] fix: makedirs doesn't fail if somebody else creates the
 directory just then

---
 abl/vpath/base/fs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 3a4f42a..2e2f996 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1062,9 +1062,13 @@ class FileSystem(object):
         if not pth.isdir():
             self.makedirs(pth)
         if tail:
-            return path.mkdir()
-        else:
-            return path
+            try:
+                return path.mkdir()
+            except OSError:
+                # somebody else might have been faster
+                if not path.isdir():
+                    raise
+        return path
 
 
     def move(self, source, destination):
-- 
2.43.0


From 1f3782d78c29c6ee302ad0c56d2120a60a0a9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 68/82] fix: handles on one memory file don't get in each
 other's way in threads

---
 abl/vpath/base/memory.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 0435ba7..d9a8718 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -33,12 +33,15 @@ class MemoryFile(object):
         self.mtime = self.ctime = time.time()
         self.mode = 0
         self.lock = lock
+        # handles that are used by different threads share the data's position
+        self.access = threading.RLock()
 
 
     def reset(self):
-        self._data = BytesIO()
-        self._line_reader = None
-        self.mtime = self.ctime = time.time()
+        with self.access:
+            self._data = BytesIO()
+            self._line_reader = None
+            self.mtime = self.ctime = time.time()
 
 
     def __len__(self):
@@ -79,11 +82,12 @@ class MemoryFile(object):
 
 
     def truncate(self, pos):
-        missing = pos - self.size()
-        if missing > 0:
-            self._data.seek(0, 2)
-            self._data.write(b'\0' * missing)
-        return self._data.truncate(pos)
+        with self.access:
+            missing = pos - self.size()
+            if missing > 0:
+                self._data.seek(0, 2)
+                self._data.write(b'\0' * missing)
+            return self._data.truncate(pos)
 
 
     def seekable(self):
@@ -159,11 +163,12 @@ class MemoryFileProxy(object):
 
 
     def _at_position(self, func, *args, **kwargs):
-        self.mem_file.seek(self.position)
-        try:
-            return func(*args, **kwargs)
-        finally:
-            self.position = self.mem_file.tell()
+        with self.mem_file.access:
+            self.mem_file.seek(self.position)
+            try:
+                return func(*args, **kwargs)
+            finally:
+                self.position = self.mem_file.tell()
 
 
     def _require(self, allowed):
@@ -184,9 +189,10 @@ class MemoryFileProxy(object):
 
     def write(self, data, *args, **kwargs):
         self._require(self.writable)
-        if self.append:
-            self.position = self.mem_file.size()
-        self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
+        with self.mem_file.access:
+            if self.append:
+                self.position = self.mem_file.size()
+            self._at_position(self.mem_file.write, self.encode(data), *args, **kwargs)
         return len(data)
 
 
-- 
2.43.0


From c83ebef0e75215220a3a40cb08857d8e8ebd12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 69/82] fix: remove() removes what is neither file nor
 directory, too

---
 abl/vpath/base/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 2e2f996..c10c463 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -613,7 +613,8 @@ class BaseUri(object):
                 return remove_dir_recursively(self.connection, self)
             else:
                 return self.connection.removedir(self)
-        elif self.connection.isfile(self):
+        else:
+            # a pipe, say, is no regular file
             return self.connection.removefile(self)
 
 
-- 
2.43.0


From e8e9217d1a533939e274bd79d6f36f5c2ffa03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 70/82] fix: nothing is created in a memory directory that
 another thread removes just then

---
 abl/vpath/base/memory.py | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index d9a8718..b7fb4e2 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -257,6 +257,7 @@ class MemoryDir(object):
 
     def __init__(self):
         self._files = {}
+        self.removed = False
         self.mtime = self.ctime = time.time()
         self.mode = 0
 
@@ -390,6 +391,8 @@ class MemoryFileSystem(FileSystem):
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
         self.file_locks = defaultdict(threading.Lock)
+        # held while an entry is created or removed
+        self._tree_lock = threading.RLock()
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -411,7 +414,11 @@ class MemoryFileSystem(FileSystem):
         return None
 
     def _create_child(self, parent, name, obj):
-        return parent.create(name, obj)
+        with self._tree_lock:
+            if parent.removed:
+                # by another thread, just now
+                raise OSError(errno.ENOENT, "No such file or directory: %s" % name)
+            return parent.create(name, obj)
 
     def _del_child(self, parent, name):
         return parent.remove(name)
@@ -684,24 +691,27 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, _ = self._get_node_prev(self._fs,
-                                        [x for x in self._path(path).split("/") if x],
-                                        follow_link=False)
-        if parent is not None:
-            if self._del_child(parent, self._path(path).split("/")[-1]) is None:
-                raise OSError(errno.ENOENT,
-                              "No such file or directory: %r" % str(path))
+        with self._tree_lock:
+            parent, nd = self._get_node_prev(self._fs,
+                                             [x for x in self._path(path).split("/") if x],
+                                             follow_link=False)
+            if parent is not None:
+                self._refuse_directory(nd)
+                self._del_child(parent, self._path(path).split("/")[-1])
 
 
     def removedir(self, path):
-        prev, nd = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
-        if prev is not None:
-            part = self._path(path).split("/")[-1]
-            if nd.isempty():
-                self._del_child(prev, part)
-            else:
-                raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
+        with self._tree_lock:
+            prev, nd = self._get_node_prev(self._fs,
+                                           [x for x in self._path(path).split("/") if x],
+                                           follow_link=False)
+            if prev is not None:
+                if nd.kind != NodeKind.DIR:
+                    raise OSError(errno.ENOTDIR, "Not a directory: %r" % path)
+                if not nd.isempty():
+                    raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
+                self._del_child(prev, self._path(path).split("/")[-1])
+                nd.removed = True
 
 
     def lock(self, path, fail_on_lock, cleanup):
-- 
2.43.0


From 11968c9687eed30a2bdcf56bf9baec4d2b726a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 71/82] fix: URIs can be copied, deep-copied and pickled

---
 abl/vpath/base/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index c10c463..0438d56 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -403,9 +403,17 @@ class BaseUri(object):
 
 
     def __getattr__(self, attr):
+        if attr == 'parse_result':
+            # not there yet, while the URI is being copied or unpickled
+            raise AttributeError(attr)
         return getattr(self.parse_result, attr)
 
 
+    def __getstate__(self):
+        "a copy gets the connection anew, from the registry"
+        return dict(self.__dict__, connection=None)
+
+
     def __eq__(self, other):
         if isinstance(other, BaseUri):
             return self.parse_result == other.parse_result
-- 
2.43.0


From e44d81879f2bdbe195d427280055ef27527aa3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 72/82] fix: memory: dump takes binary files

---
 abl/vpath/base/memory.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index b7fb4e2..d1f79e4 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -638,15 +638,18 @@ class MemoryFileSystem(FileSystem):
         def traverse(current, path="memory:///"):
             for name, value in sorted(current.items()):
                 if value.kind == NodeKind.FILE:
+                    proxy = MemoryFileProxy(value, readable=True, binary=True)
+                    data = proxy.read()
+                    # not everything is a text
+                    content = data.decode('utf-8', 'backslashreplace')
                     if no_binary:
                         mt, _ = mimetypes.guess_type(name)
                         if mt in self.BINARY_MIME_TYPES:
                             hash_ = hashlib.md5()
-                            hash_.update(value)
-                            value = "Binary: %s" % hash_.hexdigest()
-                    proxy = MemoryFileProxy(value, readable=True, binary=False)
+                            hash_.update(data)
+                            content = "Binary: %s" % hash_.hexdigest()
                     outf.write("--- START %s%s ---\n" % (path, name))
-                    outf.write(proxy.read())
+                    outf.write(content)
                     outf.write("\n--- END ---\n\n")
                 elif value.kind == NodeKind.LINK:
                     outf.write("LINK: %s%s -> %s\n" % (path, name, value.target))
-- 
2.43.0


From 0e65c26a2bb50f839ba8bc4eb0934785c723db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 73/82] fix: '://' behind a '/' is a part of a local path, not
 a scheme

---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0438d56..a7fc6eb 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -305,9 +305,11 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
+            # behind a '/', '://' is a part of the path
+            is_local = not '://' in uri or '/' in uri.split('://')[0]
+            if is_local and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
-            if not '://' in uri:
+            if is_local:
                 uri = 'file://'+uri
             self.uri = uri
             self.sep = sep
-- 
2.43.0


From f8c758365afc7c93393ed7c98c6f5dd4c9d3e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 74/82] fix: a query parameter may be called sep or uri

---
 abl/vpath/base/fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index a7fc6eb..7da3ee5 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -444,9 +444,10 @@ class BaseUri(object):
         parts[3] = query
         result = self.__class__(
             uri_from_parts(parts),
-            sep=self.sep,
-            **self._extras()
+            sep=self.sep
             )
+        # not as keywords, they may be called 'sep' or 'uri'
+        result.extras = self._extras()
         result.username = self.username
         result.password = self.password
         return result
-- 
2.43.0


From 232c817132b47f2803f680d4537d41b33d1efd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 75/82] fix: truncating a memory file sets its mtime

---
 abl/vpath/base/memory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index d1f79e4..f9b63ff 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -87,6 +87,7 @@ class MemoryFile(object):
             if missing > 0:
                 self._data.seek(0, 2)
                 self._data.write(b'\0' * missing)
+            self.mtime = time.time()
             return self._data.truncate(pos)
 
 
-- 
2.43.0


From c7970541c6e9fa4f5dd7854a1c8a7a50d9f59eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:03 +0000
Subject: [PATCH 76/82] fix: zip: threads may use an archive at the same time

---
 abl/vpath/base/zip.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 61a82db..6b83430 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -4,6 +4,7 @@
 #******************************************************************************
 
 import errno
+import threading
 from io import BytesIO
 from zipfile import ZipFile
 
@@ -31,13 +32,14 @@ class WriteStatement(object):
         if self.closed:
             return
         self.closed = True
-        # other handles might have been used in the meantime
-        self.zip_backend.open_zip('w')
-        self.zip_backend._ziphandle.writestr(self.path_string,
-                                             self.byte_buffer.getvalue())
-        self.byte_buffer.close()
-        self.zip_backend.close_zip()
-        self.zip_backend.open_zip()
+        with self.zip_backend._access:
+            # other handles might have been used in the meantime
+            self.zip_backend.open_zip('w')
+            self.zip_backend._ziphandle.writestr(self.path_string,
+                                                 self.byte_buffer.getvalue())
+            self.byte_buffer.close()
+            self.zip_backend.close_zip()
+            self.zip_backend.open_zip()
 
 
     def __getattr__(self, attr):
@@ -122,6 +124,9 @@ class ZipFileSystem(FileSystem):
     def _initialize(self):
         self._file_handle = None
         self._ziphandle = None
+        # held while the archive is open for an operation: another thread
+        # would close it
+        self._access = threading.RLock()
 
 
     def close_zip(self):
@@ -149,6 +154,11 @@ class ZipFileSystem(FileSystem):
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
+        with self._access:
+            return self._open(unc, options)
+
+
+    def _open(self, unc, options):
         if options is None:
             options = 'r'
         if 'r' in options:
@@ -240,11 +250,12 @@ class ZipFileSystem(FileSystem):
         the names of what is in the archive right now; there is no archive
         until something is written
         """
-        if not self._zip_file_path().exists():
-            return []
-        self.open_zip()
-        # other tools write names without the leading slash
-        return ['/' + name.lstrip('/') for name in self._ziphandle.namelist()]
+        with self._access:
+            if not self._zip_file_path().exists():
+                return []
+            self.open_zip()
+            # other tools write names without the leading slash
+            return ['/' + name.lstrip('/') for name in self._ziphandle.namelist()]
 
 
     def listdir(self, unc):
-- 
2.43.0


From 008b22b72df6fe3c1d0b1fb45b3498ebf965c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:14 +0000
Subject: [PATCH 77/82] fix: local: a lock cleans up its own file, whatever the
 working directory is by then

---
 abl/vpath/base/localfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 682df8b..c318905 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -170,7 +170,9 @@ class LocalFileSystem(FileSystem):
 
 
     def lock(self, path, fail_on_lock, cleanup):
-        return LockFile(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
+        # the working directory might be another one when it's cleaned up
+        pth = os.path.join(os.getcwd(), self._path(path))
+        return LockFile(pth, fail_on_lock=fail_on_lock, cleanup=cleanup)
 
 
     def mtime(self, path):
-- 
2.43.0


From 9d3ffc0f092105ad2efd86611f85d8289fb6afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:14 +0000
Subject: [PATCH 78/82] fix: TempFileHandle: a name with links and '..' denotes
 the same file as for open

---
 abl/vpath/base/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index d497a95..c9425bf 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -21,7 +21,8 @@ class TempFileHandle(object):
     """
     def __init__(self, tmpfilename):
         # the working directory might be another one when it's removed
-        self.tmpfilename = os.path.abspath(tmpfilename)
+        # (not abspath: with links, '..' depends on where they lead)
+        self.tmpfilename = os.path.join(os.getcwd(), tmpfilename)
         self.handle = open(self.tmpfilename)
 
     def __enter__(self):
-- 
2.43.0


From a56213226b2720d57a98fd02df8fe44388af28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 79/82] fix: move a local link over a file on another device

---
 abl/vpath/base/localfs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index c318905..8298a93 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -164,7 +164,14 @@ class LocalFileSystem(FileSystem):
                 # shutil.move follows it, if it leads to a directory or if it
                 # leads to or from another device
                 self._remove_target_link(source, dest)
-            return shutil.move(source.path, dest.path)
+            try:
+                return shutil.move(source.path, dest.path)
+            except FileExistsError:
+                # from another device, it doesn't replace a file by a link
+                if not source.islink():
+                    raise
+                self.removefile(dest)
+                return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
 
-- 
2.43.0


From a924acd63de7b87b4cd34850bf4db04c46ef442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 80/82] fix: a local move that isn't permitted changes nothing

---
 abl/vpath/base/fs.py      |  6 +++++-
 abl/vpath/base/localfs.py | 12 +++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 7da3ee5..e655c18 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1100,13 +1100,17 @@ class FileSystem(object):
 
 
     def _remove_target_link(self, source, link):
+        self._refuse_needed_link(source, link)
+        link.remove()
+
+
+    def _refuse_needed_link(self, source, link):
         for path in (source, link):
             parent = path.dirname()
             while parent != path:
                 if parent.islink() and self._is_same_entry(parent, link):
                     raise shutil.Error("%s is needed to reach %s" % (link, path))
                 path, parent = parent, parent.dirname()
-        link.remove()
 
 
     def _move_target(self, source, destination):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 8298a93..546e3df 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -160,10 +160,20 @@ class LocalFileSystem(FileSystem):
         """
         if dest.scheme == 'file':
             dest = self._move_target(source, dest)
+            if dest.islink():
+                self._refuse_needed_link(source, dest)
+            try:
+                os.rename(source.path, dest.path)
+                return dest.path
+            except PermissionError:
+                # shutil.move would copy it then, and fail to remove the source
+                raise
+            except OSError:
+                pass
             if dest.islink():
                 # shutil.move follows it, if it leads to a directory or if it
                 # leads to or from another device
-                self._remove_target_link(source, dest)
+                self.removefile(dest)
             try:
                 return shutil.move(source.path, dest.path)
             except FileExistsError:
-- 
2.43.0


From fa31f72f0623c4f21fdc7db31bb2371497960636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 81/82] fix: a move from an unreadable file keeps the link it
 would replace

---
 abl/vpath/base/fs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e655c18..8089334 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1088,10 +1088,14 @@ class FileSystem(object):
         the semantic should be like unix 'mv' command
         """
         destination = self._move_target(source, destination)
+        same_backend = self._is_same_backend(destination)
+        as_link = source.islink() and same_backend
         if destination.islink():
+            if source.isfile() and not as_link:
+                # fail before the link is lost, if it can't be read
+                source.open('rb').close()
             self._remove_target_link(source, destination)
-        same_backend = self._is_same_backend(destination)
-        if source.islink() and same_backend:
+        if as_link:
             self._copy_link(source, destination)
         else:
             source.copy(destination, recursive=source.isdir(),
-- 
2.43.0


From 3d46980c4ffb0cb8a6880162336f0687743c4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 82/82] fix: a URI with a scheme in capitals is not taken for a
 local path

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 8089334..65d4109 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -255,7 +255,7 @@ def with_connection(func, self, *args, **argd):
 
 #============================================================================
 
-scheme_re = re.compile("([a-z][a-z0-9+.-]*)://")
+scheme_re = re.compile("([a-zA-Z][a-zA-Z0-9+.-]+)://")
 # '/./foo' and '/../foo' stand for relative paths, '/.foo' doesn't
 relative_re = re.compile(r"/\.\.?(/|$)")
 
-- 
2.43.0

