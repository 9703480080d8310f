From e84058ca9d2163a4e6b2a732bdcb29726e3cb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 001/173] fix: indexing.nonchanging ignored newaxis and matched
 dimensions wrongly around Ellipsis

---
 src/spectrocrunch/utils/indexing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index f5e290c..36a6b94 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -556,7 +556,11 @@ def nonchanging(index, shape=None):
 
         if shape is None:
             return all(nonchanging(i) for i in index)
+        elif any(i is np.newaxis for i in index):
+            return False
         else:
+            if Ellipsis in index:
+                index = expand(index, len(shape))
             return all(nonchanging(i, s) for i, s in zip(index, shape))
     elif isinstance(index, slice):
         return (
-- 
2.43.0


From 0b0b2936edfc30ab563ad00cec4e2e63be0f5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 002/173] fix: stack indexing with boolean lists combined with
 list indexing of the stack dimension

---
 src/spectrocrunch/utils/indexing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index 36a6b94..c9ccead 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -873,14 +873,14 @@ def decompose_listindexing(index, nlist):
     # Replace bool with int array
     index2 = list(index)
     for i, ind in enumerate(index2):
-        if instance.isboolsequence(index2):
-            index2[i] = np.where(index2)
+        if instance.isboolsequence(ind):
+            index2[i] = listtools.where(ind, bool)
 
     indexlist = [None] * nlist
-    nindex = len(index)
+    nindex = len(index2)
     tpl = [0] * nindex
     for j in range(nlist):
-        for i, ind in enumerate(index):
+        for i, ind in enumerate(index2):
             if instance.islistgen(ind):
                 tpl[i] = ind[j]
             else:
-- 
2.43.0


From d16f085103b08e85c53a6566c2a78e16564660a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 003/173] fix: stack item assignment when list indexing moves
 the stack dimension

---
 src/spectrocrunch/utils/indexing.py | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index c9ccead..cbcf3d0 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -748,6 +748,11 @@ class op_index(object):
             data = data[self.index]
         return data
 
+    def inverse(self, data):
+        if self.index is not None:
+            data = data[tuple(0 if i is np.newaxis else i for i in self.index)]
+        return data
+
     def __str__(self):
         return "indexing: {}".format(self.index)
 
@@ -762,6 +767,11 @@ class op_transpose(object):
 
         return data
 
+    def inverse(self, data):
+        if self.axes is not None:
+            data = np.transpose(data, np.argsort(self.axes))
+        return data
+
     def __str__(self):
         return "transpose: {}".format(self.axes)
 
@@ -796,6 +806,11 @@ class operators(object):
             data = o(data)
         return data
 
+    def inverse(self, data):
+        for o in reversed(self.ops):
+            data = o.inverse(data)
+        return data
+
 
 def move_axis(ndim, i1, i2):
     """Transpose axes to move axis i1 to i2
@@ -1021,16 +1036,19 @@ def setitem(
     # print 'indexrest:',indexrest
     # print 'axis:',axis
 
-    valueindex = not instance.isscalar(value) and axis is not None
-    if valueindex:
-        valueindex = [slice(None)] * len(shapeafter)
-    else:
-        valuesel = ops(value)
+    # Value in the layout of the stack before applying ops
+    valuesel = value
+    valueindex = False
+    if not instance.isscalar(value):
+        valuesel = ops.inverse(np.broadcast_to(value, shapeafter))
+        if axis is not None:
+            value = valuesel
+            valueindex = [slice(None)] * value.ndim
 
     for i, (arg, ind) in enumerate(zip(arglist, indexlist)):
         if valueindex:
             valueindex[axis] = i
-            valuesel = ops(value[tuple(valueindex)])
+            valuesel = value[tuple(valueindex)]
         if method == "set":
             selector(arg)[ind] = valuesel
         elif method == "add":
-- 
2.43.0


From 5aa20e03643f277db7a60cf2efff450cbcf287a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 004/173] fix: localfs copy of a symbolic link passed a method
 as link destination

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 99bb4a2..ac5b17f 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -171,7 +171,7 @@ class Path(fs.Path):
         dest = self._copy_move_prepare(dest, force=force)
         if self.islink and not follow:
             # just copy the link
-            dest.link(self.linkdest)
+            dest.link(self.linkdest())
         else:
             # TODO: missing option: expand softlinks when pointing outside
             #       the tree being copied.
-- 
2.43.0


From 55f1708c5156fdedaf441e1830003bffac8b08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 005/173] fix: localfs stats failed on the nanosecond time
 stamps of os.stat

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index ac5b17f..c867ef8 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -215,7 +215,7 @@ class Path(fs.Path):
         ret = {k[3:]: getattr(ret, k) for k in dir(ret) if k.startswith("st_")}
 
         for k, v in ret.items():
-            if "time" in k:
+            if k.endswith("time"):
                 ret[k] = datetime.fromtimestamp(v)
 
         # ret['permissions'] = oct(ret.pop('mode') & 0o777)
-- 
2.43.0


From f7eb4fc50ab0872df3d1fc4eff681a9ab79c1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 006/173] fix: h5fs pop_stat opened the file read-only

---
 src/spectrocrunch/io/h5fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index ec2d9bf..815f43d 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -637,7 +637,7 @@ class Path(fs.Path):
         if not follow:
             raise ValueError("Hdf5 links do not have attributes themselves")
         try:
-            with self.open(mode="r") as node:
+            with self.open() as node:
                 return node.attrs.pop(instance.asunicode(key), default=default)
         except fs.Missing:
             return default
-- 
2.43.0


From 72e9b0d013b69d8ca743c1fab3e5c3f341b9ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 007/173] fix: h5fs move/copy followed links out of the tree
 when redirecting links (loops on cyclic links)

---
 src/spectrocrunch/io/h5fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 815f43d..e897d10 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -571,13 +571,14 @@ class Path(fs.Path):
         # that point to a destination below self (including self)
         if self.is_external_link:
             return
-        for path in self.listdir():
-            path._copymove_relink(source, dest)
         if self.islink:
             linkdest = self.linkdest()
             if source.common(linkdest) == source:
                 self.remove()
                 self.link(dest[source.relpath(linkdest.path)])
+        else:
+            for path in self.listdir():
+                path._copymove_relink(source, dest)
 
     def copy(self, dest, force=False, follow=False, dereference=False):
         with self.h5open() as fsource:
-- 
2.43.0


From a18685a87ecfac23e9fceaf5f4845cc8972ab56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 008/173] fix: localfs stats raised UnboundLocalError when
 os.stat fails (e.g. broken link through a file)

---
 src/spectrocrunch/io/localfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index c867ef8..451d18f 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -209,8 +209,9 @@ class Path(fs.Path):
             else:
                 ret = os.lstat(self.path)
         except OSError as err:
-            if err.errno == errno.ENOENT:
+            if err.errno in (errno.ENOENT, errno.ENOTDIR):
                 raise fs.Missing(self.location)
+            raise
 
         ret = {k[3:]: getattr(ret, k) for k in dir(ret) if k.startswith("st_")}
 
-- 
2.43.0


From 8d4b646263dbc4f194d0e53e6e51d723aebfdfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 009/173] fix: Path.readonly did not return the read-only path

---
 src/spectrocrunch/io/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 42d3e0c..766105f 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -256,7 +256,7 @@ class Path(File):
 
     def readonly(self, **kwargs):
         kwargs["mode"] = "r"
-        self.detach(**kwargs)
+        return self.detach(**kwargs)
 
     def sibling(self, path):
         if isinstance(path, Path):
-- 
2.43.0


From a23302abb46818033d14c5fcaa3e52539df9f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 010/173] fix: links inside a tree which is moved or copied to
 another HDF5 file were left dangling

---
 src/spectrocrunch/io/h5fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index e897d10..8222cf8 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -573,6 +573,9 @@ class Path(fs.Path):
             return
         if self.islink:
             linkdest = self.linkdest()
+            if linkdest.device != source.device and dest.common(linkdest) != dest:
+                # Soft link copied from another device
+                linkdest = source[linkdest.path]
             if source.common(linkdest) == source:
                 self.remove()
                 self.link(dest[source.relpath(linkdest.path)])
-- 
2.43.0


From f95c1b36ebfa70f88be823e161cc3cbcf561cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 011/173] fix: h5Device applied the local file mode
 restrictions (truncation/creation when not requested)

---
 src/spectrocrunch/io/h5fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 8222cf8..8ae9c64 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -324,7 +324,8 @@ class h5Device(localfs.Path):
         #    logger.debug('Close '+msg)
 
     def _openparams_defaults(self, openparams):
-        super(h5Device, self)._openparams_defaults(openparams)
+        # Skip the restrictions of localfs (HDF5 modes are different)
+        super(localfs.Path, self)._openparams_defaults(openparams)
         defaultmode = self.openparams["mode"]
         mode = openparams["mode"]
 
-- 
2.43.0


From 4858fce0c7bc219090d37af4fa926bd2f27fe13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 012/173] fix: h5Device rejected its documented mode w-

---
 src/spectrocrunch/io/h5fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 8ae9c64..be59bcc 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -309,6 +309,8 @@ class h5Device(localfs.Path):
         """
         if mode not in ("r", "r+", "w", "x", "w-", "a"):
             raise ValueError("Invalid mode {}".format(repr(mode)))
+        if mode == "w-":
+            mode = "x"
         self.openparams = kwargs
         self.openparams["mode"] = mode
         super(h5Device, self).__init__(path, **kwargs)
-- 
2.43.0


From 4fff17461ad1ed62e30678f982e60980f99dc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 013/173] fix: target.Name.unlock locked the name

---
 src/spectrocrunch/io/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/target.py b/src/spectrocrunch/io/target.py
index 64112b9..6e36c5e 100755
--- a/src/spectrocrunch/io/target.py
+++ b/src/spectrocrunch/io/target.py
@@ -75,7 +75,7 @@ class Name(object):
         self.locked = True
 
     def unlock(self):
-        self.locked = True
+        self.locked = False
 
     def __repr__(self):
         return repr(str(self))
-- 
2.43.0


From 3c33e5069d672f6c83ed076e70b6e1805df7626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 014/173] fix: target.Name.matchfunc matched the str type
 instead of the name

---
 src/spectrocrunch/io/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/target.py b/src/spectrocrunch/io/target.py
index 6e36c5e..fdcaab8 100755
--- a/src/spectrocrunch/io/target.py
+++ b/src/spectrocrunch/io/target.py
@@ -97,7 +97,7 @@ class Name(object):
 
     @property
     def matchfunc(self):
-        return match(str(str))
+        return match(str(self))
 
 
 def calc_checksum(dependencies, parameters, alreadyhash=False):
-- 
2.43.0


From 0b9e5b8d2a44d1491bab47fdbb63a0d45e3410f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 015/173] fix: adding an existing NeXus axis with a quantity
 raised TypeError

---
 src/spectrocrunch/io/nxfs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 29ca172..114841c 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -1088,6 +1088,11 @@ class _NXcollection(_NXPath):
 
     def _axis_equal(self, axis1, axis2):
         if isinstance(axis1, h5fs.Path):
+            if instance.isquantity(axis2):
+                u = units.Quantity(1, axis1.get_stat("units", "dimensionless")).units
+                if axis2.dimensionality != u.dimensionality:
+                    return False
+                axis2 = axis2.to(u).magnitude
             with axis1.open(mode="r") as node1:
                 if isinstance(axis2, h5fs.Path):
                     with axis2.open(mode="r") as node2:
-- 
2.43.0


From 27e6f38f852ccef8a8e14af488bb75e0bc4de3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 016/173] fix: removing the only signal of an NXdata left its
 name as default signal

---
 src/spectrocrunch/io/nxfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 114841c..f020e63 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -924,6 +924,8 @@ class _NXdata(_NXPath):
                         aux = [signal for signal in signals if signal != name]
                         if aux:
                             self.update_stats(auxiliary_signals=aux)
+                elif self.get_stat("signal", None) == name:
+                    self.pop_stat("signal")
             self.updated()
 
     def sort_signals(self, other=None):
-- 
2.43.0


From e2495d459faaaae35c64189c19b6814d7f45beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 017/173] fix: HandleTermination did not restore the signal
 handlers when setup or teardown raises

---
 src/spectrocrunch/utils/signalhandling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index 61ef022..cc292ee 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -81,16 +81,23 @@ class HandleTermination(object):
         self._needcleanup = True
         self._oldhandlers = replace_handlers(self._newhandler, termination_handlers())
         if self._setup is not None:
-            self._setup()
+            try:
+                self._setup()
+            except BaseException:
+                restore_handlers(self._oldhandlers)
+                self._needcleanup = False
+                raise
 
     def _cleanup(self, exc_type, exc_value, exc_traceback):
         """User tear-down and reset signal handlers"""
         ret = 0
         if self._needcleanup:
-            if self._teardown is not None:
-                ret = self._teardown(exc_type, exc_value, exc_traceback)
-            restore_handlers(self._oldhandlers)
-            self._needcleanup = False
+            try:
+                if self._teardown is not None:
+                    ret = self._teardown(exc_type, exc_value, exc_traceback)
+            finally:
+                restore_handlers(self._oldhandlers)
+                self._needcleanup = False
         return ret
 
     def _newhandler(self, signum, frame):
-- 
2.43.0


From 653020072ee07ba3a03c05d0253306310a248995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 018/173] fix: HDF5 path visible with dangling links while it
 is being moved

---
 src/spectrocrunch/io/h5fs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index be59bcc..ac92041 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -558,15 +558,20 @@ class Path(fs.Path):
             if dest.exists and force:
                 dest.remove(recursive=True)
             if self.device == dest.device:
+                # Redirect links before moving: the destination
+                # needs to be complete when it appears
+                self._copymove_relink(self, dest)
                 try:
                     # h5py does not have a `rename` so use
                     # the next best thing
                     f.move(self.path, dest.path)
                 except ValueError:
+                    self._copymove_relink(dest, self)
                     dest = self._move_copyrenamedel(dest)
+                    dest._copymove_relink(self, dest)
             else:
                 dest = self._move_copyrenamedel(dest)
-            dest._copymove_relink(self, dest)
+                dest._copymove_relink(self, dest)
             return self.factory(dest)
 
     def _copymove_relink(self, source, dest):
-- 
2.43.0


From 5a1df93d87c7598bc806f2568be3139d1930b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 019/173] fix: signalname returned the name of another constant
 (e.g. SIG_SETMASK for SIGINT)

---
 src/spectrocrunch/utils/signalhandling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index cc292ee..c393634 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -61,7 +61,11 @@ def send_signals(signals, handlers=None):
 
 
 def signalname(signum):
-    return next(v for v, k in signal.__dict__.items() if k == signum)
+    return next(
+        v
+        for v, k in signal.__dict__.items()
+        if k == signum and v.startswith("SIG") and not v.startswith("SIG_")
+    )
 
 
 class HandleTermination(object):
-- 
2.43.0


From d5b18ddfc397cf096b6cdc565a99903f32b206bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 020/173] fix: nanone/nanzero in expressions modified the
 operand itself and failed on scalars

---
 src/spectrocrunch/process/nxexpression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 208d880..059bc24 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -234,8 +234,7 @@ class MathParser(object):
 
     @staticmethod
     def _fn_nan(a, v):
-        a[np.isnan(a)] = v
-        return a
+        return np.where(np.isnan(a), v, a)
 
     def evaluateStack(self, s):
         op = s.pop()
-- 
2.43.0


From e716673ebec04a9b3266807e61ac374f382debbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 021/173] fix: the fourth fixed variable in an expression
 evaluated as the number e

---
 src/spectrocrunch/process/nxexpression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 059bc24..18369e7 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -57,7 +57,8 @@ class Task(nxregulargrid.Task):
         varnames.remove("")
 
         # Rename fixed arguments
-        o = integerbase(digs=[c for c in string.ascii_lowercase])
+        # ("e" is the base of the natural logarithm)
+        o = integerbase(digs=[c for c in string.ascii_lowercase if c != "e"])
         namemap = {}
         for i, oldname in enumerate(varnames, 1):
             newname = o.int2base(i)
-- 
2.43.0


From fa3f9546431222e99acd523778acdb0fc17d21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 022/173] fix: expressions with only the variable argument were
 not applied

---
 src/spectrocrunch/process/nxexpression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 18369e7..c3de389 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -32,7 +32,7 @@ class Task(nxregulargrid.Task):
         logger.info("Expression: {}".format(parameters["expression"]))
 
     def _process_data(self, data):
-        if self.variables:
+        if not self._copysignal:
             variables = {"a": data}
             for name, path in self.variables.items():
                 with path.open(mode="r") as dset:
@@ -78,12 +78,14 @@ class Task(nxregulargrid.Task):
         self.vardefault = {k: vardefault[k] for k, v in varcount.items() if v == 1}
 
     def _prepare_signal(self, signal):
+        self._copysignal = False
         if self._skip(signal):
             self.variables = {}
             logger.info("skip {}".format(signal.name))
             return False
         elif self._copy(signal):
             self.variables = {}
+            self._copysignal = True
             logger.info("copy {}".format(signal.name))
             return True
         else:
-- 
2.43.0


From 2110c9a437383816d9cd87606ea04ca3e534b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 023/173] fix: crop and replace only recognized the nan object
 of numpy

---
 src/spectrocrunch/process/nxcrop.py    | 4 ++--
 src/spectrocrunch/process/nxreplace.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index d3e8715..122d23c 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -64,12 +64,12 @@ class Task(nxregulargrid.Task):
             mask = np.ones(shape, dtype=bool)
             for i in range(refgrid.shape[self.signal_stackdim]):
                 img = refgrid[indexgen(i)]
-                if nanval is np.nan:
+                if nanval != nanval:
                     mask &= np.logical_not(np.isnan(img))
                 else:
                     mask &= img != nanval
         else:
-            if nanval is np.nan:
+            if nanval != nanval:
                 mask = np.isnan(refgrid.values).sum(axis=self.signal_stackdim) == 0
             else:
                 mask = (refgrid.values == nanval).sum(axis=self.signal_stackdim) == 0
diff --git a/src/spectrocrunch/process/nxreplace.py b/src/spectrocrunch/process/nxreplace.py
index 5462d9e..6788d57 100755
--- a/src/spectrocrunch/process/nxreplace.py
+++ b/src/spectrocrunch/process/nxreplace.py
@@ -10,7 +10,7 @@ class Task(nxregulargrid.Task):
     def _process_data(self, data):
         v1 = self.parameters["old"]
         v2 = self.parameters["new"]
-        if v1 is np.nan:
+        if v1 != v1:
             data[np.isnan(data)] = v2
         else:
             data[data == v1] = v2
-- 
2.43.0


From b9621bdfede668d3479c3c6a1150f56142455470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 024/173] fix: sliced crop failed when there is nothing to crop

---
 src/spectrocrunch/process/nxcrop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index 122d23c..7290fa7 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -32,6 +32,8 @@ class Task(nxregulargrid.Task):
 
     @property
     def signalout_shape(self):
+        if self.roi is None:
+            return self.signalin_shape
         return self.cropped_shape
 
     def _process_axes(self):
-- 
2.43.0


From fc76dfc65a782c51bce8b59200925cbcca8ae136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 025/173] fix: resampling with a user provided encoder offset
 failed

---
 src/spectrocrunch/process/nxresample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/process/nxresample.py b/src/spectrocrunch/process/nxresample.py
index 835c0a5..69b6e7b 100755
--- a/src/spectrocrunch/process/nxresample.py
+++ b/src/spectrocrunch/process/nxresample.py
@@ -198,6 +198,7 @@ class Task(nxregulargrid.Task):
         if offset is None:
             encoder = axis.factory(position.values * resolution)
         else:
+            offset = units.Quantity(offset, units="dimensionless")
             encoder = axis.factory(position.values * resolution + offset)
 
         crop = self.parameters["crop"]
-- 
2.43.0


From 5179fa221f86a4273f5aa151e80879c1740ff7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 026/173] fix: interp1d_floor, interp1d_ceil and extrap1d did
 not evaluate arrays (python 3)

---
 src/spectrocrunch/math/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/interpolate.py b/src/spectrocrunch/math/interpolate.py
index 59e7be8..e9920d2 100755
--- a/src/spectrocrunch/math/interpolate.py
+++ b/src/spectrocrunch/math/interpolate.py
@@ -19,7 +19,7 @@ def extrap1d(interpolator):
             return interpolator(x)
 
     def ufunclike(xs):
-        return array(map(pointwise, array(xs)))
+        return array(list(map(pointwise, array(xs))))
 
     return ufunclike
 
@@ -34,7 +34,7 @@ def interp1d_floor(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
@@ -51,7 +51,7 @@ def interp1d_ceil(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
-- 
2.43.0


From ea045f6d4b2db246b1527c4491073fcb4c161c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 027/173] fix: changing start, end or stepsize of a regular
 axis added a step

---
 src/spectrocrunch/process/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index dd7b2fa..4a24379 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -521,11 +521,11 @@ class AxisRegular(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.end, self.size
+        self.values = value, self.end, self.nsteps
 
     @_AxisRegular.end.setter
     def end(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -556,11 +556,11 @@ class AxisRegularInc(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.stepsize, self.size
+        self.values = value, self.stepsize, self.nsteps
 
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
-- 
2.43.0


From a92889f1c8b56963da0e8f1843dface8c3acc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 028/173] fix: end_stepsize of segmented axes returned the
 second step size

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 4a24379..64f2fbb 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -672,7 +672,7 @@ class AxisSegments(Axis):
 
     @property
     def end_stepsize(self):
-        return self.stepsizes[1]
+        return self.stepsizes[-1]
 
     @property
     def nsteps(self):
-- 
2.43.0


From 292258157217c8f25a0afcfa7b6de98b8ed75ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 029/173] fix: unit conversion of an axis changed the axis it
 was converted from or only part of the axis

---
 src/spectrocrunch/process/axis.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 64f2fbb..7825140 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -1,3 +1,4 @@
+import copy
 import difflib
 import numpy as np
 from ..utils import units
@@ -328,7 +329,7 @@ class Axis(object):
     def to(self, u):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        ret = self.__class__(*self.initargs, **self.initkwargs)
+        ret = copy.deepcopy(self)
         ret.units = u
         return ret
 
@@ -538,8 +539,8 @@ class AxisRegular(_AxisRegular):
     @_AxisRegular.values.setter
     def values(self, params):
         self._params = params
-        self._start = units.Quantity(params[0])
-        u = self._start.units
+        u = units.Quantity(params[0]).units
+        self._start = units.Quantity(params[0]).to(u)  # do not share
         self._end = units.Quantity(params[1], units=u).to(u)
         self._size = params[2] + 1
         if self.size == 1:
@@ -573,8 +574,8 @@ class AxisRegularInc(_AxisRegular):
     @_AxisRegular.values.setter
     def values(self, params):
         self._params = params
-        self._start = units.Quantity(params[0])
-        u = self._start.units
+        u = units.Quantity(params[0]).units
+        self._start = units.Quantity(params[0]).to(u)  # do not share
         self._stepsize = units.Quantity(params[1], units=u).to(u)
         self._size = params[2] + 1
         self._end = self.start + self.stepsize * self.nsteps
@@ -608,8 +609,8 @@ class AxisNumber(_AxisRegular):
     @_AxisRegular.values.setter
     def values(self, params):
         self._params = params
-        self._start = units.Quantity(params[0])
-        u = self._start.units
+        u = units.Quantity(params[0]).units
+        self._start = units.Quantity(params[0]).to(u)  # do not share
         self._end = self.start
         self._size = 1
         self._stepsize = units.Quantity(0, units=u)
@@ -635,6 +636,16 @@ class AxisSegments(Axis):
     def end(self):
         return self.limits[-1]
 
+    @property
+    def units(self):
+        return self.values.units
+
+    @units.setter
+    def units(self, value):
+        self.values.ito(value)
+        self.limits.ito(value)
+        self.stepsizes.ito(value)
+
     @property
     def limits(self):
         return self._limits
-- 
2.43.0


From 5514435cbd4eb239f3eca104a1aa20833576f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 030/173] fix: axis simplification moved positions by more than
 the precision

---
 src/spectrocrunch/process/axis.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 7825140..4b2b4b7 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -342,8 +342,10 @@ class Axis(object):
             else:
                 diff = abs(np.diff(np.diff(self.magnitude)))
                 if max(diff) <= self.precision.magnitude:
-                    return AxisRegular(
-                        self.start, self.end, self.size - 1, **self.initkwargs
+                    return self._simplified(
+                        AxisRegular(
+                            self.start, self.end, self.size - 1, **self.initkwargs
+                        )
                     )
                 else:
                     n = len(self)
@@ -357,10 +359,21 @@ class Axis(object):
                         # Limit the number of segments to 1/3 of the number of values
                         limits = self.values[ind]
                         nsteps = np.diff(ind)
-                        return AxisSegments(limits, nsteps, **self.initkwargs)
+                        return self._simplified(
+                            AxisSegments(limits, nsteps, **self.initkwargs)
+                        )
 
         return self
 
+    def _simplified(self, other):
+        """Simplified axis unless deviations (e.g. below the precision for each
+        step) accumulate to something larger than the precision"""
+        values = self.magnitude
+        diff = max(abs(values - other.magnitude))
+        if diff <= max(self.precision.magnitude, 1e-12 * max(abs(values))):
+            return other
+        return self
+
     @property
     def start_stepsize(self):
         return self[1] - self[0]
-- 
2.43.0


From 1904407f474a7a51b3ee7c66ed0430f0b0d2ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 031/173] fix: in-place arithmetic on a regular grid replaced
 the grid by None and did not support division (python 3)

---
 src/spectrocrunch/process/h5regulargrid.py | 6 ++++++
 src/spectrocrunch/process/regulargrid.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index f37082a..822fe0d 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -132,6 +132,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="add",
             )
+        return self
 
     def __isub__(self, value):
         with self.open() as group:
@@ -149,6 +150,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="sub",
             )
+        return self
 
     def __imul__(self, value):
         with self.open() as group:
@@ -166,6 +168,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="mul",
             )
+        return self
 
     def __idiv__(self, value):
         with self.open() as group:
@@ -183,6 +186,9 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="div",
             )
+        return self
+
+    __itruediv__ = __idiv__
 
     @property
     def dtype(self):
diff --git a/src/spectrocrunch/process/regulargrid.py b/src/spectrocrunch/process/regulargrid.py
index a57517a..5da18e2 100755
--- a/src/spectrocrunch/process/regulargrid.py
+++ b/src/spectrocrunch/process/regulargrid.py
@@ -99,18 +99,24 @@ class RegularGrid(object):
     def __iadd__(self, value):
         with self.open() as data:
             data += value
+        return self
 
     def __isub__(self, value):
         with self.open() as data:
             data -= value
+        return self
 
     def __imul__(self, value):
         with self.open() as data:
             data *= value
+        return self
 
     def __idiv__(self, value):
         with self.open() as data:
             data /= value
+        return self
+
+    __itruediv__ = __idiv__
 
     @property
     def dtype(self):
-- 
2.43.0


From ee7be684344fcc5c16817bb4d7d135e409c44117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 032/173] fix: values of an NXRegularGrid ignored the stack
 dimension

---
 src/spectrocrunch/process/h5regulargrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index 822fe0d..22cb3bc 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -198,9 +198,11 @@ class NXRegularGrid(RegularGrid):
     @property
     def values(self):
         ret = np.empty(self.shape, dtype=self.dtype)
+        index = [slice(None)] * self.ndim
         for i, signal in enumerate(self.signals):
+            index[self.stackdim] = i
             with signal.open(mode="r") as dset:
-                ret[i] = dset[()]
+                ret[tuple(index)] = dset[()]
                 # No longer works in h5py 3.1:
                 # dset.read_direct(ret, dest_sel=(i, Ellipsis))
         return ret
-- 
2.43.0


From 1d4c4ac0d9ad7d4aae0b10e4e43d70f7b4aa4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 033/173] fix: composed operators with a different operand on
 the right compared equal

---
 src/spectrocrunch/math/linop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 4b7501b..46c2d97 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -88,7 +88,11 @@ class Operator(object):
     def __eq__(self, other):
         if not isinstance(other, self.__class__):
             return False
-        return self._op_name == other._op_name and self._attr_eq(other)
+        return (
+            self._op_name == other._op_name
+            and self._attr_eq(other)
+            and self._opright == other._opright
+        )
 
     def _attr_eq(self, other):
         return True
-- 
2.43.0


From 31058dc65f7f6413868caf39f49e59ed1a0e5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 034/173] fix: powers of a linear operator: zero was not the
 identity and operators on the right were ignored

---
 src/spectrocrunch/math/linop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 46c2d97..ba3c890 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -362,11 +362,11 @@ class LinearOperator(Operator):
             if p < 0:
                 raise NotImplementedError
             elif p == 0:
-                ret = self.__class__(0, 1)
+                ret = self.__class__(1, 0)
             else:
-                ret = self.__class__(self.m, self.b)
+                ret = self
                 for _ in range(1, p):
-                    ret *= self.__class__(self.m, self.b)
+                    ret = ret * self
             return ret
         else:
             raise NotImplementedError
-- 
2.43.0


From d1bec4c2235a8a39a6ab8d877ee704a19e89e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 035/173] fix: memory mapping an EDF file with swapped bytes
 modified the file

---
 src/spectrocrunch/io/edf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/edf.py b/src/spectrocrunch/io/edf.py
index 5f8e89c..b3dbace 100755
--- a/src/spectrocrunch/io/edf.py
+++ b/src/spectrocrunch/io/edf.py
@@ -14,13 +14,18 @@ class edfmemmap:
         self.shape = f.shape
         self.ndim = len(self.shape)
         offset = f._frames[f.currentframe].start
+        dtype = np.dtype(self.dtype)
+        if f.swap_needed():
+            dtype = dtype.newbyteorder()
         self.mdata = np.memmap(
-            filename, dtype=self.dtype, offset=offset, shape=self.shape, order="C"
+            filename,
+            dtype=dtype,
+            mode=mode,
+            offset=offset,
+            shape=self.shape,
+            order="C",
         )
 
-        if f.swap_needed():
-            self.mdata.byteswap(True)
-
     @property
     def data(self):
         return self.mdata
-- 
2.43.0


From 2297c13533af944a75ca0522ab08a8f298c9a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 036/173] fix: normalizing XIA data with a number or a missing
 counter raised an exception

---
 src/spectrocrunch/io/xiaedf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 56b1a69..6dfbe2d 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2336,7 +2336,8 @@ class xiaimage(xiacompound):
                         m, self
                     )
                 )
-                m = 1  # np.ones(self.dshape[0:2])
+                m = 1
+            m = np.full(self.dshape[0:2], m)
         else:
             m = self._getedfimage(f)
 
-- 
2.43.0


From 92f140a8824424a788bab53f622cfc8d01b87fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 037/173] fix: XIA line included files from a radix with the
 same prefix

---
 src/spectrocrunch/io/xiaedf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 6dfbe2d..bb3c179 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2387,6 +2387,7 @@ class xialine_number(xialine):
         """
 
         self._fileformat = os.path.join(path, xiaformat_line(radix, mapnum, linenum))
+        self._radix = radix
         self._datafiles = []
         self._statfile = None
 
@@ -2398,6 +2399,11 @@ class xialine_number(xialine):
     def search(self):
         """Find data and statistics files"""
         files = glob(self._fileformat.format("*"))
+        files = [
+            f
+            for f in files
+            if xianameparser.parse(f, throw=False).radix == self._radix
+        ]
         files.sort(key=xiasortkey)
 
         def valid(x):
-- 
2.43.0


From 7e4b9b442e733abd57ca85f83f98788109ee6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 038/173] fix: a failed read of XIA data changed what the next
 read returns

---
 src/spectrocrunch/io/xiaedf.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index bb3c179..c0aacdc 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -900,32 +900,40 @@ class xiadata(object):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlydata()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlystats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlystats()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlycounters(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlycounters()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_allstats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlyicrocr(False)
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_cache(self):
-- 
2.43.0


From 8ef940df17dcc5bf082b675f5fb8d12c48d97a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 039/173] fix: saved XIA statistics did not say to which
 detectors they belong

---
 src/spectrocrunch/io/xiaedf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index c0aacdc..9ac64a5 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2104,21 +2104,25 @@ class xialine(xiadata):
             img = fabio.edfimage.EdfImage(data=data[..., i], header=header)
             self._write(img, self._fileformat.format(xialabels[i]), makedir=i == 0)
 
-    def _save_stats(self, stats):
+    def _save_stats(self, stats, xialabels=None):
         """
         Args:
             stats(array): dimensions = nspec x nstats x ndet
+            xialabels(list): len(xialabels) = ndet
 
         Returns:
             None
         """
         ndet = stats.shape[2]
         nstats = stats.shape[1] * ndet
+        detectors = [xiadetector_tonumber(label) for label in xialabels or []]
+        if len(detectors) != ndet or None in detectors:
+            detectors = range(ndet)
         header = {
             "xdata": 3,
             "xcorr": 0,
             "xnb": ndet,
-            "xdet": " ".join(str(i) for i in range(ndet)),
+            "xdet": " ".join(str(i) for i in detectors),
         }
 
         tmp = stats.reshape((stats.shape[0], nstats))
@@ -2150,12 +2154,12 @@ class xialine(xiadata):
             #        self._save_data(data,xialabels=xialabels)
 
             if stats is not None or stats is True:
-                self._save_stats(data.allstats)
+                self._save_stats(data.allstats, xialabels=xialabels)
         else:
             self._save_data(data, xialabels=xialabels)
 
             if stats is not None:
-                self._save_stats(stats)
+                self._save_stats(stats, xialabels=xialabels)
 
     def datafilenames(self):
         """
-- 
2.43.0


From 29c456ad96ce4ae26f0a529ff4599f37fc7cef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 040/173] fix: XIA stacks ignored the relative directory of the
 counters

---
 src/spectrocrunch/io/xiaedf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 9ac64a5..96e559b 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2538,6 +2538,11 @@ class xiaimage_files(xiaimage):
             self.path, xiaformat_ctr(self.radix, self.mapnum)
         )
 
+    def search(self):
+        # Counters in the same directory are part of the list of files
+        if os.path.normpath(self._xiaconfig["counter_reldir"]) != ".":
+            self.ctrsearch()
+
 
 class xiaimage_number(xiaimage):
     """XIA image determined by its map number"""
-- 
2.43.0


From 692df8203e55d2c2c5c78667237591f6e0f07015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 041/173] fix: shape of XIA counters ignored the detector
 selection

---
 src/spectrocrunch/io/xiaedf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 96e559b..6184eee 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2220,7 +2220,7 @@ class xiaimage(xiacompound):
         files = self.ctrfilenames()
         if files:
             s = self._getedfimage(files[0], cache=True).shape
-            return s + (len(files), 1)
+            return s + (len(self.ctrfilenames_used()), 1)
         else:
             return ()
 
-- 
2.43.0


From ad80d1840bd727abb9623b3509c9605e3546e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 042/173] fix: counters of individual detectors were lost when
 saving XIA data

---
 src/spectrocrunch/io/xiaedf.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 6184eee..e98d9d0 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1766,7 +1766,7 @@ class xiacompound(xiadata):
             if ctrs is not None or ctrs is True:
                 ctrs = data.counters[..., 0]
                 if not ctrnames:
-                    ctrnames = data.counterbasenames()
+                    ctrnames = data.counternames_used()
             self._save_data(
                 selfitems,
                 data.data,
@@ -1801,9 +1801,14 @@ class xiacompound(xiadata):
 
             if bctrsave:
                 ctrheaders = instance.asscalar(ctrheaders)
-                counters = data.counterbasenames()
+                counters = data.counternames_used()
                 if not ctrnames:
                     ctrnames = counters
+                elif not set(ctrnames).issubset(counters):
+                    counters = [
+                        xianameparser.parse(f).baselabel
+                        for f in data.ctrfilenames_used()
+                    ]
                 data = data.counters[..., 0]
                 # nctrs = data.shape[-1]
                 for k in ctrnames:
@@ -1894,6 +1899,13 @@ class xiacompound(xiadata):
         else:
             return []
 
+    def counternames_used(self):
+        items = self.getitems()
+        if items:
+            return items[0].counternames_used()
+        else:
+            return []
+
 
 class xialine(xiadata):
     def __init__(self, **kwargs):
@@ -2295,6 +2307,9 @@ class xiaimage(xiacompound):
             self.search()
         return [xianameparser.parse(f).label for f in self._ctrfiles]
 
+    def counternames_used(self):
+        return [xianameparser.parse(f).label for f in self.ctrfilenames_used()]
+
     def headers(self, **kwargs):
         return [self.header(**kwargs)]
 
-- 
2.43.0


From 97702a6e7792d18b1b1c56e89761eb6a07b39843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 043/173] fix: reading an item of an XIA stack or image
 depended on what was read before

---
 src/spectrocrunch/io/xiaedf.py | 40 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index e98d9d0..02b65bb 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -625,9 +625,6 @@ class xiadict(dict):
         if "leveldatainfo" not in self:
             self["leveldatainfo"] = {"dt": 0, "sum": 0, "norm": 1, "ctr": 1}
 
-        if "freezeleveldatainfo" not in self:
-            self["freezeleveldatainfo"] = False
-
         if "counter_reldir" not in self:
             # relative to the path of the xia files
             self["counter_reldir"] = "."
@@ -704,14 +701,15 @@ class xiadict(dict):
     def resetmaxlevel(self, maxlevel):
         self["maxlevel"] = 0
 
-    def setleveldatainfo(self):
-        """Set the levels at which to perform certain data processing or data retrieval"""
-        if self["freezeleveldatainfo"]:
-            return
+    def setleveldatainfo(self, level):
+        """Set the levels at which to perform certain data processing or data retrieval
 
+        Args:
+            level(num): level from which the data is accessed
+        """
         if self["indexing"]["stats"]:
             # otherwise, stats will be retrieved twice
-            self["leveldatainfo"]["dt"] = self["maxlevel"]
+            self["leveldatainfo"]["dt"] = level
         else:
             # saves memory
             self["leveldatainfo"]["dt"] = 0
@@ -725,10 +723,6 @@ class xiadict(dict):
         # Counter info is only available on level 1
         self["leveldatainfo"]["ctr"] = 1
 
-    def freezeleveldatainfo(self, b):
-        """Stop setleveldatainfo from being executed again"""
-        self["freezeleveldatainfo"] = b
-
     def counter_reldir(self, reldir):
         self["counter_reldir"] = reldir
 
@@ -742,6 +736,10 @@ class cachedict(dict):
         if "levels" not in self:
             self["levels"] = dict()
 
+        # Level from which data is being accessed
+        if "accesslevel" not in self:
+            self["accesslevel"] = None
+
     def flush(self):
         self["imagehandles"] = cache.LimitedSizeDict(size_limit=20)
         self["levels"] = dict()
@@ -875,9 +873,6 @@ class xiadata(object):
         return self._level == self._xiaconfig["maxlevel"]
 
     def thisleveldatainfo(self):
-        if self._highestlevel:
-            self._xiaconfig.setleveldatainfo()
-
         info = {
             "dt": self._xiaconfig["dtcor"]
             and self._level == self._xiaconfig["leveldatainfo"]["dt"],
@@ -899,7 +894,6 @@ class xiadata(object):
     def env_indexing_onlydata(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlydata()
-        self._xiaconfig.freezeleveldatainfo(True)
         try:
             yield
         finally:
@@ -909,7 +903,6 @@ class xiadata(object):
     def env_indexing_onlystats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlystats()
-        self._xiaconfig.freezeleveldatainfo(True)
         try:
             yield
         finally:
@@ -919,7 +912,6 @@ class xiadata(object):
     def env_indexing_onlycounters(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlycounters()
-        self._xiaconfig.freezeleveldatainfo(True)
         try:
             yield
         finally:
@@ -929,7 +921,6 @@ class xiadata(object):
     def env_indexing_allstats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlyicrocr(False)
-        self._xiaconfig.freezeleveldatainfo(True)
         try:
             yield
         finally:
@@ -937,9 +928,16 @@ class xiadata(object):
 
     @contextlib.contextmanager
     def env_cache(self):
-        if self._highestlevel:
+        if self._cache["accesslevel"] is None:
             self._cache.flush()
-        yield
+            self._xiaconfig.setleveldatainfo(self._level)
+            self._cache["accesslevel"] = self._level
+            try:
+                yield
+            finally:
+                self._cache["accesslevel"] = None
+        else:
+            yield
 
     def _tracemsg(self, msg):
         logger.debug("{}{}".format(" " * self._level * 2, msg))
-- 
2.43.0


From 68cd88c6527ed6ac5c7c3ce27a6f13d82310114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 044/173] fix: centroid and gaussian maximum of an image had x
 and y swapped

---
 src/spectrocrunch/math/center.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/center.py b/src/spectrocrunch/math/center.py
index 5d24294..42d0e79 100755
--- a/src/spectrocrunch/math/center.py
+++ b/src/spectrocrunch/math/center.py
@@ -26,7 +26,7 @@ def _centroid(data):
         y, x = np.indices((ny, nx))
         cx = np.sum(x * data) / np.sum(data)
         cy = np.sum(y * data) / np.sum(data)
-        return np.array((cx, cy))
+        return np.array((cy, cx))
 
 
 def _fit(data):
@@ -39,7 +39,7 @@ def _fit(data):
         y, x = np.indices(data.shape)
         p, success = fitgaussian2d(x, y, data)
         if success:
-            ret = p[[0, 1]]
+            ret = p[[1, 0]]
     if success:
         return ret
     else:
-- 
2.43.0


From 0b3502b69373d50a3c93ab2f9b524b44454c27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 045/173] fix: alignment ROI without end excluded the last row
 or column

---
 src/spectrocrunch/align/align.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 67bc140..ae5a67e 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -283,7 +283,7 @@ class align(object):
         CroiInv = self.defaulttransform(ttype=transformationType.translation)
         if self.pre_align["roi"] is not None:
             # cof raw to pre-align
-            ty, tx = self.pre_align["roi"][:][0]
+            (ty, _), (tx, _) = self.pre_align["roi"]
             # cof pre-align to raw
             CroiInv.settranslation(-tx, -ty)
         for prealign_to_raw, prealign_to_pretransform, pretransfo in zip(
@@ -826,15 +826,9 @@ class align(object):
                 else:
                     return a
 
-            def edefault(a):
-                if a is None:
-                    return -1
-                else:
-                    return a
-
             self.pre_align["roi"] = (
-                (bdefault(roi[0][0]), edefault(roi[0][1])),
-                (bdefault(roi[1][0]), edefault(roi[1][1])),
+                (bdefault(roi[0][0]), roi[0][1]),
+                (bdefault(roi[1][0]), roi[1][1]),
             )
         self.calccof_prealign_to_raw()
 
-- 
2.43.0


From 6d1aec46daabdc330e53e3008c953d693ca37067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 046/173] fix: alignment with padding and cropping lost pixels
 instead of padding

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index ae5a67e..6bb4f27 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -537,6 +537,7 @@ class align(object):
     def bextendfrommask(self, pairwise):
         return (
             self.post_transform_requested["crop"]
+            and not self.pre_transform_requested["pad"]
             and self.cval is np.nan
             and (
                 self.pre_align["roi"] is None
-- 
2.43.0


From eeb7632ccccbed39d263a0bea2e6b0de8631e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 047/173] fix: overwriting aligned datasets failed for names
 with an extension

---
 src/spectrocrunch/align/alignDest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index d16d9df..cb882eb 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -106,10 +106,10 @@ class alignDest(object):
         return self.h5_setnames(path)
 
     def h5_datasetscheck(self, shape, dtype):
+        setnames = self.h5_setnames(self.dir)
         return all(
-            self.handle[self.h5_composesetname(self.dir, name)].shape == shape
-            and self.handle[name].dtype == dtype
-            for name in self.names
+            self.handle[name].shape == shape and self.handle[name].dtype == dtype
+            for name in setnames
         )
 
     def h5_createdatasets(self, setnames, shape, dtype):
-- 
2.43.0


From c9d790506ebd6495d70680ecb9d5deb28e06bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 048/173] fix: shifting an image over whole pixels lost pixels
 next to missing data

---
 src/spectrocrunch/align/transform.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 172efd4..59e548d 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -65,15 +65,11 @@ class LinearMapping(Mapping):
             return img
         if self.transfotype == transformationType.translation:
             # shift: takes transformation vector for coordinates (y,x)
-            return shift(
-                img, -self.cof[1::-1], cval=self.cval, **self.interpolationargs
-            )
+            return self._shiftimage(img, -self.cof[1::-1])
         else:
             if self.islinearidentity():
                 # shift: takes transformation vector for coordinates (y,x)
-                return shift(
-                    img, -self.cof[1::-1, 2], cval=self.cval, **self.interpolationargs
-                )
+                return self._shiftimage(img, -self.cof[1::-1, 2])
             elif self.isprojidentity():
                 # affine_transform: takes change-of-frame matrix
                 #                   for coordinates (y,x)
@@ -87,6 +83,13 @@ class LinearMapping(Mapping):
             else:
                 raise NotImplementedError()
 
+    def _shiftimage(self, img, trn):
+        kwargs = dict(self.interpolationargs)
+        if np.array_equal(trn, np.round(trn)):
+            # Interpolation is not needed and spreads NaN's to the neighbours
+            kwargs["order"] = 0
+        return shift(img, trn, cval=self.cval, **kwargs)
+
     def __repr__(self):
         if self.transfotype == transformationType.translation:
             return "tx = {}, ty = {}".format(self.cof[0], self.cof[1])
-- 
2.43.0


From ac4c0cbab92bbe89cd4e29a750fb605d5fb20703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 049/173] fix: pair-wise alignment on raw images saved images
 aligned with the previous raw image

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 6bb4f27..50de183 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -799,6 +799,7 @@ class align(object):
                 for j in range(self.source.nsets):
                     usealignedimage = (
                         aligntype != alignType.usetransfo
+                        and not (pairwise and self.alignonraw)
                         and j == refdatasetindex
                         and self.nopre_align()
                         and self.nopre_transform(i)
-- 
2.43.0


From dc19b11282879e11f799dd3738051e8ca790e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 050/173] fix: a copied transformation shared its matrix with
 the original

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 59e548d..88a004c 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -53,7 +53,7 @@ class LinearMapping(Mapping):
         m = LinearMapping(
             self.transfotype, dtype=self.dtype, cval=self.cval, **self.interpolationargs
         )
-        m.cof = self.cof
+        m.cof = self.cof.copy()
         return m
 
     def copy(self):
-- 
2.43.0


From afab574dee6c0e4f11fb02061a20c692e6f9b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 051/173] fix: rotation angle of a rigid transformation lost
 its sign

---
 src/spectrocrunch/align/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 88a004c..ccf7807 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -176,7 +176,8 @@ class LinearMapping(Mapping):
         if self.transfotype == transformationType.translation:
             return 0, self.cof[0], self.cof[1]
         elif self.transfotype == transformationType.rigid:
-            return np.arccos(self.cof[0, 0]), self.cof[0, 2], self.cof[1, 2]
+            theta = np.arctan2(self.cof[1, 0], self.cof[0, 0])
+            return theta, self.cof[0, 2], self.cof[1, 2]
         else:
             raise ValueError(
                 "Transformation should be a translation or a rigid transformation"
-- 
2.43.0


From 69fab18dc98a55726f1e986a09609f3ffb2b3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 052/173] fix: affine part of a transformation was not the
 affine part

---
 src/spectrocrunch/align/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index ccf7807..77e80e2 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -239,13 +239,13 @@ class LinearMapping(Mapping):
                 [[1, 0, self.cof[0]], [0, 1, self.cof[1]]], dtype=self.dtype
             )
         elif self.transfotype == transformationType.rigid:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.similarity:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.affine:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.projective:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         else:
             raise ValueError("Transformation does not have an affine part")
 
-- 
2.43.0


From e134743f69bccb696bafa42915aab6e2b269a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 053/173] fix: transformations did not change type when set to
 a rigid or projective one

---
 src/spectrocrunch/align/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 77e80e2..8990043 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -154,7 +154,7 @@ class LinearMapping(Mapping):
     def setrigid(self, theta, tx, ty):
         if self.transfotype == transformationType.translation:
             # trn = self.gettranslation()
-            self.transfotype == transformationType.affine
+            self.transfotype = transformationType.rigid
             self.cof = self.getidentity()
         elif self.transfotype == transformationType.rigid:
             pass
@@ -256,11 +256,11 @@ class LinearMapping(Mapping):
             self.cof = self.getidentity()
             self.settranslation(trn)
         elif self.transfotype == transformationType.rigid:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.similarity:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.affine:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.projective:
             pass
         else:
-- 
2.43.0


From d2f8ac7ea037935ee7a0665914d4725660998a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 054/173] fix: affine transformation of an image transposed the
 off-diagonal elements

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 8990043..ead4d79 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -75,7 +75,7 @@ class LinearMapping(Mapping):
                 #                   for coordinates (y,x)
                 return affine_transform(
                     img,
-                    self.cof[0:2, 0:2].T,
+                    self.cof[1::-1, 1::-1],
                     offset=self.cof[1::-1, 2],
                     cval=self.cval,
                     **self.interpolationargs,
-- 
2.43.0


From 70757993b281db3946b52c7ddaba43815e780c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 055/173] fix: copying a transformation of another type

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index ead4d79..44b3e3b 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -448,7 +448,7 @@ class LinearMapping(Mapping):
         self.transfotype = transformobj.transfotype
         self.dtype = transformobj.dtype
         self.cval = transformobj.cval
-        self.cof[:] = transformobj.cof[:]
+        self.cof = transformobj.cof.copy()
 
     def _solvelinearsystem(self, A, b):
         sol = lstsq(A, b)
-- 
2.43.0


From bbb6df8640f6f0fd0add12e408e1a6b4b7c87dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 056/173] fix: rigid transformation from keypoints was not the
 one that maps them

---
 src/spectrocrunch/align/transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 44b3e3b..ac03550 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -500,8 +500,9 @@ class LinearMapping(Mapping):
         # R.(X-Xcen) = Y-Ycen
         # R.X + T = Y   and   T = Ycen - R.Xcen
 
-        censrc = np.asarray([self.centroid(xdest), self.centroid(ydest)])[:, np.newaxis]
-        cendest = np.asarray([self.centroid(xsrc), self.centroid(ysrc)])[:, np.newaxis]
+        # The trimmed mean cannot be used: it does not rotate with the points
+        censrc = np.asarray([np.mean(xdest), np.mean(ydest)])[:, np.newaxis]
+        cendest = np.asarray([np.mean(xsrc), np.mean(ysrc)])[:, np.newaxis]
 
         X = np.vstack([xdest, ydest])
         Y = np.vstack([xsrc, ysrc])
@@ -509,8 +510,8 @@ class LinearMapping(Mapping):
         S = np.dot(
             np.dot(X - censrc, np.identity(len(xdest))), np.transpose(Y - cendest)
         )
-        U, s, V = np.linalg.svd(S, full_matrices=False)
-        C = np.dot(V, np.transpose(U))
+        U, s, Vh = np.linalg.svd(S, full_matrices=False)
+        C = np.dot(np.transpose(Vh), np.transpose(U))
         self.setlinear(C)
 
         # self.settranslation(cendest - C.dot(censrc))
-- 
2.43.0


From b3c56f4efefcb260a26f2cab127a036c26c13ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 057/173] fix: inverted or combined transformations lost their
 interpolation

---
 src/spectrocrunch/align/transform.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index ac03550..051fbe4 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -364,7 +364,9 @@ class LinearMapping(Mapping):
 
     def _dot(self, C, right=True):
         cof, transfotype = self._combine(C, right=right)
-        ret = transform(transfotype, dtype=cof.dtype, cval=self.cval)
+        ret = transform(
+            transfotype, dtype=cof.dtype, cval=self.cval, **self.interpolationargs
+        )
         ret.cof[:] = cof
         return ret
 
@@ -399,7 +401,12 @@ class LinearMapping(Mapping):
         self.before_inplace(C)
 
     def inverse(self):
-        ret = transform(self.transfotype, dtype=self.cof.dtype, cval=self.cval)
+        ret = transform(
+            self.transfotype,
+            dtype=self.cof.dtype,
+            cval=self.cval,
+            **self.interpolationargs,
+        )
         if self.transfotype == transformationType.translation:
             ret.cof[:] = -self.cof
         else:
-- 
2.43.0


From affeb8a6f71b97e12574a157e8117352d284e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 058/173] fix: merged Bliss mesh did not reshape to the shape
 of the mesh

---
 src/spectrocrunch/process/h5merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 753a068..df00e94 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -339,9 +339,11 @@ class MergedBlissMesh(MergedBlissScan):
         cmd = sources[0]["title"][()]
         for s in sources:
             assert cmd == s["title"][()]
+        if isinstance(cmd, bytes):
+            cmd = cmd.decode()
         parts = cmd.split(" ")
         shape = int(parts[4]), int(parts[8]) + 1
-        return {shape[0] * shape[1]: shape}
+        return {(shape[0] * shape[1],): shape}
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e7da906edafa6a395e48d15c4e967ac5705e7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 059/173] fix: texts of merged scans were stored as list

---
 src/spectrocrunch/process/h5merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index df00e94..9ec88ae 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -151,7 +151,7 @@ def stack_h5datasets(
     else:
         # Cannot make VDS of scalar datasets
         arr = [dset[()] for dset in sources]
-        if isinstance(arr[0], str):
+        if isinstance(arr[0], (str, bytes)):
             if name == "end_time":
                 arr = arr[-1]
             else:
-- 
2.43.0


From fade7018130abf1a3502d5f0aa763ed6f1e107ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 060/173] fix: merging maps that do not need reshaping
 scrambled their pixels

---
 src/spectrocrunch/process/h5merge.py | 8 ++++----
 src/spectrocrunch/process/nxstack.py | 2 +-
 src/spectrocrunch/process/nxtile.py  | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 9ec88ae..40e46b8 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -108,11 +108,11 @@ def stack_h5datasets(
         # VDS with reshaped scan dimensions
         data_shape = dset_shape[nscandim:]
         scan_shape = shape_map.get(
-            dset_shape[:nscandim], dset_shape[:nscandim]
-        )  # C-order
+            dset_shape[:nscandim], dset_shape[:nscandim][::-1]
+        )  # F-order
         # VDS does a C-order reshape (fast axis last) while the
         # source data is in F-order (fast axis first)
-        scan_shape = scan_shape[::-1]  # F-order
+        scan_shape = scan_shape[::-1]  # C-order
         if no_stack_dimension and len(sources) == 1:
             shape = scan_shape + data_shape
             layout = h5py.VirtualLayout(shape=shape, dtype=dtype)
@@ -173,7 +173,7 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
     det_shapes = [dset_shape[nscandim:] for dset_shape in dset_shapes]
 
     reshaped_scan_shapes = [
-        shape_map.get(scan_shape, scan_shape) for scan_shape in scan_shapes
+        shape_map.get(scan_shape, scan_shape[::-1]) for scan_shape in scan_shapes
     ]  # F-order
     reshaped_scan_shapes = [s[::-1] for s in reshaped_scan_shapes]  # C-order
 
diff --git a/src/spectrocrunch/process/nxstack.py b/src/spectrocrunch/process/nxstack.py
index ff77ed6..ec08928 100644
--- a/src/spectrocrunch/process/nxstack.py
+++ b/src/spectrocrunch/process/nxstack.py
@@ -23,7 +23,7 @@ class Task(nxmerge.Task):
 
         scan_shape = self._scan_shape(parameters["shape_parser"])
         if not scan_shape:
-            scan_shape = groups["parameters"][0].shape
+            scan_shape = groups["parameters"][0].shape[::-1]  # F-order
 
         shape_map = {}
         axes = collections.OrderedDict()
diff --git a/src/spectrocrunch/process/nxtile.py b/src/spectrocrunch/process/nxtile.py
index 13a0905..cdb5ea2 100644
--- a/src/spectrocrunch/process/nxtile.py
+++ b/src/spectrocrunch/process/nxtile.py
@@ -18,7 +18,7 @@ class Task(nxmerge.Task):
 
         scan_shape = self._scan_shape(parameters["shape_parser"])
         if not scan_shape:
-            scan_shape = groups["parameters"][0].shape
+            scan_shape = groups["parameters"][0].shape[::-1]  # F-order
         tile_shape = parameters["tile_shape"]
 
         shape_map = {}
-- 
2.43.0


From 880c5350676f9d8dce39c05369c47d8e3653ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 061/173] fix: merging incomplete scans with detector
 dimensions, or with more points than the map, misplaced or failed

---
 src/spectrocrunch/process/h5merge.py | 54 +++++++++++++---------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 40e46b8..0580a3c 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -29,14 +29,11 @@ def open_uris(uris):
                 logger.error("Closing '{}' : {}".format(f.filename, e))
 
 
-def match_shapes(shapes, keep_shapes_when_equal=True):
+def match_shapes(shapes):
     """Reduce shapes at the last dimension (C-order) so they have an equal total size"""
     sizes = numpy.array([numpy.prod(shape, dtype=int) for shape in shapes])
     if (sizes == sizes[0]).all():
-        if keep_shapes_when_equal:
-            return list(shapes)
-        else:
-            return [tuple()] * len(shapes)
+        return list(shapes)
     max_size = sizes.min()
     chunk_sizes = numpy.array([numpy.prod(shape[:-1], dtype=int) for shape in shapes])
     chunk_size = lcm(chunk_sizes)
@@ -44,20 +41,26 @@ def match_shapes(shapes, keep_shapes_when_equal=True):
     if n_chunks == 0:
         raise ValueError("Cannot match shapes {}".format(shapes))
     n_last_new = n_chunks * chunk_size // chunk_sizes
-    new_shapes = [shape[:-1] + (nlast,) for (shape, nlast) in zip(shapes, n_last_new)]
     return [
-        tuple() if shape == new_shape else new_shape
-        for shape, new_shape in zip(shapes, new_shapes)
+        tuple(shape[:-1]) + (int(nlast),) for (shape, nlast) in zip(shapes, n_last_new)
     ]
 
 
-def layout_slicing(source_shape, layout_shape):
-    return [
-        tuple(slice(0, n) for n in shape)
-        for shape in match_shapes(
-            [source_shape, layout_shape], keep_shapes_when_equal=False
-        )
-    ]
+def stack_slicing(source_shape, scan_shape, nscandim):
+    """
+    :param tuple source_shape: scan dimensions + data dimensions
+    :param tuple scan_shape: C-order
+    :param int nscandim: start index of the data dimensions
+    :return tuple(slice), tuple(slice): index of the source and the layout
+    """
+    source_scan_shape, layout_scan_shape = match_shapes(
+        [source_shape[:nscandim], scan_shape[::-1]]
+    )
+    data_shape = source_shape[nscandim:]
+    return tuple(
+        tuple(slice(0, n) for n in shape + data_shape)
+        for shape in (source_scan_shape, layout_scan_shape[::-1])
+    )
 
 
 def max_shape(shapes):
@@ -123,11 +126,8 @@ def stack_h5datasets(
                 shape=dset.shape,
                 dtype=dset.dtype,
             )
-            vsource_idx, layout_idx = layout_slicing(dset.shape, shape[::-1])
-            layout_idx = layout_idx[::-1]
-            if vsource_idx:
-                vsource = vsource[vsource_idx]
-            layout[layout_idx] = vsource
+            vsource_idx, layout_idx = stack_slicing(dset.shape, scan_shape, nscandim)
+            layout[layout_idx] = vsource[vsource_idx]
         else:
             shape = (len(sources),) + scan_shape + data_shape
             layout = h5py.VirtualLayout(shape=shape, dtype=dtype)
@@ -138,15 +138,10 @@ def stack_h5datasets(
                     shape=dset.shape,
                     dtype=dset.dtype,
                 )
-                vsource_idx, layout_idx = layout_slicing(dset.shape, shape[-1:0:-1])
-                layout_idx = layout_idx[::-1]
-                if vsource_idx:
-                    vsource = vsource[vsource_idx]
-                if layout_idx:
-                    layout_idx = (i,) + layout_idx
-                else:
-                    layout_idx = i
-                layout[layout_idx] = vsource
+                vsource_idx, layout_idx = stack_slicing(
+                    dset.shape, scan_shape, nscandim
+                )
+                layout[(i,) + layout_idx] = vsource[vsource_idx]
         dest.create_virtual_dataset(name, layout, fillvalue=fillvalue)
     else:
         # Cannot make VDS of scalar datasets
@@ -208,7 +203,6 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
         det_idx = tuple(slice(0, n) for n in det_shape)
         if reduced_source_shape != vsource.shape:
             vsource_idx = tuple(slice(0, n) for n in reduced_source_shape)
-            vsource_idx += det_idx
             vsource = vsource[vsource_idx]
         layout_idx += det_idx
         layout[layout_idx] = vsource
-- 
2.43.0


From e37e3295a1d8bc9308574cbe8c9ac35b30623417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 062/173] fix: Fourier transform with IDL normalization divided
 by the number of frequencies instead of data points

---
 src/spectrocrunch/math/ft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/ft.py b/src/spectrocrunch/math/ft.py
index 85e45c3..3a02bd9 100755
--- a/src/spectrocrunch/math/ft.py
+++ b/src/spectrocrunch/math/ft.py
@@ -177,7 +177,7 @@ def _dft(
 
         # Normalization:
         if (normconvention == fftConvention.idl) ^ inverse:
-            ret /= len(u)
+            ret /= len(f)
 
     return ret
 
@@ -270,7 +270,7 @@ def _dft2(
 
         # Normalization:
         if (normconvention == fftConvention.idl) ^ inverse:
-            ret /= len(u) * len(v)
+            ret /= f.shape[0] * f.shape[1]
 
     return ret
 
-- 
2.43.0


From bfbc4ff8f6fc7e7953e3f76e659445c1fd5d7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 063/173] fix: gaussian fits used coordinates as indices

---
 src/spectrocrunch/math/fit1d.py | 2 +-
 src/spectrocrunch/math/fit2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index bc56049..deb4deb 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -11,7 +11,7 @@ def guess_gaussian(x, data):
     x0i = np.argmax(data)
     x0 = x[x0i]
     sx = np.sqrt(abs((x - x0) ** 2 * data).sum() / data.sum())
-    A = data[x0] * np.sqrt(2 * np.pi) * sx
+    A = data[x0i] * np.sqrt(2 * np.pi) * sx
     return np.array([x0, sx, A], dtype=np.float32)
 
 
diff --git a/src/spectrocrunch/math/fit2d.py b/src/spectrocrunch/math/fit2d.py
index b707ae1..457dd68 100755
--- a/src/spectrocrunch/math/fit2d.py
+++ b/src/spectrocrunch/math/fit2d.py
@@ -31,7 +31,7 @@ def guess_gaussian(x, y, data):
     sy = np.sqrt(abs(xv**2 * yv).sum() / yv.sum())
     rho = 0.0
 
-    A = data[y0, x0] * 2 * np.pi * sx * sy * np.sqrt(1 - rho**2)
+    A = data[y0i, x0i] * 2 * np.pi * sx * sy * np.sqrt(1 - rho**2)
 
     return np.array([x0, y0, sx, sy, rho, A], dtype=np.float32)
 
-- 
2.43.0


From fc0b35a5c4a75d5d7b546113ec9a3f733923b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 064/173] fix: independent errors of a linear fit without given
 variances

---
 src/spectrocrunch/math/fit1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index deb4deb..df961b6 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -140,7 +140,7 @@ def lstsq_std_indep(A, b=None, x=None, vare=None):
     """
     if vare is None:
         vare = np.var(np.dot(A, x) - b, ddof=x.size)
-        vare = np.full(vare, x.size)
+        vare = np.full(A.shape[0], vare)
     return np.sqrt(lstsq(A * A, vare))
 
 
-- 
2.43.0


From fd60b4213581cce807f0514598767580845909b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 065/173] fix: roundlist used a function that no longer exists

---
 src/spectrocrunch/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/utils.py b/src/spectrocrunch/math/utils.py
index 92a9629..5b86fee 100755
--- a/src/spectrocrunch/math/utils.py
+++ b/src/spectrocrunch/math/utils.py
@@ -56,7 +56,7 @@ def roundlist(x, max_denominator=1000000):
         for a in x
     ]
     denoms = [a.denominator for a in x]
-    m = functools.reduce(lambda a, b: a * b // fractions.gcd(a, b), denoms)
+    m = functools.reduce(lambda a, b: a * b // math.gcd(a, b), denoms)
     return np.array([int(a * m) for a in x])
 
 
-- 
2.43.0


From 48935dfd5f132f20e3c59f555b387f40b600dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 066/173] fix: missing pixels made the position of Gaussian
 peaks NaN

---
 src/spectrocrunch/math/center.py | 3 +++
 src/spectrocrunch/math/fit1d.py  | 2 ++
 src/spectrocrunch/math/fit2d.py  | 8 +++++---
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/center.py b/src/spectrocrunch/math/center.py
index 42d0e79..fe0f06e 100755
--- a/src/spectrocrunch/math/center.py
+++ b/src/spectrocrunch/math/center.py
@@ -30,6 +30,9 @@ def _centroid(data):
 
 
 def _fit(data):
+    # Not enough valid pixels to determine all parameters
+    if np.isfinite(data).sum() < (3 if data.size in data.shape else 6):
+        return fmax(data)
     if data.size in data.shape:
         x = np.arange(data.size)
         p, success = fitgaussian1d(x, data)
diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index df961b6..7e4d255 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -20,6 +20,8 @@ def fitgaussian(x, data):
 
 
 def leastsq(x, data, guessfunc=None, fitfunc=None):
+    valid = ~np.isnan(data)
+    x, data = x[valid], data[valid]
     guess = guessfunc(x, data)
 
     def errorfunc(p, x, data):
diff --git a/src/spectrocrunch/math/fit2d.py b/src/spectrocrunch/math/fit2d.py
index 457dd68..6a37c45 100755
--- a/src/spectrocrunch/math/fit2d.py
+++ b/src/spectrocrunch/math/fit2d.py
@@ -19,16 +19,16 @@ def errorf_gaussian(p, x, y, data):
 
 
 def guess_gaussian(x, y, data):
-    y0i, x0i = np.unravel_index(np.argmax(data), data.shape)
+    y0i, x0i = np.unravel_index(np.nanargmax(data), data.shape)
     y0 = y[y0i, 0]
     x0 = x[0, x0i]
 
     xv = x[y0i, :] - x0
     yv = data[y0i, :]
-    sx = np.sqrt(abs(xv**2 * yv).sum() / yv.sum())
+    sx = np.sqrt(np.nansum(abs(xv**2 * yv)) / np.nansum(yv))
     xv = y[:, x0i] - y0
     yv = data[:, x0i]
-    sy = np.sqrt(abs(xv**2 * yv).sum() / yv.sum())
+    sy = np.sqrt(np.nansum(abs(xv**2 * yv)) / np.nansum(yv))
     rho = 0.0
 
     A = data[y0i, x0i] * 2 * np.pi * sx * sy * np.sqrt(1 - rho**2)
@@ -38,6 +38,8 @@ def guess_gaussian(x, y, data):
 
 def fitgaussian(x, y, data):
     guess = guess_gaussian(x, y, data)
+    valid = ~np.isnan(data)
+    x, y, data = x[valid], y[valid], data[valid]
 
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
-- 
2.43.0


From a6d61884f60a1a83b4098f24d3c8484f107c9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 067/173] fix: arrays with uncertainties were propagated as if
 they had no noise

---
 src/spectrocrunch/detectors/area.py          | 2 +-
 src/spectrocrunch/materials/lenses.py        | 2 +-
 src/spectrocrunch/materials/multilayer.py    | 2 +-
 src/spectrocrunch/materials/scintillators.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/detectors/area.py b/src/spectrocrunch/detectors/area.py
index 15659d4..55979ea 100755
--- a/src/spectrocrunch/detectors/area.py
+++ b/src/spectrocrunch/detectors/area.py
@@ -111,7 +111,7 @@ class AreaDetector(with_metaclass()):
         """
         qe = visspectrum.sample(self.qe).to("dimensionless").magnitude
         N, qe = self.propagate_broadcast(N, qe)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             darkcurrent = noisepropagation.poisson(self.darkcurrent)
             readoutnoise = noisepropagation.randomvariable(0, self.readoutnoise)
 
diff --git a/src/spectrocrunch/materials/lenses.py b/src/spectrocrunch/materials/lenses.py
index 7427445..3a6b5dd 100755
--- a/src/spectrocrunch/materials/lenses.py
+++ b/src/spectrocrunch/materials/lenses.py
@@ -127,7 +127,7 @@ class Lens(with_metaclass()):
         probsuccess = self.transmission(visspectrum)
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
         lightyield = self.lightyield(nrefrac, source=source)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(lightyield)
diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 4e5e039..b84e2ad 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -1766,7 +1766,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         else:
             raise RuntimeError("{} not implemented yet".format(interaction))
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             process = noisepropagation.bernouilli(probsuccess)
             Nout = noisepropagation.compound(N, process, forward=forward)
         else:
diff --git a/src/spectrocrunch/materials/scintillators.py b/src/spectrocrunch/materials/scintillators.py
index d132d1a..90cc9ed 100755
--- a/src/spectrocrunch/materials/scintillators.py
+++ b/src/spectrocrunch/materials/scintillators.py
@@ -102,7 +102,7 @@ class Scintillator(with_metaclass()):
 
         N, probsuccess, gain = self.propagate_broadcast(N, probsuccess, gain)
 
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(gain)
-- 
2.43.0


From 9ee09b938f9028a1bcf9261af752050ce3eb405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 068/173] fix: dark current electrons are counted: their
 variance equals their number

---
 src/spectrocrunch/detectors/area.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/detectors/area.py b/src/spectrocrunch/detectors/area.py
index 55979ea..4d384bf 100755
--- a/src/spectrocrunch/detectors/area.py
+++ b/src/spectrocrunch/detectors/area.py
@@ -112,7 +112,7 @@ class AreaDetector(with_metaclass()):
         qe = visspectrum.sample(self.qe).to("dimensionless").magnitude
         N, qe = self.propagate_broadcast(N, qe)
         if instance.isuscalar(N) or instance.isuarray(N):
-            darkcurrent = noisepropagation.poisson(self.darkcurrent)
+            darkcurrent = noisepropagation.poisson(self.darkcurrent * tframe)
             readoutnoise = noisepropagation.randomvariable(0, self.readoutnoise)
 
             process = noisepropagation.poisson(qe)
@@ -122,14 +122,14 @@ class AreaDetector(with_metaclass()):
                     ENout = noisepropagation.E(Nout)
                     Nout = noisepropagation.randomvariable(ENout, ENout**0.5)
                 Nout = (
-                    Nout + darkcurrent * tframe + readoutnoise
+                    Nout + darkcurrent + readoutnoise
                 ) * self.etoDU + self.DUoffset
                 Nout = noisepropagation.repeat(nframe, Nout, forward=forward)
             else:
                 Nout = noisepropagation.repeat(nframe, N, forward=forward)
                 Nout = noisepropagation.reverse_add(Nout, self.DUoffset)
                 Nout = noisepropagation.reverse_mult(Nout, self.etoDU)
-                Nout = noisepropagation.reverse_add(Nout, darkcurrent * tframe)
+                Nout = noisepropagation.reverse_add(Nout, darkcurrent)
                 Nout = noisepropagation.reverse_add(Nout, readoutnoise)
                 if poissonapprox:
                     ENout = noisepropagation.E(Nout)
-- 
2.43.0


From 4ff5e6f4187eaa42a58fa21fb118ed0dd08ec9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 069/173] fix: a formula looked up in the compound data base
 was cut to its first letter

And what follows the part of a formula that is understood was dropped silently.
---
 src/spectrocrunch/materials/compoundfromformula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/compoundfromformula.py b/src/spectrocrunch/materials/compoundfromformula.py
index a6a01a6..37e5b76 100755
--- a/src/spectrocrunch/materials/compoundfromformula.py
+++ b/src/spectrocrunch/materials/compoundfromformula.py
@@ -47,7 +47,7 @@ class FormulaParser(object):
 
     def eval(self, formula):
         self.elements = {}
-        result = self.formula.parseString(formula)
+        result = self.formula.parseString(formula, parseAll=True)
         self.parseresult(result, 1.0)
         return self.elements.keys(), self.elements.values()
 
@@ -88,4 +88,4 @@ def factory(name):
 
 
 def search(name):
-    return name
+    return [name]
-- 
2.43.0


From 1fe8da537de4f5cd0fa43840543ef9d8d6d401dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 070/173] fix: absorbers marked in a compound were marked in
 the data base and all its copies

---
 src/spectrocrunch/materials/compoundfromname.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/compoundfromname.py b/src/spectrocrunch/materials/compoundfromname.py
index 7ac729a..1d9d472 100755
--- a/src/spectrocrunch/materials/compoundfromname.py
+++ b/src/spectrocrunch/materials/compoundfromname.py
@@ -1,6 +1,6 @@
 import warnings
 import re
-from copy import copy
+from copy import deepcopy
 from . import compound
 from . import compoundfromlist
 from . import compoundfromformula
@@ -420,7 +420,7 @@ def getnames():
 
 
 def factory(name):
-    return copy(compounddb[name])
+    return deepcopy(compounddb[name])
 
 
 def search(name):
-- 
2.43.0


From c6212a2d78635636e135c3b43ba6f978341c379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 071/173] fix: elemental mole fractions of a mixture ignored
 how many atoms each compound has

---
 src/spectrocrunch/materials/mixture.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index a929c6f..de13e51 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -158,9 +158,8 @@ class Mixture(multielementbase.MultiElementBase):
 
     @property
     def Zeff(self):
-        # equivalent to using elemental_molefractions
-        nfrac = self.molefractions()
-        Z = np.asarray([c.Zeff for c in nfrac])
+        nfrac = self.elemental_molefractions()
+        Z = np.asarray([e.Z for e in nfrac])
         nfrac = np.asarray(list(nfrac.values()))
         return (Z * nfrac).sum()
 
@@ -208,16 +207,9 @@ class Mixture(multielementbase.MultiElementBase):
         return stoichiometry.density_from_molefrac(nfrac, rho, MM)
 
     def elemental_molefractions(self):
-        ret = {}
-        c_nfrac = self.molefractions()
-        for c in c_nfrac:
-            e_nfrac = c.elemental_molefractions()
-            for e in e_nfrac:
-                if e in ret:
-                    ret[e] += c_nfrac[c] * e_nfrac[e]
-                else:
-                    ret[e] = c_nfrac[c] * e_nfrac[e]
-        return ret
+        nfrac = self.elemental_equivalents()
+        ntot = sum(nfrac.values())
+        return {e: n / ntot for e, n in nfrac.items()}
 
     def elemental_equivalents(self):
         ret = {}
-- 
2.43.0


From bd15c1eb6c848258f4ff45f819aa5169bfd737c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 072/173] fix: scattering cross section of a mixture without
 scatterers was None

---
 src/spectrocrunch/materials/mixture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index de13e51..20c48fd 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -238,11 +238,11 @@ class Mixture(multielementbase.MultiElementBase):
     def _crosssection(self, method, E, fine=False, decomposed=False, **kwargs):
         """Calculate mixture cross-sections"""
         bscat = self._cs_scattering(method)
-        if bscat and not self.hasscatterers:
+        if bscat and not self.hasscatterers():
             if decomposed:
                 return {}
             else:
-                return E * 0.0
+                return np.zeros_like(E, dtype=float)
         c_wfrac = self.massfractions()
         if decomposed:
             ret = {}
@@ -334,7 +334,7 @@ class Mixture(multielementbase.MultiElementBase):
             c.unmarkscatterer()
 
     def hasscatterers(self):
-        return any([c.isscatterer() for c in self._compounds])
+        return any([c.isscatterer for c in self._compounds])
 
     def get_energy(self, energyrange, defaultinc=1):
         """Get absolute energies (keV) from a relative energy range (eV)"""
-- 
2.43.0


From 4d9858783c5a35492cfd2d65ca3d0dbd5a74585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 073/173] fix: fractions of compounds and mixtures could not be
 set (dict views)

---
 src/spectrocrunch/materials/multielementbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index 369c14e..52d6f20 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -33,7 +33,7 @@ class MultiElementBase(elementbase.ElementBase):
 
         # update others
         if w2:
-            v2 = np.asarray(w2.values())
+            v2 = np.asarray(list(w2.values()))
             v2 *= (1 - values.sum()) / v2.sum()
             w.update((k, v) for k, v in zip(w2.keys(), v2))
 
-- 
2.43.0


From 1b910688aea573a7764c2536add3f7cdb8eae6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 074/173] fix: weights of nested cross sections were added or
 dropped

---
 src/spectrocrunch/materials/multielementbase.py | 2 ++
 src/spectrocrunch/materials/utils.py            | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index 52d6f20..5411d18 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -175,6 +175,8 @@ class MultiElementBase(elementbase.ElementBase):
             return cs
         elif t == 1:
             return cs["w"] * cs["cs"]
+        elif "cs" in cs:
+            return cs["w"] * cls.cs_collapse(cs["cs"])
         else:
             return sum(cls.cs_collapse(c) for c in cs.values())
 
diff --git a/src/spectrocrunch/materials/utils.py b/src/spectrocrunch/materials/utils.py
index a364023..5fcd9ea 100644
--- a/src/spectrocrunch/materials/utils.py
+++ b/src/spectrocrunch/materials/utils.py
@@ -7,7 +7,7 @@ def elemental_crosssections(dictin, dictout=None, w=1):
         dictout = {}
     for k, v in dictin.items():
         if isinstance(v["cs"], dict):
-            elemental_crosssections(v["cs"], w=v["w"], dictout=dictout)
+            elemental_crosssections(v["cs"], w=w * v["w"], dictout=dictout)
         else:
             if k in dictout:
                 dictout[k] += w * v["w"] * v["cs"]
-- 
2.43.0


From 2e0765c992abe1f1808cfe358472deb22ce66b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 075/173] fix: oxides of elements with one oxidation state and
 sulfides could not be created

---
 src/spectrocrunch/materials/compoundfromelement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/compoundfromelement.py b/src/spectrocrunch/materials/compoundfromelement.py
index 8fa3b66..b1eb819 100755
--- a/src/spectrocrunch/materials/compoundfromelement.py
+++ b/src/spectrocrunch/materials/compoundfromelement.py
@@ -98,7 +98,7 @@ class CompoundFromElement(compoundfromformula.CompoundFromFormula):
 
         if oxidationstate is None:
             if len(cmpds) == 1:
-                cmpd = cmpds.values()[0]
+                oxidationstate, cmpd = next(iter(cmpds.items()))
             else:
                 if defaultoxidationstate == "max":
                     func = max
@@ -166,4 +166,4 @@ class Oxide(CompoundFromElement):
 class Sulfide(CompoundFromElement):
     def __init__(self, *args, **kwargs):
         kwargs["typ"] = "sulfide"
-        super(Oxide, self).__init__(*args, **kwargs)
+        super(Sulfide, self).__init__(*args, **kwargs)
-- 
2.43.0


From 837b43c428acd1e6a3b6f99e79f5c9ef2aa21bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 076/173] fix: atomic number or symbol of anything but a string

---
 src/spectrocrunch/materials/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/element.py b/src/spectrocrunch/materials/element.py
index fb04c28..039b5cf 100755
--- a/src/spectrocrunch/materials/element.py
+++ b/src/spectrocrunch/materials/element.py
@@ -53,7 +53,7 @@ def elementZ(symb):
             Z = int(symb)
         else:
             Z = xraylib.SymbolToAtomicNumber(symb)
-    elif instance.isinteger:
+    elif instance.isinteger(symb):
         Z = symb
     elif isinstance(symb, Element):
         Z = symb.Z
@@ -63,12 +63,12 @@ def elementZ(symb):
 
 
 def elementSymbol(symb):
-    if instance.string(symb):
+    if instance.isstring(symb):
         if symb.isdigit():
             name = xraylib.AtomicNumberToSymbol(int(symb))
         else:
             name = symb
-    elif instance.isinteger:
+    elif instance.isinteger(symb):
         name = xraylib.AtomicNumberToSymbol(symb)
     elif isinstance(symb, Element):
         name = symb.name
-- 
2.43.0


From 08d73a8f79dc66a39413c6d2eb62beee3636bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 077/173] fix: an exception left a stale cache behind

---
 src/spectrocrunch/utils/cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/cache.py b/src/spectrocrunch/utils/cache.py
index 6b9a100..cbdaa5c 100644
--- a/src/spectrocrunch/utils/cache.py
+++ b/src/spectrocrunch/utils/cache.py
@@ -50,11 +50,12 @@ class Cache(object):
             self._store[subject] = self._generate_cache(subject, *args, **kwargs)
 
         # Use cache
-        yield
-
-        # Keep cache?
-        if cache:
-            self._store.pop(subject, None)
+        try:
+            yield
+        finally:
+            # Keep cache?
+            if cache:
+                self._store.pop(subject, None)
 
     def getcache(self, subject):
         """Get cache belonging to a subject"""
-- 
2.43.0


From c35638d848652755d8e60ad776643313b2a281df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 078/173] fix: X-ray path length of a multilayer in the exit
 direction used the incidence angle

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index b84e2ad..c61d620 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -217,7 +217,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
 
     @property
     def xraythicknessout(self):
-        return np.vectorize(lambda layer: layer.xraythicknessin)(self)
+        return np.vectorize(lambda layer: layer.xraythicknessout)(self)
 
     def arealdensity(self):
         ret = collections.Counter()
-- 
2.43.0


From 3b057b9c520d5485eee25b701cdda68f688020ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 079/173] fix: refinement with a polychromatic beam and fixed
 layers

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index c61d620..cb80ea9 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -371,7 +371,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
     ):
         y = absorbance
         for layer in self.fixediter():
-            y = y - layer.absorbance(energy)
+            y = y - layer.absorbance(energy, weights=weights)
 
         A = [layer.mass_att_coeff(energy) for layer in self.freeiter()]
         if weights is not None:
-- 
2.43.0


From 10a495fcbcbf57e2d24247916edff860faf25f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 080/173] fix: constrained refinement of a multilayer with a
 constant

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index cb80ea9..5c24d6b 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -350,7 +350,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             A = np.vstack(A).T
 
             if constraint:
-                lb = np.zeros(len(A), dtype=float)
+                lb = np.zeros(A.shape[1], dtype=float)
                 lb[-1] = -np.inf
                 ub = np.inf
                 params = fit1d.lstsq_bound(A, y, lb, ub)
-- 
2.43.0


From 7ceddef23561be0a9e6150a4aedbe2f195a5ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 081/173] fix: copied and deserialized multilayers had no name
 and could not calculate rates

---
 src/spectrocrunch/materials/multilayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 5c24d6b..762a2e4 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -152,9 +152,11 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         super(Multilayer, self).__init__(force=True)
 
     def __getstate__(self):
-        return {"layers": self.layers, "geometry": self.geometry}
+        return {"layers": self.layers, "geometry": self.geometry, "name": self.name}
 
     def __setstate__(self, state):
+        cache.Cache.__init__(self, force=True)
+        self.name = state.get("name", "MULTILAYER")
         self.layers = state["layers"]
         for layer in self.layers:
             layer.parent = self
-- 
2.43.0


From eb3f884314e7b3f06540ac65eecad43b4e2014f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 082/173] fix: the refined density of a layer was not used for
 what it absorbs, emits or contains

---
 src/spectrocrunch/materials/multilayer.py | 29 ++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 762a2e4..89f369e 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -47,18 +47,21 @@ class Layer(Copyable):
         self.thickness = thickness
         self.fixed = fixed
         self.parent = parent
+        self._density = None
 
     def __getstate__(self):
         return {
             "material": self.material,
             "thickness": self.thickness,
             "fixed": self.fixed,
+            "density": self._density,
         }
 
     def __setstate__(self, state):
         self.material = state["material"]
         self.thickness = state["thickness"]
         self.fixed = state["fixed"]
+        self._density = state.get("density")
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -66,6 +69,7 @@ class Layer(Copyable):
                 self.material == other.material
                 and self.thickness == other.thickness
                 and self.fixed == other.fixed
+                and self._density == other._density
             )
         else:
             return False
@@ -79,6 +83,18 @@ class Layer(Copyable):
     def __str__(self):
         return "{} um ({})".format(self.thickness * 1e4, self.material)
 
+    @property
+    def density(self):
+        """Density of the material, unless the layer has its own (refined) density"""
+        if self._density is None:
+            return self.material.density
+        else:
+            return self._density
+
+    @density.setter
+    def density(self, value):
+        self._density = value
+
     @property
     def xraythicknessin(self):
         return self.thickness / self.parent.geometry.cosnormin
@@ -101,8 +117,15 @@ class Layer(Copyable):
             thickness = self.xraythicknessout
         else:
             thickness = self.xraythicknessin
+        if self._density is not None:
+            thickness = thickness * self._density / self.material.density
         return self.material.absorbance(energy, thickness, weights=weights, **kwargs)
 
+    def xrayspectrum(self, *args, **kwargs):
+        spectrum = self.material.xrayspectrum(*args, **kwargs)
+        spectrum.density = self.density
+        return spectrum
+
     def addtofisx(self, setup, cfg):
         name = cfg.addtofisx_material(self.material)
         return [name, self.density, self.thickness]
@@ -268,11 +291,11 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         elif n == 1:
             return self[0].material
         else:
-            vfrac = self.thickness
-            vfrac = vfrac / float(vfrac.sum())
+            wfrac = self.density * self.thickness
+            wfrac = wfrac / float(wfrac.sum())
             materials = [layer.material for layer in self]
             return mixture.Mixture(
-                materials, vfrac, types.fraction.volume, name=self.name
+                materials, wfrac, types.fraction.mass, name=self.name
             )
 
     def mass_att_coeff(self, energy):
-- 
2.43.0


From 20dd7f07eae02f773d36af7c6b4e170dde79ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 083/173] fix: unmarking the scatterers of a multilayer

---
 src/spectrocrunch/materials/multilayer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 89f369e..f4f7278 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -220,13 +220,13 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         )
         return "Multilayer (ordered top-bottom):\n {}".format(layers)
 
-    def markscatterer(self, name):
+    def markscatterer(self, name=None):
         for layer in self:
             layer.markscatterer(name)
 
-    def ummarkscatterer(self):
+    def unmarkscatterer(self):
         for layer in self:
-            layer.ummarkscatterer()
+            layer.unmarkscatterer()
 
     @property
     def density(self):
-- 
2.43.0


From fe7a397c0d592eb2a7f3d58ec9d7053b997e67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 084/173] fix: marking an absorber in a multilayer without
 specifying shells marked nothing

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index f4f7278..558de83 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -310,7 +310,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             [instance.asarray(layer.mass_att_coeff(energy)) for layer in self]
         )
 
-    def markabsorber(self, symb, shells=[], fluolines=[]):
+    def markabsorber(self, symb=None, shells=None, fluolines=None):
         """
         Args:
             symb(str): element symbol
-- 
2.43.0


From af729e3c1b6a2fe4130ec00b45654b168741ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:12 +0000
Subject: [PATCH 085/173] fix: NaN rates for strongly absorbed lines and
 symmetrical transmission geometries

---
 src/spectrocrunch/materials/multilayer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 558de83..e88583f 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -742,14 +742,15 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             chicor = cor1[1:-1, :, np.newaxis] - cor0[1:-1, np.newaxis, :]
 
             layerinfo = self.getcache("layerinfo")
-            J2 = np.exp(chi * layerinfo["cumul_thickness"][1:, np.newaxis, np.newaxis])
-            J2 -= np.exp(
-                chi * layerinfo["cumul_thickness"][:-1, np.newaxis, np.newaxis]
-            )
-            J2 /= chi
-            J2 *= np.exp(chicor)
             if not self.geometry.reflection:
-                J2 *= np.exp(-cor1[-1, np.newaxis, :, np.newaxis])
+                chicor = chicor - cor1[-1, np.newaxis, :, np.newaxis]
+            z = layerinfo["cumul_thickness"][:, np.newaxis, np.newaxis]
+            # (exp(chi.z1+chicor) - exp(chi.z0+chicor))/chi without overflow
+            # and with limit z1-z0 when chi->0
+            J2 = np.exp(chicor + np.maximum(chi * z[1:], chi * z[:-1]))
+            chi = np.abs(chi)
+            dz = np.broadcast_to(z[1:] - z[:-1], chi.shape)
+            J2 *= np.divide(-np.expm1(-chi * dz), chi, out=dz.copy(), where=chi != 0)
 
             # nlayers x nenergy1 x nenergy0 -> nlayers x nsource x nenergy1
             J2 = np.transpose(J2, [0, 2, 1])
-- 
2.43.0


From d522a9461e4aaa35833cec454390919a762863d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:12 +0000
Subject: [PATCH 086/173] fix: rates of a sample without detectable lines

---
 src/spectrocrunch/materials/multilayer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index e88583f..d58ea9f 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -1096,7 +1096,8 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             emax = max(
                 listtools.flatten(
                     line.energy(**self.geometry.xrayspectrumkwargs()) for line in rates
-                )
+                ),
+                default=emin,
             )
         return xrayspectrum.Spectrum(
             rates,
-- 
2.43.0


From 0d417ea783b901d718987b29abd8fe25b3394eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 087/173] fix: line values are added when lines have the same
 energy

---
 src/spectrocrunch/materials/xrayspectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 79c711a..27a1f5b 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -905,7 +905,10 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         """
         Line energy and rates (ph/phsource) or probabilities (1/cm/srad)
         """
-        return dict(Counter(self.spectrum()))
+        ret = Counter()
+        for energy, v in self.spectrum():
+            ret[energy] += v
+        return dict(ret)
 
     def linegroups(self, **kwargs):
         ret = {}
-- 
2.43.0


From 8249f72f61d423ab291c34daa3fa99be26c33d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 088/173] fix: splitting a shell dropped the other shells

---
 src/spectrocrunch/materials/xrayspectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 27a1f5b..d7e68f0 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -351,8 +351,9 @@ class Shell(CompHashable, Copyable):
         if not instance.isarray(selection):
             selection = [selection]
         for shell in selection:
-            shells = [s for s in shells if not s != shell]
-            shells += cls.expand(shell)
+            if shell in shells:
+                shells = [s for s in shells if s != shell]
+                shells += cls.expandall(shell)
         return sorted(shells)
 
     @classmethod
-- 
2.43.0


From 1048289993497e6358723753296c7b14f6291fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 089/173] fix: spectrum decomposed in groups of lines (python
 3)

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index d7e68f0..7ecce5b 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1234,7 +1234,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         for line in lineinfo.values():
             if line["label"]:
                 groups[line["group"]] = line["energy"]
-        groups = zip(*sorted(groups.items(), key=lambda x: x[1]))[0]
+        groups = sorted(groups, key=groups.get)
 
         # Add lines per group
         lineinfo2 = collections.OrderedDict(
-- 
2.43.0


From a8bd714ad52075ffc7b6cd38ec64572118f9a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 090/173] fix: adding spectra changed the operands

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 7ecce5b..897d6c8 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -806,7 +806,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
             raise ValueError("Spectra need to be of the same type")
         for k, v in other.items():
             if k in self:
-                self._lines[k] += v
+                self._lines[k] = self._lines[k] + v
             else:
                 self._lines[k] = v
         return self
-- 
2.43.0


From c04b59f26b9a4389ab5bfae93474226a21c9dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 091/173] fix: K-lines from the O and P shells belong to group
 KB

---
 src/spectrocrunch/materials/xrayspectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 897d6c8..93c44cd 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -248,9 +248,10 @@ class FluoLine(CompHashable, Copyable):
         """
         s = self.shell
         if self.code in xraylib.rcomposites:
-            name = xraylib.code_to_line[xraylib.rcomposites[self.code][0]][0]
-            if name == "KA" or name == "KB":
-                return name
+            for code in xraylib.rcomposites[self.code]:
+                for name in xraylib.code_to_line[code]:
+                    if name == "KA" or name == "KB":
+                        return name
         return str(s)
 
     @property
-- 
2.43.0


From 88d1f87f6f209c3ea00b521a3439fccf7b8be6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:17 +0000
Subject: [PATCH 092/173] fix: infinite recursion for inelastic scattering in
 the forward direction

---
 src/spectrocrunch/materials/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/interaction.py b/src/spectrocrunch/materials/interaction.py
index 859e442..75786a3 100755
--- a/src/spectrocrunch/materials/interaction.py
+++ b/src/spectrocrunch/materials/interaction.py
@@ -65,7 +65,7 @@ class InteractionInelScat(Interaction):
     @property
     def energy(self):
         if self.theta == 0:
-            return self.energy
+            return self._energy
         delta = (
             ureg.Quantity(1 - np.cos(np.radians(self.theta)), "1/(m_e*c^2)")
             .to("1/keV", "spectroscopy")
-- 
2.43.0


From 6d44b877f4cb9fe542206648845ccab0b140c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:17 +0000
Subject: [PATCH 093/173] fix: plotting spectra and calibrations with current
 matplotlib

---
 src/spectrocrunch/geometries/qxrf.py        | 6 +++---
 src/spectrocrunch/materials/xrayspectrum.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index 947a4a0..c5b8e2c 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -858,7 +858,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
             self._calibrate_fields_name("cps"), ["diodeI0", "diodeIt"], axs
         ):
             self._plot_dark_calib(attr, data[k], attr, ax, color=color)
-            color = next(ax._get_lines.prop_cycler)["color"]
+            color = ax._get_lines.get_next_color()
         plt.tight_layout()
 
     def _plot_dark_calib(self, deviceattr, response, name, ax, color=None):
@@ -900,7 +900,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
             flux = units.asqarray(data[fluxt])
             ax1.plot(flux, It, "o", label="spec")
         color1 = self._plot_diode_flux("diodeIt", energy, It, ax1)
-        color2 = next(ax1._get_lines.prop_cycler)["color"]
+        color2 = ax1._get_lines.get_next_color()
 
         xoff = 0.3
         yoff = 0.01
@@ -954,7 +954,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
 
         lines = ax1.plot(curt.to("pA"), It.to("Hz"), "o", label="spec")
         color1 = lines[0].get_color()
-        color2 = next(ax1._get_lines.prop_cycler)["color"]
+        color2 = ax1._get_lines.get_next_color()
         self._plot_oscillator("diodeIt", curt, ax1, color=color1)
 
         ax2.plot(cur0.to("pA"), I0.to("Hz"), "o", label="spec", color=color2)
diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 93c44cd..450eb8e 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1160,7 +1160,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
                 energies, np.random.poisson(np.round(functot(energies)).astype(int))
             )
             color2 = lines[0].get_color()
-            color1 = next(plt.gca()._get_lines.prop_cycler)["color"]
+            color1 = plt.gca()._get_lines.get_next_color()
             ax = plt.gca()
 
         # Signal and background
@@ -1292,7 +1292,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
             for lineinfo in lines.values():
                 g = lineinfo["group"]
                 if g not in colors:
-                    colors[g] = next(ax._get_lines.prop_cycler)["color"]
+                    colors[g] = ax._get_lines.get_next_color()
             blines = profiles is None or forcelines
             calcbkg = not (blines or backfunc is None)
             if calcbkg:
-- 
2.43.0


From 0eb112fe110c5861b011d7f6226f6742debea6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 094/173] fix: a new beam filter replaced an existing one

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 062e6b1..942d66b 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -194,7 +194,7 @@ class Material(Copyable):
         for att in self.attenuators:
             m = self.match_beamfilter(att)
             if m:
-                i = max(i, int(m.groups()[0]))
+                i = max(i, int(m.groups()[0]) + 1)
         return "BeamFilter{}".format(i)
 
     def addtofisx(self, setup, cfg):
-- 
2.43.0


From bda6eb2979a26f8e46077e137fab2e8c921d12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 095/173] fix: atmosphere between sample and detector was
 included when it should not and vice versa

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 942d66b..6269196 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -165,7 +165,7 @@ class Material(Copyable):
         return (
             not self.isbeamfilter(name)
             and name != self.DETMATERIALLABEL
-            and (name != self.ATMOSPHERELABEL or not include_atmosphere)
+            and (name != self.ATMOSPHERELABEL or include_atmosphere)
         )
 
     def beamfilters(self, include_atmosphere=False):
-- 
2.43.0


From b1d5447d44c4550ce0189e781fc12153f34ef058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 096/173] fix: absorbance of a detector without material

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 6269196..f32abb4 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -259,7 +259,7 @@ class Material(Copyable):
                 self.thickness * self.material.density
             )
         else:
-            return np.full_like(3, np.inf, dtype=float)
+            return np.full_like(energy, np.inf, dtype=float)
 
     def transmission(self, energy):
         """Transmission through detector material"""
-- 
2.43.0


From 605de0a9d2c8c46143b7f9634f7f8317d11b6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 097/173] fix: detectors shared their filters with their copies
 and arguments

---
 src/spectrocrunch/detectors/base.py |  9 ++++++---
 src/spectrocrunch/detectors/xrf.py  | 10 +++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index f32abb4..a20e0ba 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -7,6 +7,7 @@ from ..utils.copyable import Copyable
 import numpy as np
 import fisx
 import re
+from copy import copy
 
 
 class Material(Copyable):
@@ -21,10 +22,12 @@ class Material(Copyable):
         self.attenuators = attenuators
 
     def __getstate__(self):
-        return {"attenuators": self._attenuators}
+        return {
+            "attenuators": {k: copy(att) for k, att in self._attenuators.items()}
+        }
 
     def __setstate__(self, state):
-        self._attenuators = state["attenuators"]
+        self.attenuators = state["attenuators"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -85,7 +88,7 @@ class Material(Copyable):
 
     @attenuators.setter
     def attenuators(self, value):
-        self._attenuators = value
+        self._attenuators = {name: copy(att) for name, att in value.items()}
 
     def __str__(self):
         s1 = "\n ".join(
diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 5247066..7b28cfa 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -856,7 +856,7 @@ class sn3102(XRFDetector):
     aliases = ["XFlash5100"]
 
     def __init__(self, **kwargs):
-        attenuators = kwargs.get("attenuators", {})
+        attenuators = dict(kwargs.get("attenuators", {}))
         ultralene = compoundfromname.compoundfromname("ultralene")
         moxtek = compoundfromname.compoundfromname("moxtek ap3.3")
         attenuators["FoilDetector"] = {
@@ -888,7 +888,7 @@ class Leia(XRFDetector):
     aliases = ["SGX80"]
 
     def __init__(self, **kwargs):
-        attenuators = kwargs.get("attenuators", {})
+        attenuators = dict(kwargs.get("attenuators", {}))
         ultralene = compoundfromname.compoundfromname("ultralene")
         attenuators["FoilDetector"] = {
             "material": ultralene,
@@ -919,7 +919,7 @@ class BB8(XRFDetector):
     aliases = ["SGX50"]
 
     def __init__(self, **kwargs):
-        attenuators = kwargs.get("attenuators", {})
+        attenuators = dict(kwargs.get("attenuators", {}))
         ultralene = compoundfromname.compoundfromname("ultralene")
         attenuators["FoilDetector"] = {
             "material": ultralene,
@@ -950,7 +950,7 @@ class DR40(XRFDetector):
     aliases = ["VITUSH80"]
 
     def __init__(self, **kwargs):
-        attenuators = kwargs.get("attenuators", {})
+        attenuators = dict(kwargs.get("attenuators", {}))
         ultralene = compoundfromname.compoundfromname("ultralene")
         attenuators["FoilDetector"] = {
             "material": ultralene,
@@ -979,7 +979,7 @@ class DR40(XRFDetector):
 
 class ID16b_Virtual1(XRFDetector):
     def __init__(self, **kwargs):
-        attenuators = kwargs.get("attenuators", {})
+        attenuators = dict(kwargs.get("attenuators", {}))
         attenuators["WindowDetector"] = {
             "material": element.Element("Be"),
             "thickness": 50e-4,
-- 
2.43.0


From d6606237e7e013e55f7f25ebe904b61c2e73f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 098/173] fix: escape and pileup parameters of a detector were
 lost when copied

---
 src/spectrocrunch/detectors/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index a20e0ba..c2e6de4 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -324,11 +324,15 @@ class SolidState(Material):
     def __getstate__(self):
         state = super(SolidState, self).__getstate__()
         state["ehole"] = self.ehole
+        state["escape"] = self.escape
+        state["pulse_processing_time"] = self.pulse_processing_time
         return state
 
     def __setstate__(self, state):
         super(SolidState, self).__setstate__(state)
         self.ehole = state["ehole"]
+        self.escape = state.get("escape", False)
+        self.pulse_processing_time = state.get("pulse_processing_time", 0)
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
-- 
2.43.0


From c0c93d1caae56284082489fedf32613d4eb3b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 099/173] fix: noise and fano factor of detector ID16b_Virtual1
 were its gain

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 7b28cfa..72f11d9 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -998,8 +998,8 @@ class ID16b_Virtual1(XRFDetector):
         kwargs["activearea"] = units.Quantity(activearea, "cm^2")
         kwargs["mcazero"] = kwargs.get("mcazero", 0.0)  # keV
         kwargs["mcagain"] = kwargs.get("mcagain", 10e-3)  # keV
-        kwargs["mcanoise"] = kwargs.get("mcagain", 0.1)  # keV
-        kwargs["mcafano"] = kwargs.get("mcagain", 0.114)
+        kwargs["mcanoise"] = kwargs.get("mcanoise", 0.1)  # keV
+        kwargs["mcafano"] = kwargs.get("mcafano", 0.114)
         ehole = kwargs.get("ehole", constants.eholepair_si())
         kwargs["ehole"] = units.Quantity(ehole, "eV")
         super(ID16b_Virtual1, self).__init__(**kwargs)
-- 
2.43.0


From adda7dac375a8504d2a822dca6537b7d6463f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 100/173] fix: XRF geometries without distance calibration

---
 src/spectrocrunch/geometries/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 149815a..fe0e918 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -360,7 +360,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
         """Sample-detector distance in cm"""
         calc = self.distancefunc
         if calc is None:
-            return super(XRFGeometry, self).distance
+            return super(XRFGeometry, self).distance_rv
         else:
             return calc(rv=True, **self.distancekwargs)
 
@@ -371,7 +371,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
     @distance.setter
     def distance(self, distance):
         if self.distancefunc is None:
-            super(XRFGeometry, self).distance = distance
+            base.Centric.distance.fset(self, distance)
         else:
             if distance is not None:
                 distance = units.Quantity(distance, "cm")
-- 
2.43.0


From e2af4f2c288aef6f21bf4040650660d889a0e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:41 +0000
Subject: [PATCH 101/173] fix: normalized profiles of several lines at once

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 72f11d9..0aaae98 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -256,11 +256,11 @@ class XRFDetector(with_metaclass(base.CentricCone)):
     @staticmethod
     def wpeak(wstail, wltail, wstep):
         s = wstail + wltail + wstep
-        if s < -0.0001 or s > 1.0001:
+        if np.any(s < -0.0001) or np.any(s > 1.0001):
             raise RuntimeError(
                 "Sum of step and tail fractions must be between 0 and 1 ({})".format(s)
             )
-        return min(max(1 - s, 0), 1)
+        return np.clip(1 - s, 0, 1)
 
     @property
     def fractions(self):
-- 
2.43.0


From 11a8bb22da4d69c17081db71d91a9af060cc9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 102/173] fix: unpickled quantities were not recognized as
 quantities

---
 src/spectrocrunch/patch/pint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spectrocrunch/patch/pint.py b/src/spectrocrunch/patch/pint.py
index ff835df..54b766a 100755
--- a/src/spectrocrunch/patch/pint.py
+++ b/src/spectrocrunch/patch/pint.py
@@ -1,8 +1,12 @@
 from __future__ import absolute_import
 from pint import UnitRegistry
+from pint import set_application_registry
 
 ureg = UnitRegistry()
 
+# Unpickled quantities belong to this registry
+set_application_registry(ureg)
+
 ureg.define("classical_electron_radius = e^2/(4*pi*m_e*epsilon_0*c^2) = r_e")
 ureg.define("percent = 1e-2*count = %")
 ureg.define("permille = 1e-3*count = \u2030")
-- 
2.43.0


From e1fb21586545f1e37847c425d2be113acfca8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 103/173] fix: direct detection of several source lines
 multiplied the diode response by their number

---
 src/spectrocrunch/detectors/diode.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index b5d24bd..586d6db 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -664,7 +664,6 @@ class PNdiode(with_metaclass(base.SolidState)):
                 * self.filter_transmission(energy, source=True)
                 * self.filter_transmission(energy, source=False)
             )
-            wY = wY.sum(axis=-1, keepdims=True)
         else:
             # Target spectrum energies and rates (ph/phsource)
             secondarytarget_ratedict = None
-- 
2.43.0


From 9da55d7a2aa9f5d6e918fd4b09e96981238ed09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 104/173] fix: simple diode calibration with several source
 lines

---
 src/spectrocrunch/detectors/diode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 586d6db..7a37ff1 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -789,7 +789,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             # Cs = SUM_i [SUM_j[wi.Yij.Cj]] / SUM_k [wk.Tks]
             #    = SUM_i [wi . Csi]
             self._lut_chargepersamplephoton.replace(
-                units.Quantity(energy, "keV"), Cscalib / weights
+                units.Quantity(energy, "keV"), np.full(energy.shape, 1.0) * Cscalib
             )
             Cscalc = self._chargepersamplephoton(energy, weights=weights)
         else:
@@ -1740,7 +1740,7 @@ class CalibratedPNdiode(PNdiode):
             r = self.finterpol(energy)
             ind = np.isnan(r)
             try:
-                if any(ind):
+                if np.any(ind):
                     r[ind] = super(CalibratedPNdiode, self).spectral_responsivity(
                         energy[ind]
                     )
-- 
2.43.0


From 56ac12b681ea62117c9d23335eafaae72fc7582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 105/173] fix: diode counts to current and voltage raised an
 exception

---
 src/spectrocrunch/detectors/diode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 7a37ff1..8698321 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1045,7 +1045,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             callable: slope (C/cts), intercept(C/s)
         """
-        return self.op_cpstocurrent * self.op_countstocps(time)
+        return self.op_cpstocurrent() * self.op_countstocps(time)
 
     def op_voltagetocps(self):
         """Operator to convert voltage to counts-per-second
@@ -1316,7 +1316,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             num or array: voltage (V)
         """
-        op = self.op_cpstovoltage(time)
+        op = self.op_countstovoltage(time)
         return op(units.Quantity(counts, "dimensionless")).to("volt")
 
     def voltagetoflux(self, energy, voltage, weights=None):
@@ -1466,7 +1466,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             tmp = response_after.to("dimensionless")
             if time is None:
                 raise RuntimeError("Need exposure time to convert counts to flux.")
-            V_meas = self.countstovoltage(time, tmp, weights=weights)
+            V_meas = self.countstovoltage(time, tmp)
 
         # Voltage from the signal before the gain is applied
         response_before = units.Quantity(response_before, "Hz")
-- 
2.43.0


From b469ce6768d689d5549d711e6f55d3a552d23fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 106/173] fix: diode gain from a single or zero response

---
 src/spectrocrunch/detectors/diode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 8698321..a6c2e55 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1489,8 +1489,9 @@ class PNdiode(with_metaclass(base.SolidState)):
             # V_calc: proportional to the assumed gain
             r = units.magnitude(V_meas / V_calc, "dimensionless")
 
+        r = instance.asarray(r)
         r = np.median(r[np.isfinite(r)])
-        if np.isfinite(r and r > 0):
+        if np.isfinite(r) and r > 0:
             return self.gainrounder(self.gain * r)
         else:
             return None
-- 
2.43.0


From 84939866e1de0bdd4f2f84a9aaa9650b576230cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 107/173] fix: an empty lookup table had one entry

---
 src/spectrocrunch/utils/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index 4cccb0d..0a664c3 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -113,7 +113,7 @@ class LUT(Copyable):
         try:
             return len(self.x)
         except TypeError:
-            return 1
+            return 0
 
     def __call__(self, x):
         x, func = units.asqarrayf(x)
-- 
2.43.0


From 6a9e083d850699ab791ffac1185f9be3aae6bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 108/173] fix: clearing a lookup table without default raised
 an exception

---
 src/spectrocrunch/utils/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index 0a664c3..e4c1bf2 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -65,7 +65,7 @@ class LUT(Copyable):
         else:
             return "Lookup table: {}".format(self(None))
 
-    def clear(self, default=None):
+    def clear(self, default=np.nan):
         self.x = None
         self.y = None
         self._func = None
-- 
2.43.0


From c03513f30d4b0cdc24328c5f016043ac749a9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 109/173] fix: comparing lookup tables of different size raised
 an exception

---
 src/spectrocrunch/utils/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index e4c1bf2..b0a7618 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -40,6 +40,8 @@ class LUT(Copyable):
                 return False
             if (self.y is None) ^ (other.y is None):
                 return False
+            if len(self) != len(other):
+                return False
             if self.x is not None:
                 if not all(self.x == other.x):
                     return False
-- 
2.43.0


From 7459ee9ae940b17a2e95165aac94fc0d158ef77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 110/173] fix: diode response to secondary target lines with
 the same energy

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index a6c2e55..e9d1fb8 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -673,7 +673,7 @@ class PNdiode(with_metaclass(base.SolidState)):
                 spectra = self.secondarytarget.xrayspectrum(
                     energy, weights=weights, withdetectorresponse=False, method="mc"
                 )
-                spectra = [dict(spectrum.spectrum()) for spectrum in spectra]
+                spectra = [spectrum.spectrum_dict for spectrum in spectra]
             else:
                 # Soure weights before the sample:
                 weights = weights * self.filter_transmission(energy, source=True)
-- 
2.43.0


From 47076582acb2c14c0b408f62df2a85a3646de18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 111/173] fix: diode calibration did not always converge

---
 src/spectrocrunch/detectors/diode.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index e9d1fb8..69f4a1e 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -827,7 +827,7 @@ class PNdiode(with_metaclass(base.SolidState)):
                 energy2, wiYij = self._detection_rates(
                     energy, weights
                 )  # nSource x nSecondary, nSource x nSecondary
-                # Solve: func(x) = (Cscalib-Cs(x))^2 = 0
+                # Solve: func(x) = 0 when Cscalib = Cs(x)
                 Cs, xorg, x0 = self._calibrate_init(
                     energy, caliboption=caliboption, bound=bound
                 )
@@ -835,10 +835,12 @@ class PNdiode(with_metaclass(base.SolidState)):
                 Cscalibm = Cscalib.to("e").magnitude
 
                 def func(x):
-                    return (
-                        Cscalibm
-                        - Cs(x, energy, weights, energy2, wiYij).to("e").magnitude
-                    ) ** 2
+                    Csm = Cs(x, energy, weights, energy2, wiYij).to("e").magnitude
+                    if caliboption == "optics":
+                        # Cs is inversely proportional to the transmission
+                        return Cscalibm / Csm - 1
+                    else:
+                        return 1 - Csm / Cscalibm
 
                 if bound:
                     x, info = scipy.optimize.bisect(
-- 
2.43.0


From 82cd64bd1dfdcc5e3daee31fbb416a3ba58cf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 112/173] fix: serialized diodes were fitted again to the
 calibrated response

---
 src/spectrocrunch/detectors/diode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 69f4a1e..ee9bf17 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1689,12 +1689,12 @@ class CalibratedPNdiode(PNdiode):
         self.menergy = energy
         self.mresponse = response
         self.fitresponse = fitresponse
-        self._init_response()
+        self._init_response(fit=fitresponse)
 
-    def _init_response(self):
+    def _init_response(self, fit=False):
         energy = self.menergy
         response = self.mresponse.to("A/W")  # or e/eV
-        if self.fitresponse:
+        if fit:
             self.fit_spectral_responsivity(energy, response)
         self.finterpol = scipy.interpolate.interp1d(
             energy, response, bounds_error=False, fill_value=np.nan
-- 
2.43.0


From 2dd5eac3074d0915a9fe67eaa9d0c1060b55ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 113/173] fix: position sign of shipped geometries could not be
 specified

---
 src/spectrocrunch/geometries/xrf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index fe0e918..55614fb 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -510,7 +510,7 @@ class sxm120(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(kwargs.get("zerodistance", 57.0), "mm")
         kwargs["detectorposition"] = kwargs.get("detectorposition", 0)
         super(sxm120, self).__init__(**kwargs)
@@ -525,7 +525,7 @@ class sxm90(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(
             kwargs.get("zerodistance", 85.571), "mm"
         )
@@ -542,7 +542,7 @@ class microdiff(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", -1)
+        kwargs["positionsign"] = kwargs.get("positionsign", -1)
         kwargs["zerodistance"] = units.Quantity(
             kwargs.get("zerodistance", -56.667), "mm"
         )
@@ -558,7 +558,7 @@ class ID16b_Virtual1(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(kwargs.get("zerodistance", 0.0), "mm")
         kwargs["detectorposition"] = units.Quantity(
             kwargs.get("detectorposition", 20.0), "mm"
-- 
2.43.0


From 3de5b4aae857cf7f2419e47bebfcca64d640cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 114/173] fix: saving calibration data of a geometry raised an
 exception

---
 src/spectrocrunch/geometries/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 55614fb..993ec62 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -498,7 +498,7 @@ class LinearXRFGeometry(XRFGeometry):
 
     def set_calibrc(self, calibrc):
         calibrc["positionunits"] = calibrc.get("positionunits", self.positionunits)
-        super(LinearXRFGeometry, self).set_calibrc(calibrc)
+        self._set_calibrc(calibrc)
 
 
 class sxm120(LinearXRFGeometry):
-- 
2.43.0


From ef7e48c14841d209ccd72d451cad72e48c52cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 115/173] fix: XRF quantification info raised an exception

---
 src/spectrocrunch/geometries/qxrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index c5b8e2c..f2e146f 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -451,7 +451,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
             quant["activearea"] = geom.detector.activearea
             quant["anglein"] = geom.anglein
             quant["angleout"] = geom.angleout
-            quant["distance"] = self.getxrfdistance()
+            quant["distance"] = geom.distance
             quants.append(quant)
 
         return xrfnormop, quants
-- 
2.43.0


From 2470bb01387e135ba94fed66fe7418fb72e6e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 116/173] fix: removing an unused device during diode
 calibration raised an exception

---
 src/spectrocrunch/geometries/qxrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index f2e146f..1f654e5 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -703,7 +703,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
             if deviceinstance is not None:
                 # Device was expected to be used
                 if resetdevice:
-                    setattr(self, attr, clsnameused)
+                    setattr(self, attr, None)
                 else:
                     raise RuntimeError(
                         "Data was not collected with device {}.".format(
-- 
2.43.0


From 6b11acac12eac5802d07fe0bfa356358a07ca7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 117/173] fix: diode calibration with an energy per data point

---
 src/spectrocrunch/geometries/qxrf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index 1f654e5..fa9d634 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -787,7 +787,8 @@ class QXRFGeometry(with_metaclass(Copyable)):
 
         # Check units of energy
         if "energy" in data:
-            data["energy"] = data["energy"].to("keV")
+            energy = np.median(data["energy"].to("keV").magnitude)
+            data["energy"] = units.Quantity(energy, "keV")
 
         # Diode response: ensure units
         for k in self._calibrate_fields_id():
-- 
2.43.0


From 79860f8432d7be3691285c31806bebbba3e64434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 118/173] fix: diode currents of ID21 are not frequencies

---
 src/spectrocrunch/instruments/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/instruments/configuration.py b/src/spectrocrunch/instruments/configuration.py
index a33e72c..d475187 100755
--- a/src/spectrocrunch/instruments/configuration.py
+++ b/src/spectrocrunch/instruments/configuration.py
@@ -261,8 +261,8 @@ class ESRF_ID21_SXM(InstrumentInfo):
         info["units"]["It_counts"] = info["units"].get("It_counts", ureg.dimensionless)
         info["units"]["I0_cps"] = info["units"].get("I0_cps", ureg.Unit("Hz"))
         info["units"]["It_cps"] = info["units"].get("It_cps", ureg.Unit("Hz"))
-        info["units"]["I0_current"] = info["units"].get("I0_current", ureg.Unit("Hz"))
-        info["units"]["It_current"] = info["units"].get("It_current", ureg.Unit("Hz"))
+        info["units"]["I0_current"] = info["units"].get("I0_current", ureg.Unit("A"))
+        info["units"]["It_current"] = info["units"].get("It_current", ureg.Unit("A"))
         info["units"]["I0_photons"] = info["units"].get(
             "I0_photons", ureg.dimensionless
         )
-- 
2.43.0


From 41c18d32c9e28d10bad82efdbc5632b5971a8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 119/173] fix: serialization of geometries changed the detector
 position by rounding

---
 src/spectrocrunch/geometries/xrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 993ec62..8f08c28 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -318,10 +318,11 @@ class XRFGeometry(with_metaclass(base.Centric)):
         return state
 
     def __setstate__(self, state):
-        self.distancefunc = state["distancefunc"]
-        self.distancekwargs = state["distancekwargs"]
+        self.distancefunc = None
         self._calibrcfile = state["_calibrcfile"]
         super(XRFGeometry, self).__setstate__(state)
+        self.distancefunc = state["distancefunc"]
+        self.distancekwargs = state["distancekwargs"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -450,7 +451,6 @@ class LinearXRFGeometry(XRFGeometry):
     def __setstate__(self, state):
         super(LinearXRFGeometry, self).__setstate__(state)
         self.positionunits = state["positionunits"]
-        self.detectorposition = state["detectorposition"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
-- 
2.43.0


From 03c78e2261d542fc732d21145f4782292e5eb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:34 +0000
Subject: [PATCH 120/173] fix: XRF fit of configurations without strategy flag

---
 src/spectrocrunch/xrf/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/xrf/fit.py b/src/spectrocrunch/xrf/fit.py
index 60980fc..44f87aa 100755
--- a/src/spectrocrunch/xrf/fit.py
+++ b/src/spectrocrunch/xrf/fit.py
@@ -251,7 +251,7 @@ def AdaptPyMcaConfig_modinfo(cfg, quant, fast):
         "Poisson" if cfg["fit"]["fitweight"] else "OFF"
     )
     info += "\n Matrix adjustment = {}".format(
-        "ON" if cfg["fit"]["strategyflag"] else "OFF"
+        "ON" if cfg["fit"].get("strategyflag", 0) else "OFF"
     )
 
     logger.info("XRF fit configuration adapted:\n {}".format(info))
-- 
2.43.0


From 1a3b3dcd723b2738e2637d66e653a1ef450d2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:48 +0000
Subject: [PATCH 121/173] fix: XRF fit of configurations without source energy

---
 src/spectrocrunch/xrf/fit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/xrf/fit.py b/src/spectrocrunch/xrf/fit.py
index 44f87aa..48f1e28 100755
--- a/src/spectrocrunch/xrf/fit.py
+++ b/src/spectrocrunch/xrf/fit.py
@@ -58,10 +58,8 @@ def AdaptPyMcaConfig_energy(cfg, energy, addhigh):
     nenergies = ind.sum() + bool(addhigh)
 
     def extract(name, default=np.nan):
-        arr = cfg["fit"][name]
-        if instance.isarray(arr):
-            arr = [instance.asnumber(v) for v in arr]
-        arr = instance.asarray(arr)
+        arr = instance.asarray(cfg["fit"][name])
+        arr = np.array([instance.asnumber(v) for v in arr])
 
         # Select based on energyflag
         narr = len(arr)
-- 
2.43.0


From 523fe7907789a56e9bf611e7c1e0448ee2081e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 122/173] fix: XRF maps of several detectors and lines were
 only partially fitted

---
 src/spectrocrunch/io/xiaedf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 02b65bb..5b97805 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -481,7 +481,8 @@ def xiagroupdetectors(files):
     for detector, v0 in itertools.groupby(keys, operator.itemgetter(0)):
         xiagroupinit(ret, detector)
         for baselabel, v1 in itertools.groupby(v0, operator.itemgetter(1)):
-            ret[detector][baselabel] = [v[-1] for v in v1]
+            # The same detector has a group for each scan line
+            ret[detector].setdefault(baselabel, []).extend(v[-1] for v in v1)
     return ret
 
 
-- 
2.43.0


From d28f6c6c215ef79dfe1458abbc35a5c50378f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 123/173] fix: XRF maps of detectors in several groups were
 only added to the last group

---
 src/spectrocrunch/process/nxpymca.py | 49 +++++++++++++++-------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/spectrocrunch/process/nxpymca.py b/src/spectrocrunch/process/nxpymca.py
index c0e6fa7..2f00aab 100755
--- a/src/spectrocrunch/process/nxpymca.py
+++ b/src/spectrocrunch/process/nxpymca.py
@@ -245,13 +245,15 @@ class Task(nxqxrf_dependent.Task, nxprocess.Task):
             # Add single detectors to their corresponding subgroup
             for dest, singledets in self._detector_groups.items():
                 for det in singledets:
-                    self._detectors_sumto[nxresult.Group(det)] = dest
+                    dests = self._detectors_sumto.setdefault(nxresult.Group(det), [])
+                    dests.append(dest)
         if adddetectorgroups and adddetectors:
             # Add subgroups to the sumgroup
-            num = max(det.number for det in self._detectors_sumto)
+            dets = list(self._detectors_sumto) + list(self._detector_groups)
+            num = max(det.number for det in dets)
             dest = nxresult.Group("S{:d}".format(num + 1))
             for det in self._detector_groups:
-                self._detectors_sumto[nxresult.Group(det)] = dest
+                self._detectors_sumto[nxresult.Group(det)] = [dest]
 
     def _prepare_dtcor(self):
         dtcor = self.parameters["dtcor"]
@@ -730,29 +732,30 @@ class Task(nxqxrf_dependent.Task, nxprocess.Task):
         fixedgroups = {}
 
         # Add detector to sum and remove it:
-        for k1, sumdest in self._detectors_sumto.items():
+        for k1, sumdests in self._detectors_sumto.items():
             if k1 not in self.stacks:
                 continue
 
-            if sumdest not in self.stacks:
-                self.stacks[sumdest] = {}
-            if sumdest not in fixedgroups:
-                fixedgroups[sumdest] = list(self.stacks[sumdest].keys())
-
-            logger.debug("Remove {} and add to {}".format(k1, sumdest))
-
-            for k2 in self.stacks[k1]:
-                if k2 in fixedgroups[sumdest]:
-                    logger.debug("Do not add {}['{}'] to {}".format(k1, k2, sumdest))
-                    continue
-                if k2 not in self.stacks[sumdest]:
-                    func = self._group_add_detectors(k2)
-                    self.stacks[sumdest][k2] = [
-                        nxlazy.LazyStackSlice(func=func, unpackargs=False)
-                        for _ in range(self.nstack)
-                    ]
-                for imageindex, arg in enumerate(self.stacks[k1][k2]):
-                    self.stacks[sumdest][k2][imageindex].appendarg(arg)
+            for sumdest in sumdests:
+                if sumdest not in self.stacks:
+                    self.stacks[sumdest] = {}
+                if sumdest not in fixedgroups:
+                    fixedgroups[sumdest] = list(self.stacks[sumdest].keys())
+
+                logger.debug("Remove {} and add to {}".format(k1, sumdest))
+
+                for k2 in self.stacks[k1]:
+                    if k2 in fixedgroups[sumdest]:
+                        logger.debug("Do not add {}['{}'] to {}".format(k1, k2, sumdest))
+                        continue
+                    if k2 not in self.stacks[sumdest]:
+                        func = self._group_add_detectors(k2)
+                        self.stacks[sumdest][k2] = [
+                            nxlazy.LazyStackSlice(func=func, unpackargs=False)
+                            for _ in range(self.nstack)
+                        ]
+                    for imageindex, arg in enumerate(self.stacks[k1][k2]):
+                        self.stacks[sumdest][k2][imageindex].appendarg(arg)
 
             self.stacks.pop(k1)
 
-- 
2.43.0


From 25fa93789890b939f55cc035254238f46824f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 124/173] fix: XRF maps of detectors in several groups were
 fitted more than once

---
 src/spectrocrunch/process/nxpymca.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxpymca.py b/src/spectrocrunch/process/nxpymca.py
index 2f00aab..4480d83 100755
--- a/src/spectrocrunch/process/nxpymca.py
+++ b/src/spectrocrunch/process/nxpymca.py
@@ -182,7 +182,9 @@ class Task(nxqxrf_dependent.Task, nxprocess.Task):
         # When adding detector spectra, this means we will fit two
         # detector groups S1 and S2, with potentially two config files
         include_detectors = self.parameters["include_detectors"]
-        used_detectors = list(listtools.flatten(include_detectors))
+        used_detectors = list(
+            OrderedDict.fromkeys(listtools.flatten(include_detectors))
+        )
 
         # Detector include/exclude
         self.xiastackraw.exclude_detectors = self.parameters["exclude_detectors"]
-- 
2.43.0


From 410d0af64af42eebd7c157a57b8f4ca7050df784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:11 +0000
Subject: [PATCH 125/173] fix: XIA lines did not know about spectra of
 detectors saved afterwards

---
 src/spectrocrunch/io/xiaedf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 5b97805..d8037f4 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2113,7 +2113,12 @@ class xialine(xiadata):
         for i, xialabel in enumerate(xialabels):
             header["xdet"] = i
             img = fabio.edfimage.EdfImage(data=data[..., i], header=header)
-            self._write(img, self._fileformat.format(xialabels[i]), makedir=i == 0)
+            filename = self._fileformat.format(xialabels[i])
+            self._write(img, filename, makedir=i == 0)
+            if self._datafiles and filename not in self._datafiles:
+                # Not empty means that it will not be searched again
+                self._datafiles.append(filename)
+                self._datafiles.sort(key=xiasortkey)
 
     def _save_stats(self, stats, xialabels=None):
         """
-- 
2.43.0


From a2da5765737107b9c2c6bb7ba08a0a9df6f268c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 126/173] fix: crop region with open or negative limits raised
 an exception

---
 src/spectrocrunch/process/nxcrop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index 7290fa7..baa8894 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -3,6 +3,7 @@ import logging
 
 from . import nxregulargrid
 from . import basetask
+from ..utils.roi import cliproi
 
 logger = logging.getLogger(__name__)
 
@@ -111,4 +112,4 @@ class Task(nxregulargrid.Task):
         roi = list(self.parameters["roi"])
         stackdim = self.parameters["stackdim"]
         roi.insert(stackdim, (0, refgrid.shape[stackdim]))
-        return roi
+        return cliproi(refgrid.shape, roi)
-- 
2.43.0


From 1524c6b3e03a19ea03ed9e3ab1f3215ccd832175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 127/173] fix: default dark current of rebinned full-field
 images

---
 src/spectrocrunch/fullfield/import_id21.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/fullfield/import_id21.py b/src/spectrocrunch/fullfield/import_id21.py
index d044b28..d35797f 100755
--- a/src/spectrocrunch/fullfield/import_id21.py
+++ b/src/spectrocrunch/fullfield/import_id21.py
@@ -62,11 +62,15 @@ def darklibrary(parameters):
     nflabel = parameters["nbframeslabel"]
 
     # Library
+    npixels = parameters["rebin"][0] * parameters["rebin"][1]
     dark = defaultdict()
     dark.setdefaultfactory(
         lambda frametime: {
-            "data": parameters["darkcurrentzero"]
-            + parameters["darkcurrentgain"] * float(frametime),
+            "data": (
+                parameters["darkcurrentzero"]
+                + parameters["darkcurrentgain"] * float(frametime)
+            )
+            * npixels,
             "nframes": 1,
         }
     )
-- 
2.43.0


From 99aa9150fee2b398697a9e44ee0e42bbaf14b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 128/173] fix: full-field normalization with one flat-field
 image raised an exception

---
 src/spectrocrunch/process/nxfullfield.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spectrocrunch/process/nxfullfield.py b/src/spectrocrunch/process/nxfullfield.py
index 7801c5e..806602b 100755
--- a/src/spectrocrunch/process/nxfullfield.py
+++ b/src/spectrocrunch/process/nxfullfield.py
@@ -83,9 +83,13 @@ class Task(nxprocess.Task):
                         flat1[key], darklib, parameters
                     )
                     if flat2 is not None:
-                        imgflat2 = import_id21.getnormalizedimage(
-                            flat2[key], darklib, parameters
-                        )
+                        if flat2[key]:
+                            imgflat2 = import_id21.getnormalizedimage(
+                                flat2[key], darklib, parameters
+                            )
+                        else:
+                            # Only one flat-field image
+                            imgflat2 = imgflat1
 
                 # Normalize
                 if parameters["normalize"]:
@@ -123,10 +127,7 @@ class Task(nxprocess.Task):
                 if signalflat1 is not None:
                     dsetflat1[index] = imgflat1
                     if signalflat2 is not None:
-                        if len(flat2[key]) == 0:
-                            dsetflat2[index] = dsetflat1[dsetslice]
-                        else:
-                            dsetflat2[index] = imgflat2
+                        dsetflat2[index] = imgflat2
 
             # Save additional processing info
             info = self.temp_nxresults.nxcollection("info")
-- 
2.43.0


From eae7b847a8973588c78346254b3f24273a31e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 129/173] fix: full-field stack values were assigned to files
 in arbitrary order

---
 src/spectrocrunch/fullfield/import_id21.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/fullfield/import_id21.py b/src/spectrocrunch/fullfield/import_id21.py
index d35797f..5528283 100755
--- a/src/spectrocrunch/fullfield/import_id21.py
+++ b/src/spectrocrunch/fullfield/import_id21.py
@@ -53,7 +53,7 @@ def darklibrary(parameters):
 
     darkfiles = []
     for f in parameters["darklist"]:
-        darkfiles += glob.glob(f)
+        darkfiles += sorted(glob.glob(f))
 
     # Labels
     frametimelabel = parameters["frametimelabel"]
@@ -205,11 +205,11 @@ def dataflatlibrary(parameters):
 
     datafiles = []
     for f in parameters["datalist"]:
-        datafiles += glob.glob(f)
+        datafiles += sorted(glob.glob(f))
 
     flatfiles = []
     for f in parameters["flatlist"]:
-        flatfiles += glob.glob(f)
+        flatfiles += sorted(glob.glob(f))
 
     # Labels
     stacklabel = parameters["stacklabel"]
-- 
2.43.0


From 9509e4b8dc44222ccab0894cd5d29574922f640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 130/173] fix: Mueller matrix of a non-symmetric Jones matrix
 was wrong

---
 src/spectrocrunch/sources/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index a93c914..65d1881 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -739,7 +739,7 @@ class Stokes(object):
         """
 
         return (
-            cls.pauli44.dot(np.kron(M, M.T.conjugate())).dot(cls.pauli44.T.conjugate())
+            cls.pauli44.dot(np.kron(M, np.conjugate(M))).dot(cls.pauli44.T.conjugate())
             / 2.0
         )
 
-- 
2.43.0


From 1cfc32f99116bbcd04e8ee01cab22a46dd6941e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 131/173] fix: intensity of Stokes vectors with integer
 components could not be set

---
 src/spectrocrunch/sources/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index 65d1881..c0a96a1 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -559,7 +559,7 @@ class Stokes(object):
 
     @S.setter
     def S(self, value):
-        self._S = np.array(value)
+        self._S = np.array(value, dtype=float)
 
     def __getitem__(self, index):
         return self.S[index]
-- 
2.43.0


From 53e500dd49231330834f21df1aa4b114c6b35eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 132/173] fix: parameters of a linearly polarized wave could be
 refused due to rounding

---
 src/spectrocrunch/sources/polarization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index c0a96a1..5e7c92e 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -697,6 +697,8 @@ class Stokes(object):
     def from_params(
         cls, intensity=None, dop=None, dolp=None, polangle=None, handedness=None
     ):
+        if dolp > dop and np.isclose(dolp, dop, rtol=0, atol=1e-12):
+            dolp = dop  # numerical precision
         if dolp > dop:
             raise RuntimeError(
                 "Degree of linear polarization must be smaller or equal to the degree of polarization."
-- 
2.43.0


From 7e6b5d3c8bccceb63bea7d027c694845c3905b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 133/173] fix: an empty lookup table could not be added to
 another one

---
 src/spectrocrunch/utils/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index b0a7618..f83cf08 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -134,6 +134,8 @@ class LUT(Copyable):
         if nargs == 1:
             xy = args[0]
             if isinstance(xy, self.__class__):
+                if xy.isempty():
+                    return
                 x, y = xy.x, xy.y
             elif isinstance(xy, (list, tuple)):
                 x, y = xy
-- 
2.43.0


From e54b6ee99522a389fea0e35c634999348954103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 134/173] fix: lookup tables were plotted as empty and the
 other way around

---
 src/spectrocrunch/utils/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index f83cf08..5ac4654 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -187,7 +187,7 @@ class LUT(Copyable):
         return self
 
     def plot(self, **kwargs):
-        if self.isempty():
+        if not self.isempty():
             x = self.x.magnitude
             y = self.y.magnitude
             plt.plot(x, y, **kwargs)
-- 
2.43.0


From a0c3b78f773d82427ecaf08bb6d08201319c8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 135/173] fix: adding lines to a dark spectrum gave None
 instead of the dark spectrum

---
 src/spectrocrunch/sources/emspectrum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/sources/emspectrum.py b/src/spectrocrunch/sources/emspectrum.py
index 0ce29fa..b57ed6b 100755
--- a/src/spectrocrunch/sources/emspectrum.py
+++ b/src/spectrocrunch/sources/emspectrum.py
@@ -1,8 +1,9 @@
+from copy import copy
+import logging
+
 from ..utils import units
 from ..utils import lut
 
-import logging
-
 logger = logging.getLogger(__name__)
 
 
@@ -68,6 +69,8 @@ class Dark(Discrete):
 
     def __add__(self, xy):
         logger.warning("No lines can be added to a Dark spectrum")
+        return copy(self)
 
     def __iadd__(self, xy):
         logger.warning("No lines can be added to a Dark spectrum")
+        return self
-- 
2.43.0


From e39be83174d0523aff60985fa2bc086eae7ef6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 136/173] fix: scan commands with numbers like 1e-05 or 5. were
 unknown or got another value

---
 src/spectrocrunch/io/spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index f6d6a6d..8c072bd 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -157,7 +157,7 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
 
 class cmd_parser(object):
     def __init__(self):
-        self.fnumber = r"(?:[+-]?[0-9]*\.?[0-9]+)"
+        self.fnumber = r"(?:[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)"
         self.inumber = r"\d+"
         self.blanks = r"\s+"
         self.motor = r"[a-zA-Z]+"
-- 
2.43.0


From 69b57d1219797db7ea59944eed0e60c23e0cde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 137/173] fix: pixel size of zap lines was not the distance
 between the pixel centers

---
 src/spectrocrunch/io/spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 8c072bd..663bdb6 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -29,7 +29,7 @@ def zapline_range(start, end, npixels):
 
 def zapline_pixelsize(start, end, npixels):
     """Pixel size"""
-    return (end - start) / float(npixels - 1)
+    return (end - start) / float(npixels)
 
 
 def zapline_scansize(start, end, npixels):
-- 
2.43.0


From 6c7a05b32fe194e54658f08ee9f4c91a9ed85695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 138/173] fix: size and pixel size of images in spec files were
 those of the fast motor in both directions

---
 src/spectrocrunch/io/spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 663bdb6..306d138 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -948,11 +948,11 @@ class spec(SpecFileDataSource.SpecFileDataSource):
                 # uslow = units.get(result["motslow"], None)
 
                 add["scansize_units"] = "{} x {}".format(
-                    ffast(zapline_scansize), ffast(ascan_scansize)
+                    ffast(zapline_scansize), fslow(ascan_scansize)
                 )
 
                 add["pixelsize"] = "{} x {}".format(
-                    ffast(zapline_pixelsize), ffast(ascan_pixelsize)
+                    ffast(zapline_pixelsize), fslow(ascan_pixelsize)
                 )
 
                 add["puzzle"] = result["name"] == "puzzle"
-- 
2.43.0


From 48f799b086a46465512e2be44a555636fd8c9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 139/173] fix: dimensions of ascan and mesh in spec files
 raised KeyError

---
 src/spectrocrunch/io/spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 306d138..2b4423e 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -878,14 +878,14 @@ class spec(SpecFileDataSource.SpecFileDataSource):
             if result["motfast"] in motors:
                 ret[result["motfast"]] = np.array(
                     ascan_range(
-                        result["startfast"], result["endsfast"], result["nstepsfast"]
+                        result["startfast"], result["endfast"], result["nstepsfast"]
                     )
                 )
         elif result["name"] == "mesh":
             if result["motfast"] in motors:
                 ret[result["motfast"]] = np.array(
                     ascan_range(
-                        result["startfast"], result["endfast"], result["npixelsfast"]
+                        result["startfast"], result["endfast"], result["nstepsfast"]
                     )
                 )
             if result["motslow"] in motors:
-- 
2.43.0


From 0ee021184dfeec521e629c33f3ed29c8824d47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 140/173] fix: XIA radix with capital X in spec files was
 modified

---
 src/spectrocrunch/io/spec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 2b4423e..79b4409 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -774,7 +774,9 @@ class spec(SpecFileDataSource.SpecFileDataSource):
             if s.startswith("#@XIAFILE "):
                 filename = s[10:]
                 loc["DIRECTORY"] = os.path.dirname(filename)
-                filename = os.path.basename(filename).replace("X", "0")
+                # Placeholders (X) are only found behind the radix
+                radix, sep, label = os.path.basename(filename).rpartition("_xia")
+                filename = radix + sep + label.replace("X", "0")
                 o = XiaNameParser().parse(filename)
                 loc["RADIX"] = o.radix
                 loc["ZAP SCAN NUMBER"] = o.mapnum
-- 
2.43.0


From fadc664254e8fff5cd4bcc27099b589fd379bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:19 +0000
Subject: [PATCH 141/173] fix: exposure times with decimals of zapimage and
 puzzle scans were truncated or not recognized

---
 src/spectrocrunch/io/spec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 79b4409..727a987 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -213,7 +213,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
             + self.blanks
             + "(?P<motslow>"
@@ -271,7 +271,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
         )
 
@@ -336,7 +336,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
         ]
 
-- 
2.43.0


From e0b4027837e0a68917ff47f832206cd5240dc680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 142/173] fix: inherited keys of parameter nodes can be asked
 for

---
 src/spectrocrunch/pipelines/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index f78d4c9..4fd9258 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -21,7 +21,7 @@ class AnnotatedKey(object):
 
     @property
     def inherited(self):
-        return not self.local
+        return not self.localcontext
 
     def __repr__(self):
         if self.localcontext:
@@ -83,7 +83,7 @@ class BaseNode(collections.abc.MutableMapping):
 
     def fromdict(self, dic, override=True, recursive=False):
         if not override:
-            dic = {k: v for k, v in dic.items() if not self.inherited(k)}
+            dic = {k: v for k, v in dic.items() if not self.isinheritedkey(k)}
 
         if recursive:
             self.update_recursive(dic)
@@ -293,7 +293,7 @@ class BaseNode(collections.abc.MutableMapping):
         return any(key in m for m in self._maps())
 
     def isinheritedkey(self, key):
-        return any(key in m for m in self._maps()[1:])
+        return any(key in m for m in self._maps(withself=False))
 
     def islocalkey(self, key):
         return key in self._map()
-- 
2.43.0


From 70b5c69fcda41f99cbf6d5141f87271a16394aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 143/173] fix: insert a new parameter node after another one

---
 src/spectrocrunch/pipelines/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index 4fd9258..d1c494b 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -471,10 +471,10 @@ class Node(BaseNode):
     def insert_after(self, node=None, single=False, **kwargs):
         """Insert a node after this one"""
         newparent = None
-        if self is node.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if self is node.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         for child in list(self.children):
-- 
2.43.0


From 151017361d30a802f3f66cf17dd2b8a230fb94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 144/173] fix: execute a range of batch jobs

---
 src/spectrocrunch/pipelines/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/batch.py b/src/spectrocrunch/pipelines/batch.py
index 1edc352..4b76456 100755
--- a/src/spectrocrunch/pipelines/batch.py
+++ b/src/spectrocrunch/pipelines/batch.py
@@ -109,7 +109,7 @@ def context():
             else:
                 b = len(jobs)
             a, b = min(a, b), max(a, b)
-            ind = ind + range(a, b + 1)
+            ind = ind + list(range(a, b + 1))
 
         for i in ind:
             try:
-- 
2.43.0


From db59d0a95c9ae7837553bcd010e6dea6fba52867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 145/173] fix: job numbers below one are invalid

---
 src/spectrocrunch/pipelines/batch.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/pipelines/batch.py b/src/spectrocrunch/pipelines/batch.py
index 4b76456..80fde27 100755
--- a/src/spectrocrunch/pipelines/batch.py
+++ b/src/spectrocrunch/pipelines/batch.py
@@ -112,12 +112,10 @@ def context():
             ind = ind + list(range(a, b + 1))
 
         for i in ind:
-            try:
-                job = jobs[i - 1]
-            except IndexError:
-                logger.error("Invalid job {} of {}".format(i, len(jobs)))
+            if 1 <= i <= len(jobs):
+                jobs[i - 1]()
             else:
-                job()
+                logger.error("Invalid job {} of {}".format(i, len(jobs)))
     else:
         for job in jobs:
             job()
-- 
2.43.0


From f9999bb82561087138f93d245fbb4dffd9108cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:07 +0000
Subject: [PATCH 146/173] fix: insert a new parameter node before the root

---
 src/spectrocrunch/pipelines/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index d1c494b..b4d45ea 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -457,10 +457,10 @@ class Node(BaseNode):
     def insert_before(self, node=None, single=False, **kwargs):
         """Insert a node before this one"""
         newparent = None
-        if node is self.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if node is self.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         self.parent, keep = node, self.parent
-- 
2.43.0


From 0f3d30e846c87c942bbe5c7159ad9a70fff0fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 147/173] fix: read negative numbers in another base

---
 src/spectrocrunch/utils/integerbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/integerbase.py b/src/spectrocrunch/utils/integerbase.py
index 84e15ee..5669d66 100755
--- a/src/spectrocrunch/utils/integerbase.py
+++ b/src/spectrocrunch/utils/integerbase.py
@@ -41,6 +41,8 @@ class integerbase:
         return "".join(digits)
 
     def base2int(self, x):
+        if x.startswith("-") and "-" not in self.digs:
+            return -self.base2int(x[1:])
         y = x[::-1]
         val = 0
         for i in range(len(y)):
-- 
2.43.0


From 271dd10aa02f15bfb3b60c7b0855432d089e72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 148/173] fix: sort by the comparison key by default

---
 src/spectrocrunch/utils/comparable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/comparable.py b/src/spectrocrunch/utils/comparable.py
index 7a4758a..1f89bee 100755
--- a/src/spectrocrunch/utils/comparable.py
+++ b/src/spectrocrunch/utils/comparable.py
@@ -11,7 +11,7 @@ class Comparable(object):
         return self._repr
 
     def _sortkey(self, other):
-        return self._cmpkey
+        return self._cmpkey(other)
 
     def __repr__(self):
         return self._repr
-- 
2.43.0


From 6b7f6fcfc5a8792b036b7d45116c945f5a9ffa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 149/173] fix: divmod of lazy functions

---
 src/spectrocrunch/math/lazy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/lazy.py b/src/spectrocrunch/math/lazy.py
index 0328d3e..02b76da 100755
--- a/src/spectrocrunch/math/lazy.py
+++ b/src/spectrocrunch/math/lazy.py
@@ -81,7 +81,7 @@ class Function(object):
         return self._binary_op(self, rother, operator.mod, "%")
 
     def __divmod__(self, rother):
-        return self._binary_op(self, rother, operator.divmod, "divmod(", ")")
+        return self._binary_op(self, rother, divmod, "divmod(", ")")
 
     def __add__(self, rother):
         return self._binary_op(self, rother, operator.add, "+")
@@ -108,7 +108,7 @@ class Function(object):
         return self._binary_op(lother, self, operator.mod, "%")
 
     def __rdivmod__(self, lother):
-        return self._binary_op(lother, self, operator.mod, "divmod(", ")")
+        return self._binary_op(lother, self, divmod, "divmod(", ")")
 
     def __radd__(self, lother):
         return self._binary_op(lother, self, operator.add, "+")
-- 
2.43.0


From 622c6ac3c1781b49938c81ae3c4a7b07b8722c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 150/173] fix: empty lists are arrays as well

---
 src/spectrocrunch/utils/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/instance.py b/src/spectrocrunch/utils/instance.py
index c96feb5..2e21f97 100755
--- a/src/spectrocrunch/utils/instance.py
+++ b/src/spectrocrunch/utils/instance.py
@@ -297,7 +297,7 @@ class _toarray(object):
 
     def __call__(self, x):
 
-        if isinstance(x, (list, tuple)) and isquantity(x[0]):
+        if isinstance(x, (list, tuple)) and len(x) and isquantity(x[0]):
             x = pint.Quantity.from_list(x)
 
         if isquantity(x):
-- 
2.43.0


From 83224c997c0774b2abdb3f15320eede06c9da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 151/173] fix: a list of quantities is an array of quantities

---
 src/spectrocrunch/utils/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/instance.py b/src/spectrocrunch/utils/instance.py
index 2e21f97..2e8bfa7 100755
--- a/src/spectrocrunch/utils/instance.py
+++ b/src/spectrocrunch/utils/instance.py
@@ -298,7 +298,7 @@ class _toarray(object):
     def __call__(self, x):
 
         if isinstance(x, (list, tuple)) and len(x) and isquantity(x[0]):
-            x = pint.Quantity.from_list(x)
+            x = ureg.Quantity.from_list(x)
 
         if isquantity(x):
             # Quantity(array/scalar) -> ndarray[Quantity(scalar),...]
-- 
2.43.0


From 39460fec7249f721299af01135fb30d97c5b7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:08 +0000
Subject: [PATCH 152/173] fix: elapsed times of more than a day

---
 src/spectrocrunch/utils/timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/utils/timing.py b/src/spectrocrunch/utils/timing.py
index 5570ea5..69f6613 100755
--- a/src/spectrocrunch/utils/timing.py
+++ b/src/spectrocrunch/utils/timing.py
@@ -29,7 +29,7 @@ def strseconds(seconds):
 def printtimeelapsed(T0, logger=None, text="Elapsed time"):
     if logger is None:
         logger = _logger
-    hours, min, sec = hms((datetime.datetime.now() - T0).seconds)
+    hours, min, sec = hms((datetime.datetime.now() - T0).total_seconds())
     logger.info("{}: {:d}h {:d}m {:d}s".format(text, hours, min, sec))
 
 
@@ -66,7 +66,7 @@ class ProgressLogger(object):
         # Tleft = Ttot - Telapsed = Telapsed*(1/pdone - 1)
         nmax = self.nmax * self.nmaxfine
         ncurrent = self.ncurrent * self.nmaxfine + self.ncurrentfine
-        Telapsed = (datetime.datetime.now() - self.T0).seconds
+        Telapsed = (datetime.datetime.now() - self.T0).total_seconds()
         hours, min, sec = hms(Telapsed)
         hours2, min2, sec2 = hms(Telapsed * (nmax / float(ncurrent) - 1))
         pdone = int(ncurrent / float(nmax) * 100)
-- 
2.43.0


From 69b84e8f9bf8d4efdd30565e170e8015f92fdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 153/173] fix: live time from the trigger count rate

---
 src/spectrocrunch/process/nxblissmcapre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxblissmcapre.py b/src/spectrocrunch/process/nxblissmcapre.py
index 6105ffe..54ea8c9 100644
--- a/src/spectrocrunch/process/nxblissmcapre.py
+++ b/src/spectrocrunch/process/nxblissmcapre.py
@@ -135,7 +135,7 @@ class Task(nxprocess.Task):
                 return
 
         events = det["events"]
-        trigger_count_rate = det["events"]
+        trigger_count_rate = det["trigger_count_rate"]
         if events.exists and trigger_count_rate.exists:
             with events.open() as ev:
                 with trigger_count_rate.open() as icr:
-- 
2.43.0


From fe957fcd2c3575181622026f60534023895a65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 154/173] fix: prepare more than one detector without
 corrections

---
 src/spectrocrunch/process/nxblissmcapre.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxblissmcapre.py b/src/spectrocrunch/process/nxblissmcapre.py
index 54ea8c9..38756c9 100644
--- a/src/spectrocrunch/process/nxblissmcapre.py
+++ b/src/spectrocrunch/process/nxblissmcapre.py
@@ -148,7 +148,9 @@ class Task(nxprocess.Task):
         preset_time = self.parameters["preset_time"]
         for source_name in detectors:
             det = nxinstrument[source_name]
-            mca = self._mca_nxdetector("mca" + self.parameters["detector_suffix"])
+            mca = self._mca_nxdetector(
+                source_name + self.parameters["detector_suffix"]
+            )
             mca["data"].link(det["data"])
             mca["preset_time"].write(data=preset_time)
 
-- 
2.43.0


From 1f9ff89615b6d0bf4f84e97abcd1bf94b5bb0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:23 +0000
Subject: [PATCH 155/173] fix: corrected spectra are not truncated to integers

---
 src/spectrocrunch/process/nxblissmcapre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxblissmcapre.py b/src/spectrocrunch/process/nxblissmcapre.py
index 38756c9..88976ca 100644
--- a/src/spectrocrunch/process/nxblissmcapre.py
+++ b/src/spectrocrunch/process/nxblissmcapre.py
@@ -110,7 +110,7 @@ class Task(nxprocess.Task):
             with det["data"].open() as dset:
                 with self._open_livetime(det) as lt:
                     shape = dset.shape
-                    dtype = (numpy.array(0, dset.dtype) * preset_time).dtype
+                    dtype = (numpy.array(0, dset.dtype) * float(preset_time)).dtype
                     it = slice_generator(shape[::-1], dtype)
                     mca = self._mca_nxdetector(
                         source_name + self.parameters["detector_suffix"]
-- 
2.43.0


From 0091383de17c846094cb27dd9845be758c5f6733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 156/173] fix: energy calibration of an MCA file cannot be read

---
 src/spectrocrunch/io/mca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/mca.py b/src/spectrocrunch/io/mca.py
index c42fb82..9556534 100755
--- a/src/spectrocrunch/io/mca.py
+++ b/src/spectrocrunch/io/mca.py
@@ -63,7 +63,7 @@ def read(filename):
     for s in h:
         if s.startswith("#@CALIB"):
             coeff = s.replace("#@CALIB", "").strip()
-            coeff = np.array(map(float, coeff.split(" ")))
+            coeff = np.array(list(map(float, coeff.split())))
         elif s.startswith("#@CHANN"):
             tmp = s.replace("#@CHANN", "").strip()
             _, ch0, ch1, _ = list(map(int, tmp.split(" ")))
-- 
2.43.0


From 4f9acd828621e9424b37ed8790b3b98f9afec7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 157/173] fix: channel added to an MCA spectrum when reading it

---
 src/spectrocrunch/io/mca.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/mca.py b/src/spectrocrunch/io/mca.py
index 9556534..8b04921 100755
--- a/src/spectrocrunch/io/mca.py
+++ b/src/spectrocrunch/io/mca.py
@@ -66,10 +66,10 @@ def read(filename):
             coeff = np.array(list(map(float, coeff.split())))
         elif s.startswith("#@CHANN"):
             tmp = s.replace("#@CHANN", "").strip()
-            _, ch0, ch1, _ = list(map(int, tmp.split(" ")))
-    if len(mca):
-        # Bug in MCA reading: last channel is not read
-        mca = np.append(mca, 0)
+            nchan, ch0, ch1, _ = list(map(int, tmp.split(" ")))
+            if len(mca) == nchan - 1:
+                # Bug in MCA reading (older PyMca): last channel is not read
+                mca = np.append(mca, 0)
     if ch0 == ch1:
         ch0 = 0
         ch1 = len(mca) - 1
-- 
2.43.0


From 04129055ca151f14f5c9998f3a311e55e9187f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 158/173] fix: tables in text files are split in characters

---
 src/spectrocrunch/io/ascii.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/io/ascii.py b/src/spectrocrunch/io/ascii.py
index d11f6b0..10f1ceb 100755
--- a/src/spectrocrunch/io/ascii.py
+++ b/src/spectrocrunch/io/ascii.py
@@ -40,11 +40,9 @@ class asciifile(object):
             raise IOError("No table with header found.")
 
         # Extract data
-        colheader = re.split(r"\s*", p.group(1))
-        data = np.array(
-            [re.split(r"\s*", line.strip()) for line in re.split(endline, p.group(2))],
-            dtype=dtype,
-        )
+        colheader = p.group(1).split()
+        lines = [line.split() for line in re.split(endline, p.group(2))]
+        data = np.array([line for line in lines if line], dtype=dtype)
         return (data, colheader)
 
 
-- 
2.43.0


From 1d015dfa40e8f5557b864cd8c08e2a0f996a3726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 159/173] fix: reading a single sheet returns its columns as
 sheets

---
 src/spectrocrunch/io/excel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/io/excel.py b/src/spectrocrunch/io/excel.py
index f191d3e..619c366 100755
--- a/src/spectrocrunch/io/excel.py
+++ b/src/spectrocrunch/io/excel.py
@@ -88,6 +88,8 @@ class DataFrame(object):
                 return {}
             else:
                 raise
+        if isinstance(data, pd.DataFrame):
+            data = {sheet_name: data}
         return {
             sheet_name: cls(df=df, sheet_name=sheet_name)
             for sheet_name, df in data.items()
-- 
2.43.0


From 982780184496ef6b02c60a850f37c6d3aafe9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:50 +0000
Subject: [PATCH 160/173] fix: sheets with numbers as row or column names
 cannot be saved

---
 src/spectrocrunch/io/excel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/excel.py b/src/spectrocrunch/io/excel.py
index 619c366..d63e3fe 100755
--- a/src/spectrocrunch/io/excel.py
+++ b/src/spectrocrunch/io/excel.py
@@ -425,7 +425,7 @@ class DataFrame(object):
         width = self.columnwidth
         for c in range(c0):
             if c0 == 1:
-                width = max(width, max(len(rowindex) for rowindex in self.df.index))
+                width = max(width, max(len(str(rowindex)) for rowindex in self.df.index))
             else:
                 width = max(
                     width, max(len(str(rowindex[c])) for rowindex in self.df.index)
@@ -438,9 +438,9 @@ class DataFrame(object):
         # Width of data columns:
         for i, colindex in enumerate(self.df.columns, c0):
             if r0 == 1:
-                width = max(len(colindex), self.columnwidth)
+                width = max(len(str(colindex)), self.columnwidth)
             else:
-                width = max(max(len(c) for c in colindex), self.columnwidth)
+                width = max(max(len(str(c)) for c in colindex), self.columnwidth)
             worksheet.set_column(i, i, width)
 
         # Freeze index and column names:
-- 
2.43.0


From 5b677ba86a7cabd7e5dc1c6a26d352b5c2b83b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:50 +0000
Subject: [PATCH 161/173] fix: formats of spreadsheet columns are lost when the
 widths are set

---
 src/spectrocrunch/io/excel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/excel.py b/src/spectrocrunch/io/excel.py
index d63e3fe..9d3c7ec 100755
--- a/src/spectrocrunch/io/excel.py
+++ b/src/spectrocrunch/io/excel.py
@@ -403,9 +403,16 @@ class DataFrame(object):
         writer = self.handle
         if writer and not self.df.empty:
             self.df.to_excel(writer, sheet_name=self.sheet_name)
+            self._xls_columns = {}
             self._xls_save_formats()
             self._xls_save_colwidths()
 
+    def _xls_set_column(self, c, **kwargs):
+        """Set the width and/or format of a column (keeps what was set before)"""
+        params = self._xls_columns.setdefault(c, {"width": None, "cell_format": None})
+        params.update(kwargs)
+        self.worksheet.set_column(c, c, **params)
+
     def sortrows(self, level=0):
         self.df.sort_index(axis=0, level=level, sort_remaining=True, inplace=True)
 
@@ -433,7 +440,7 @@ class DataFrame(object):
             hname = self.df.index.names[c]
             if hname:
                 width = max(width, len(hname))
-            worksheet.set_column(c, c, width)
+            self._xls_set_column(c, width=width)
 
         # Width of data columns:
         for i, colindex in enumerate(self.df.columns, c0):
@@ -441,7 +448,7 @@ class DataFrame(object):
                 width = max(len(str(colindex)), self.columnwidth)
             else:
                 width = max(max(len(str(c)) for c in colindex), self.columnwidth)
-            worksheet.set_column(i, i, width)
+            self._xls_set_column(i, width=width)
 
         # Freeze index and column names:
         worksheet.freeze_panes(r0, c0)
@@ -460,7 +467,7 @@ class DataFrame(object):
     def _xls_save_headerformats(self):
         fmt = self._xls_add_format(self.headerfmt)
         for c in range(self._xls_coloff):
-            self.worksheet.set_column(c, c, None, fmt)
+            self._xls_set_column(c, cell_format=fmt)
         for r in range(self._xls_rowoff):
             self.worksheet.set_row(r, None, fmt)
 
@@ -549,7 +556,7 @@ class DataFrame(object):
         fmt = self._xls_add_format(fmt)
         if column:
             coli = self._convert_colindex(index, fromtype, self.indextypes.xlsindex)
-            self.worksheet.set_column(coli, coli, None, fmt)
+            self._xls_set_column(coli, cell_format=fmt)
         else:
             rowi = self._convert_rowindex(index, fromtype, self.indextypes.xlsindex)
             self.worksheet.set_row(rowi, None, fmt)
-- 
2.43.0


From 3c4560c253abf4078ddd8a1df061b8cdbc460634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:50 +0000
Subject: [PATCH 162/173] fix: linear colormap cannot be used

---
 src/spectrocrunch/visualization/colormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/visualization/colormap.py b/src/spectrocrunch/visualization/colormap.py
index d66e2a0..99f6ae8 100755
--- a/src/spectrocrunch/visualization/colormap.py
+++ b/src/spectrocrunch/visualization/colormap.py
@@ -61,4 +61,4 @@ def Linearcolormap(name, a, b, alpha=None):
         "blue": [(0.0, a[2], a[2]), (1.0, b[2], b[2])],
         "alpha": [(0.0, a[3], a[3]), (1.0, b[3], b[3])],
     }
-    return pltcolors.ListedColormap(name, cdict)
+    return pltcolors.LinearSegmentedColormap(name, cdict)
-- 
2.43.0


From 85a8ca685b5361bdb4b3ab53068047d4db0f9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 163/173] fix: unit string of the y-axis of a scene is the one
 of the x-axis

---
 src/spectrocrunch/visualization/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index a9c8f18..d11e38d 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -159,7 +159,7 @@ class Scene(CompHashable, Geometry2D):
 
     @property
     def stryunit(self):
-        return self.strunits[self.dataaxisx]
+        return self.strunits[self.dataaxisy]
 
     @property
     def xlabel(self):
-- 
2.43.0


From 10e8cb2af2f4670e5fc37fa15a3487ebd61a1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 164/173] fix: resetting the data range of a scene shifts the
 second axis

---
 src/spectrocrunch/visualization/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index d11e38d..f2b6ae3 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -240,7 +240,7 @@ class Scene(CompHashable, Geometry2D):
         self.datascale[dataaxis] = scale
 
     def resetdatarange(self):
-        self.dataoffset = [self.q0(0), self.q1(1)]
+        self.dataoffset = [self.q0(0), self.q1(0)]
         self.datascale = [1, 1]
 
     def increasingx(self, increasing):
-- 
2.43.0


From 807bebed26ea8c22310c88e5fe96a00c5857f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 165/173] fix: flipping an axis of a scene twice does not flip
 it back

---
 src/spectrocrunch/visualization/scene.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index f2b6ae3..9ef83bb 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -260,7 +260,10 @@ class Scene(CompHashable, Geometry2D):
             self._increasing[dataaxis] = not self._increasing[dataaxis]
         else:
             if increasing == self._increasing[dataaxis]:
-                self.setdatarange(dataaxis, self.datarange(dataaxis)[::-1])
+                ran = self.datarange(dataaxis)
+                if self.datascale[dataaxis] > 0:
+                    ran = ran[::-1]
+                self.setdatarange(dataaxis, ran)
             else:
                 self._increasing[dataaxis] = not self._increasing[dataaxis]
 
-- 
2.43.0


From 6edce5653c5b3e35953d0cabab61bd0d5a2b8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 166/173] fix: setting the origin of a scene ignores the
 current origin

---
 src/spectrocrunch/visualization/scene.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index 9ef83bb..a473684 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -268,11 +268,10 @@ class Scene(CompHashable, Geometry2D):
                 self._increasing[dataaxis] = not self._increasing[dataaxis]
 
     def origin(self, dataaxis, off):
-        self.dataoffset[dataaxis] = off - self.dataoffset[dataaxis]
+        self.dataoffset[dataaxis] = off + self.dataoffset[dataaxis]
 
     def originreset(self):
-        self.origin(0, self.q0(0))
-        self.origin(1, self.q1(0))
+        self.dataoffset = [self.q0(0), self.q1(0)]
 
     def originzero(self):
         self.origin(0, self.datarange(0)[0])
-- 
2.43.0


From a251c6d329838fdde986c615b492587d76addfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 167/173] fix: images with two channels cannot be shown

---
 src/spectrocrunch/visualization/scene.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index a473684..8859200 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -615,6 +615,7 @@ class Image(Item):
         if nchannels != 1:
             nchannels = 3
 
+        channels = list(channels)
         if len(channels) < nchannels:
             channels.extend([None] * (nchannels - len(channels)))
         else:
-- 
2.43.0


From 9db8013458a0934721e0bf56c89e91cb31e061dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 168/173] fix: RGB images of integers are black

---
 src/spectrocrunch/visualization/scene.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index 8859200..5052826 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -847,6 +847,7 @@ class Image(Item):
             if not instance.isarray(vmax):
                 vmax = [vmax] * nchannels
             normcb = []
+            image = image.astype(float)
 
             for i in range(nchannels):
                 norm = ColorNorm(settings["cnorm"], *settings["cnormargs"])(
-- 
2.43.0


From 3bc86325d148663ef88ae95a5f4020943b27d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 169/173] fix: new image data or scaling is not shown when a
 scene is updated

---
 src/spectrocrunch/visualization/scene.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index 5052826..97152a4 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -881,6 +881,7 @@ class Image(Item):
         # Image
         if "image" in items:
             newitems["image"] = items["image"]
+            newitems["image"].set_data(image)
             plt.setp(
                 newitems["image"],
                 interpolation="nearest",
-- 
2.43.0


From 7ab1b248e8def0351af68bcb684297fb06035401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 170/173] fix: new coordinates of scene points are ignored

---
 src/spectrocrunch/visualization/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index 97152a4..9763de5 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -1195,7 +1195,7 @@ class Scatter(Item):
             self.labels = labels
 
     def updatedata(self, coordinate0, coordinate1, labels=None, **settings):
-        Image._updatedata(self, coordinate0, coordinate1, labels=labels)
+        Scatter._updatedata(self, coordinate0, coordinate1, labels=labels)
         super(Scatter, self).updatedata(**settings)
 
     def datarange(self, dataaxis):
-- 
2.43.0


From 75d690dcddcf6325940ea5f8106a83707decba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 171/173] fix: polygons cannot be added to a scene

---
 src/spectrocrunch/visualization/scene.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/visualization/scene.py b/src/spectrocrunch/visualization/scene.py
index 9763de5..8ce118c 100755
--- a/src/spectrocrunch/visualization/scene.py
+++ b/src/spectrocrunch/visualization/scene.py
@@ -1248,10 +1248,12 @@ class Scatter(Item):
 
             if "patch" in items:
                 newitems["patch"] = items["patch"]
-                newitems["patch"].set_xy = zip(x, y)
+                newitems["patch"].set_xy(np.column_stack([x, y]))
                 plt.setp(newitems["patch"], **kwargs)
             else:
-                newitems["patch"] = matplotlib.patches.Polygon(zip(x, y), **kwargs)
+                newitems["patch"] = matplotlib.patches.Polygon(
+                    np.column_stack([x, y]), **kwargs
+                )
                 scene.ax.add_patch(newitems["patch"])
             settings["color"] = newitems["patch"].get_facecolor()
 
-- 
2.43.0


From 9419c6afb8fd2901faed8f8d5a73fb37da3c9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 172/173] fix: upper limit of the relative intensity scaling of
 a scene depends on the lower limit

---
 src/spectrocrunch/process/scenevis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/scenevis.py b/src/spectrocrunch/process/scenevis.py
index 64f77b6..bd1c225 100755
--- a/src/spectrocrunch/process/scenevis.py
+++ b/src/spectrocrunch/process/scenevis.py
@@ -35,19 +35,19 @@ def scene_globalscaling(sc, parameters):
     rlo = parameters.get("rlo", None)
     rhi = parameters.get("rhi", None)
     if rlo is not None or rhi is not None:
-        vmin, vmax = sc.vminmax
-        dv = np.array(vmax) - np.array(vmin)
+        v0, v1 = sc.vminmax
+        dv = np.array(v1) - np.array(v0)
 
         if rlo is None:
             vmin = None
         else:
             rlo, func = instance.asarrayf(rlo)
-            vmin = vmin + dv * func(rlo)
+            vmin = v0 + dv * func(rlo)
         if rhi is None:
             vmax = None
         else:
             rhi, func = instance.asarrayf(rhi)
-            vmax = vmin + dv * func(rhi)
+            vmax = v0 + dv * func(rhi)
         sc.scale(vmin=vmin, vmax=vmax)
 
     alo = parameters.get("alo", None)
-- 
2.43.0


From 0a5d59a98caf3c76a115d323abc758a82033784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:47 +0000
Subject: [PATCH 173/173] fix: a refused NXdata axis does not leave the axes
 before it behind

---
 src/spectrocrunch/io/nxfs.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index f020e63..b54a1af 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -967,6 +967,10 @@ class _NXdata(_NXPath):
                             )
                         )
 
+                # Check all axes before creating the first one
+                for name, value, _ in axes:
+                    positioners._verify_axis(name, value)
+
                 # Create axes if needed
                 names = []
                 for name, value, attr in axes:
@@ -1035,18 +1039,20 @@ class _NXcollection(_NXPath):
 
     NX_CLASS = "NXcollection"
 
+    def _verify_axis(self, name, value):
+        axis = self[name]
+        if axis.exists:
+            if value is not None:
+                if not self._axis_equal(axis, value):
+                    raise ValueError("Axis {} already exists".format(name))
+        elif value is None:
+            raise ValueError("Axis {} does not exist yet and needs data".format(name))
+
     def add_axis(self, name, value, title=None, units=None):
         with self._verify():
             axis = self[name]
-            if axis.exists:
-                if value is not None:
-                    if not self._axis_equal(axis, value):
-                        raise ValueError("Axis {} already exists".format(name))
-            else:
-                if value is None:
-                    raise ValueError(
-                        "Axis {} does not exist yet and needs data".format(name)
-                    )
+            self._verify_axis(name, value)
+            if not axis.exists:
                 if isinstance(value, h5fs.Path):
                     axis.link(value)
                 else:
-- 
2.43.0

