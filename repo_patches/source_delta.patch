From 2d232b0870c94b21b19df67027505fc2f81d919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 01/42] fix: restore dict key False as False instead of True

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..017b967 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : 'True' in x,
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : 'True' in x,
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
-- 
2.43.0


From f545963188660398dd74bd300f59674e73da863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 02/42] fix: do not cast bytes items of lists and sets to a
 numeric or zero length dtype

---
 hickle/loaders/load_builtins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 017b967..e75b702 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -124,8 +124,10 @@ def check_iterable_item_type(first_item,iter_obj):
     ):
         return None
 
+    # strings and bytes have no fixed length dtype in common with each other or with
+    # any number, casting would truncate or reinterpret them
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
+    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
     for item in iter_obj:
         if np.ndim(item) != 0:
@@ -134,7 +136,7 @@ def check_iterable_item_type(first_item,iter_obj):
         if ( 
             common_dtype.name == 'object' or
             'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
+            'bytes' in common_dtype.name
         ):
             return None
         if dtype != common_dtype:
-- 
2.43.0


From 2b6f910588c49a9f2cb9ff111ffad74e37cf65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:17 +0000
Subject: [PATCH 03/42] fix: dump lists and sets containing ragged nested
 sequences

---
 hickle/loaders/load_builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index e75b702..6827f9c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -130,7 +130,11 @@ def check_iterable_item_type(first_item,iter_obj):
     if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
     for item in iter_obj:
-        if np.ndim(item) != 0:
+        try:
+            if np.ndim(item) != 0:
+                return None
+        except ValueError:
+            # item is a nested sequence which has no rectangular shape
             return None
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
         if ( 
-- 
2.43.0


From 78817bf1869a9e7f355f36ccf8921addf6578dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:17 +0000
Subject: [PATCH 04/42] fix: do not cast integers of mixed lists to a dtype
 which can not represent them

---
 hickle/loaders/load_builtins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 6827f9c..70ca667 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -129,6 +129,9 @@ def check_iterable_item_type(first_item,iter_obj):
     dtype = np.dtype(first_item.__class__)
     if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
+
+    # number of bits required to store the largest integer among the items
+    int_bits = int(first_item).bit_length() if isinstance(first_item,(int,np.integer)) else 0
     for item in iter_obj:
         try:
             if np.ndim(item) != 0:
@@ -145,6 +148,12 @@ def check_iterable_item_type(first_item,iter_obj):
             return None
         if dtype != common_dtype:
             dtype = common_dtype
+        if isinstance(item,(int,np.integer)):
+            int_bits = max(int_bits,int(item).bit_length())
+
+    # integers which exceed the range or the precision of dtype can not be casted to it.
+    if int_bits > (53 if dtype.kind in 'fc' else 64 if dtype.kind == 'u' else 63):
+        return None
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From bb9f8bad19b3e4cb33d57c33a82f5c75f5021321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 05/42] fix: restore numpy.str_ and other str subclasses from
 their content

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 70ca667..e476072 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -394,7 +394,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
-    if str_type in (b'str','str'):
+    if str_type in (b'str','str') or ( isinstance(py_obj_type,type) and issubclass(py_obj_type,str) ):
 
         # decode bytes representing python string before final conversion
         if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
-- 
2.43.0


From 4c2bb5c1e0c77ee66a0e482631d1fd1e8336c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 06/42] fix: load dicts using numpy.str_ or numpy.bytes_ keys

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index e476072..f41463b 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -299,11 +299,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
-- 
2.43.0


From 89d57e76b61be0fd6cc39eb6b16b6a6d139a901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 07/42] fix: restore empty arrays of strings and objects

---
 hickle/loaders/load_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..a3962c7 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -225,6 +225,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     resulting numpy.ndarray, numpy.ma.array
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
+    if h_node.shape is None:
+        # empty array of strings or objects of which just the list of its items was stored
+        return np.array([],dtype=dtype)
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
-- 
2.43.0


From 57de63fa4e4388cfee1ac0baf2a419a1719f745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 08/42] fix: load structured arrays

---
 hickle/loaders/load_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index a3962c7..c53755b 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -238,6 +238,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         return np.asarray(string_data,dtype=dtype)
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
+    if dtype.kind == 'V':
+        # structured array, the names and types of its fields are defined by the dataset only
+        return np.array(h_node[()])
     # TODO how to restore other ndarray derived object_types
     # simply using classname for casting does not work, in
     # case they use the same interface like numpy.ndarray
-- 
2.43.0


From d6b906a5cc76ab1dbf267816cfade059fc2a64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:49 +0000
Subject: [PATCH 09/42] fix: do not leave parts of a failed dump behind which
 load would accept as object

---
 hickle/hickle.py | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..a519f48 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -145,6 +145,29 @@ def _dump(py_obj, h_group, name, memo, loader,attrs={} , **kwargs):
         _dump(py_subobj,h_node,h_subname,memo,loader,h_subattrs,**sub_kwargs)
 
 
+def _drop_incomplete(h_root_group,known_attrs):
+    """
+    removes everything written to h_root_group by a dump which failed, so that it
+    can neither be mistaken for a complete object nor blocks dumping to h_root_group.
+
+    Parameters
+    ----------
+    h_root_group (h5.File.group):
+        group which was empty before dump was called
+
+    known_attrs (set):
+        names of the attributes h_root_group had before dump was called
+    """
+
+    for content in (h_root_group.attrs,h_root_group):
+        try:
+            for name in [name for name in content if content is h_root_group or name not in known_attrs]:
+                del content[name]
+        except Exception:
+            # file not writable any more, report the error dump failed with
+            pass
+
+
 def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**kwargs):
     """
     Write a hickled representation of `py_obj` to the provided `file_obj`.
@@ -228,12 +251,20 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         elif h_root_group.items():
             raise ValueError("Unable to create group (name already exists)")
 
-        h_root_group.attrs["HICKLE_VERSION"] = __version__
-        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
-
+        known_attrs = set(h_root_group.attrs)
         with LoaderManager.create_manager(h_root_group,False,options) as loader:
-            with ReferenceManager.create_manager(h_root_group) as memo:
-                _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+            try:
+                with ReferenceManager.create_manager(h_root_group) as memo:
+                    _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+
+                    # h_root_group is recognized as hickle group by load not before all
+                    # data has successfully been written
+                    h5f.flush()
+                h_root_group.attrs["HICKLE_VERSION"] = __version__
+                h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
+            except BaseException:
+                _drop_incomplete(h_root_group,known_attrs)
+                raise
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
         h5f.flush()
-- 
2.43.0


From b1dc9522f53723889850a1cd1f21582368bfb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 10/42] fix: restore state of garbage collector as found even
 if closing the file fails

---
 hickle/hickle.py | 52 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index a519f48..5907393 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -38,6 +38,7 @@ import io
 import sys
 import warnings
 import types
+import threading
 import functools as ft
 
 # Package imports
@@ -70,6 +71,37 @@ __all__ = ['dump', 'load']
 # %% FUNCTION DEFINITIONS
 
 
+# the garbage collector is switched off and on again by one thread at a time only
+_finalize_lock = threading.RLock()
+
+def _finalize_file(h5f, close_flag):
+    """
+    Flush the h5py.File and close it if it was opened by hickle.
+
+    Parameters
+    ----------
+    h5f (h5py.File):
+        the file to flush
+
+    close_flag (bool):
+        True if h5f was opened by hickle and thus has to be closed
+    """
+
+    h5f.flush()
+
+    # disable python garbage collector while closing to prevent Unrecognized
+    # typecode ValueError caused by h5py objects collected to earlay most 
+    # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+    with _finalize_lock:
+        gc_enabled = gc.isenabled()
+        gc.disable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
+
 ###########
 # DUMPERS #
 ###########
@@ -267,15 +299,7 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
                 raise
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        _finalize_file(h5f,close_flag)
 
 ###########
 # LOADERS #
@@ -418,15 +442,7 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        _finalize_file(h5f,close_flag)
 
 
 
-- 
2.43.0


From 1ca5f8962792188d2af2eece2f4a2e365219cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 11/42] fix: do not store invalid options within the group
 dumped to

---
 hickle/lookup.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..e53dd37 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1101,13 +1101,7 @@ class LoaderManager(BaseManager):
                 if match and on
             )
         else:
-            def set_option_items():
-                for option_key,on in options.items():
-                    if not on:
-                        continue
-                    h_root_group.attrs[LoaderManager._option_formatter.format(option_key.upper())] = on 
-                    yield option_key
-            option_items = set_option_items()
+            option_items = [ option_key for option_key,on in options.items() if on ]
         # try to include loader set indicated by option_name
         try:
             for option_name in option_items:
@@ -1116,6 +1110,11 @@ class LoaderManager(BaseManager):
                 self.hkl_container_dict.maps.insert(0,self.__class__.__hkl_container__[option_name])
         except KeyError:
             raise LookupError("Option '{}' invalid".format(option_name))
+
+        # store selected options not before all of them are known to be valid
+        if options is not None:
+            for option_name in option_items:
+                h_root_group.attrs[LoaderManager._option_formatter.format(option_name.upper())] = options[option_name]
             
         # add loaders required to properly load legacy files created by hickle 4.x and
         # ensure that non class types are properly reported by load_loader
-- 
2.43.0


From 59bffe97ed315fc2d231aca522dcb964b5c3a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 12/42] fix: publish loaders to other threads not before
 completely registered

---
 hickle/lookup.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e53dd37..e354ae4 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -96,6 +96,8 @@ import warnings
 import types
 import re
 import weakref
+import threading
+import functools
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
 from importlib import invalidate_caches
@@ -850,6 +852,17 @@ _managed_by_hickle = {'hickle', ''}
 
 _custom_loader_enabled_builtins = {'__main__':('','')}
 
+# loaders are registered by one thread at a time only, any other has to wait until all
+# classes and functions provided by the loader module are available
+_loader_lock = threading.RLock()
+
+def _single_threaded(method):
+    @functools.wraps(method)
+    def call_locked(*args,**kwargs):
+        with _loader_lock:
+            return method(*args,**kwargs)
+    return call_locked
+
 class LoaderManager(BaseManager):
     """
     Handles the file specific lookup of loader to be used to dump or load
@@ -1127,6 +1140,7 @@ class LoaderManager(BaseManager):
             self._mro = type.mro
         self._file = h_root_group.file
         
+    @_single_threaded
     def load_loader(self, py_obj_type,*,base_type=None):
         """
         Checks if given `py_obj` requires an additional loader to be handled
-- 
2.43.0


From 2bcdb203cc1c56be94860e9375ce69a73b049a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:04 +0000
Subject: [PATCH 13/42] fix: do not add a types table to hickle 4.x files when
 loading from a file opened for writing

---
 hickle/lookup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e354ae4..2cf60a6 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -518,10 +518,11 @@ class ReferenceManager(BaseManager, dict):
         # an empty dummy hickle_types_table. This is necessary to ensue that
         # ReferenceManager.resolve_type works properly on hickle 4.x files which
         # store type information directly in h5py.Group and h5py.Datasets attrs
-        # structure.
+        # structure. As they are never dumped to they are treated alike no matter how
+        # the file was opened.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            if h_root_group.file.mode == 'r+' and pickle_loads is not fix_lambda_obj_type:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From 26dae588238d5819ce575c2289debac34db4ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:06 +0000
Subject: [PATCH 14/42] fix: load hickle 4.x files concurrently whose names
 differ by extension only

---
 hickle/lookup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 2cf60a6..d54700d 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -525,8 +525,10 @@ class ReferenceManager(BaseManager, dict):
             if h_root_group.file.mode == 'r+' and pickle_loads is not fix_lambda_obj_type:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
+                # name has to differ from the one of any other overlay in use even if
+                # file names differ by their extension only.
                 h5_overlay = h5.File(
-                    '{}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0]),
+                    '{}.{:x}.hover'.format(h_root_group.file.filename,id(self)),
                     mode='w', driver='core',backing_store=False
                 )
                 self._py_obj_type_table = h5_overlay.create_group("hickle_types_table",track_order = True)
-- 
2.43.0


From e7c98e719f32a85bf0bb4b5921ef44bdcc9cb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:15 +0000
Subject: [PATCH 15/42] fix: release manager of hickle 4.x file once loaded

---
 hickle/lookup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d54700d..0e82e6f 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -389,6 +389,7 @@ class ReferenceManager(BaseManager, dict):
         '_py_obj_type_table', # hickle_types_table h5py.Group storing type information
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
+        '_h_root_group', # group of the file this manager was created for
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
         'pickle_loads' # reference to pickle.loads method
     )
@@ -509,6 +510,7 @@ class ReferenceManager(BaseManager, dict):
         super().__init__(*args,**kwargs)
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
+        self._h_root_group = h_root_group
         self._overlay = None
         self.pickle_loads = pickle_loads
 
@@ -838,7 +840,10 @@ class ReferenceManager(BaseManager, dict):
         # remove this ReferenceManager object from the table of active ReferenceManager objects
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
         # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
-        super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        # in which case the 'hickle_types_table' does not belong to the file managed.
+        if self._h_root_group:
+            super().__exit__(exc_type, exc_value, exc_traceback, self._h_root_group)
+        self._h_root_group = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From 76507d66b06d261f5d9d7cedec46383a3713237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:52 +0000
Subject: [PATCH 16/42] fix: use the lock of h5py instead of further locks to
 not deadlock if it is already held

---
 hickle/hickle.py | 11 +++++------
 hickle/lookup.py | 10 +++++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 5907393..7cb4864 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -38,12 +38,12 @@ import io
 import sys
 import warnings
 import types
-import threading
 import functools as ft
 
 # Package imports
 import pickle
 import h5py as h5
+from h5py._hl.base import phil
 import numpy as np
 
 #whished it would not be necessary but sometimes garbage collector
@@ -71,9 +71,6 @@ __all__ = ['dump', 'load']
 # %% FUNCTION DEFINITIONS
 
 
-# the garbage collector is switched off and on again by one thread at a time only
-_finalize_lock = threading.RLock()
-
 def _finalize_file(h5f, close_flag):
     """
     Flush the h5py.File and close it if it was opened by hickle.
@@ -91,8 +88,10 @@ def _finalize_file(h5f, close_flag):
 
     # disable python garbage collector while closing to prevent Unrecognized
     # typecode ValueError caused by h5py objects collected to earlay most 
-    # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-    with _finalize_lock:
+    # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows.
+    # This is done by one thread at a time only. The (reentrant) lock of h5py is required for closing
+    # the file and may already be held by the thread, any other would have to be acquired first.
+    with phil:
         gc_enabled = gc.isenabled()
         gc.disable()
         try:
diff --git a/hickle/lookup.py b/hickle/lookup.py
index 0e82e6f..9129c12 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -96,7 +96,6 @@ import warnings
 import types
 import re
 import weakref
-import threading
 import functools
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
@@ -107,6 +106,7 @@ import collections
 import pickle
 import numpy as np
 import h5py as h5
+from h5py._hl.base import phil
 
 # hickle imports
 from .helpers import PyContainer,not_dumpable,nobody_is_my_name,no_compression,NotHicklable
@@ -861,13 +861,13 @@ _managed_by_hickle = {'hickle', ''}
 _custom_loader_enabled_builtins = {'__main__':('','')}
 
 # loaders are registered by one thread at a time only, any other has to wait until all
-# classes and functions provided by the loader module are available
-_loader_lock = threading.RLock()
-
+# classes and functions provided by the loader module are available. For this the (reentrant)
+# lock of h5py is used as it may already be held by the thread, eg. while it iterates
+# through the items of a h5py.Group. Any other lock would have to be acquired first.
 def _single_threaded(method):
     @functools.wraps(method)
     def call_locked(*args,**kwargs):
-        with _loader_lock:
+        with phil:
             return method(*args,**kwargs)
     return call_locked
 
-- 
2.43.0


From 61230eb308ab380e3b08ada9c0157ecc87959355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 17/42] fix: load files made by hickle 3 from file objects,
 streams and groups

The legacy loader was handed the object passed to load and not the HDF5 file
already opened. It accepts file names and h5py.File objects only.
---
 hickle/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 7cb4864..23916cc 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -409,7 +409,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From 2f5f46f44265c61d52116fc8a8979dd66697b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:27 +0000
Subject: [PATCH 18/42] fix: keep the base_type of recovered data of hickle 4.x
 files

recover_custom_dataset and RecoverGroupContainer request the original base_type
by passing -1 for base_type_type, as documented.
---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 9129c12..dba8eac 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -771,7 +771,7 @@ class ReferenceManager(BaseManager, dict):
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
             except (ModuleNotFoundError,AttributeError):
                 # module missing or py_object_type not provided by module
-                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
+                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type != 1 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
                 raise ReferenceError(
                     "node '{}': '{}' attribute ('{}')invalid: not a pickle byte string".format(
-- 
2.43.0


From b062547ab8aca37ba23b8e3daec6782fa24711fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:08 +0000
Subject: [PATCH 19/42] fix: keep dict keys containing null characters

The names of HDF5 groups and datasets end at the first null character. Store
such keys as key value pair like any other key which can not be used as name.
---
 hickle/loaders/load_builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index f41463b..b21d994 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -260,8 +260,9 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+# names of HDF5 groups and datasets may neither contain slashes nor null characters
+_byte_slashes = re.compile(b'[\\/\0]')
+_str_slashes = re.compile(r'[\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
-- 
2.43.0


From 095b3e13507c57c853d70ec99b91685fd50d04ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 20/42] fix: pickle namedtuple, Counter and defaultdict objects

They can not be restored from the sequence of their items: loading raised, or
returned a Counter of the key value pairs.
---
 hickle/loaders/load_builtins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index b21d994..e2c6072 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -14,6 +14,7 @@ hickle.
 import warnings
 import re
 import operator
+import collections
 
 # Package imports
 import numpy as np
@@ -191,6 +192,10 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
         return dataset,()
         
+    if isinstance(py_obj,tuple) and hasattr(py_obj,'_fields'):
+        # can not be restored from the sequence of its items
+        raise NotHicklable("namedtuple")
+
     if len(py_obj) < 1:
         # list-like object is empty just store empty dataset
         return h_group.create_dataset(name,shape=None,dtype='int',**no_compression(kwargs)),()
@@ -289,6 +294,10 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,(collections.Counter,collections.defaultdict)):
+        # can not be restored from the sequence of its key value pairs
+        raise NotHicklable(py_obj.__class__.__name__)
+
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
-- 
2.43.0


From a46ca9e2754a710e701426aea8c004c51470be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 21/42] fix: pickle structured dtypes

Their string neither contains names nor types of the fields.
---
 hickle/loaders/load_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index c53755b..d7e5f4f 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,9 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.names is not None or py_obj.subdtype is not None:
+        # string does not define fields and shape of structured dtypes
+        raise NotHicklable("structured dtype")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
-- 
2.43.0


From 8848a00215d282e203f9b57aafd412aaef0ea755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 22/42] fix: restore the shape of empty arrays of strings and
 of arrays of objects

Items which are sequences of equal length were taken for a further dimension,
the shape of empty arrays was lost.
---
 hickle/loaders/load_numpy.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index d7e5f4f..d2429ea 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -97,8 +97,9 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     and iterable of subitems
     """
 
-    # Obtain dtype of py_obj
+    # Obtain dtype and shape of py_obj
     dtype = py_obj.dtype
+    shape = py_obj.shape
 
     # Check if py_obj contains strings
     if "str" in dtype.name:
@@ -116,8 +117,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
         # If so, convert py_obj to list
         py_obj = py_obj.tolist()
 
-        # Check if py_obj is a list
-        if isinstance(py_obj, list):
+        # Check if py_obj has any dimension and thus was converted to a list
+        if shape:
             # If so, dump py_obj into the current group
             h_node,sub_items = create_listlike_dataset(py_obj, h_group, name, **kwargs)
         else:
@@ -130,6 +131,9 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
+    if dtype.name == 'object' or ( "str" in dtype.name and 0 in shape ):
+        # not defined by the list of items
+        h_node.attrs['np_shape'] = shape
     return h_node,sub_items
 
 def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
@@ -208,6 +212,14 @@ def load_np_scalar_dataset(h_node,base_type,py_obj_type):
     return dtype.type(h_node[()])
 
 
+def load_shape(h5_attrs,default = None):
+    """
+    returns shape of array as stored in 'np_shape' attribute or default if there is none
+    """
+    shape = h5_attrs.get('np_shape',None)
+    return default if shape is None else tuple(int(length) for length in shape)
+
+
 def load_ndarray_dataset(h_node,base_type,py_obj_type):
     """
     restores ndarray like object from dataset
@@ -230,7 +242,7 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     dtype = np.dtype(h_node.attrs['np_dtype'])
     if h_node.shape is None:
         # empty array of strings or objects of which just the list of its items was stored
-        return np.array([],dtype=dtype)
+        return np.empty(load_shape(h_node.attrs,(0,)),dtype=dtype)
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
@@ -299,7 +311,17 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
-        data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        shape = load_shape(self._h5_attrs)
+        if shape is None:
+            data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        else:
+            # items may be sequences too, do not mistake them for further dimensions
+            data = np.empty(shape,dtype = self._h5_attrs['np_dtype'])
+            for index,position in enumerate(np.ndindex(shape)):
+                item = self._content
+                for axis_index in position:
+                    item = item[axis_index]
+                data.flat[index] = item
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From 956533e5d0af31eaacc0c417a15efb1793f2f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:18 +0000
Subject: [PATCH 23/42] fix: load matrices of strings, structured masked arrays
 and the masked constant

The former were recovered only as no container was registered for them, loading
the latter two raised.
---
 hickle/loaders/load_numpy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index d2429ea..452c0ee 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -159,6 +159,10 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     """
 
+    if py_obj is np.ma.masked:
+        # constant of which only one instance exists
+        raise NotHicklable("masked constant")
+
     # Obtain dtype of py_obj
 
     h_node = h_group.create_group(name)
@@ -337,7 +341,10 @@ class NDMaskedArrayContainer(PyContainer):
         self._content[name] = item
 
     def convert(self):
-        dtype = self._h5_attrs['np_dtype']
+        dtype = np.dtype(self._h5_attrs['np_dtype'])
+        if dtype.kind == 'V':
+            # structured array, the names and types of its fields are defined by the data only
+            dtype = self._content['data'].dtype
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
@@ -367,7 +374,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset, NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 39dc3275a34b26db2bd8abee512b815d73a0e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:14 +0000
Subject: [PATCH 24/42] fix: pickle SkyCoord and Table objects which can not be
 represented

The frame and distance of SkyCoord objects and the mask and units of tables
were dropped silently.
---
 hickle/loaders/load_astropy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..e0fa0bc 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # %% FUNCTION DEFINITIONS
@@ -94,6 +94,9 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    if py_obj.frame.name != 'icrs' or py_obj.data.__class__ is not UnitSphericalRepresentation:
+        # just longitude and latitude are stored
+        raise NotHicklable("frame or representation of SkyCoord")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
@@ -204,6 +207,9 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    if py_obj.has_masked_columns or py_obj.has_mixin_columns or any(column.unit for column in py_obj.columns.values()):
+        # just names and values of columns are stored
+        raise NotHicklable("columns with mask or unit")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
-- 
2.43.0


From 249578a5429ae989bfc16c7dc353abe663426b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 25/42] fix: do not add the position of a table within a list
 or dict to its meta data

---
 hickle/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index e0fa0bc..b9f793b 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -388,7 +388,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in {'type','base_type','colnames','item_index','key_idx','key_base_type'}
         }
     )
     return t
-- 
2.43.0


From bc452826811500821017f45f84842ccd1bf0a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:15 +0000
Subject: [PATCH 26/42] fix: dump 0-d arrays when a compression filter is
 requested

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 452c0ee..1d7a280 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -127,7 +127,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or not shape else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From e27e030b58593e36551de20dc66bd26f189d03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:15 +0000
Subject: [PATCH 27/42] fix: dump lists starting with an instance of a subclass
 of bytes

---
 hickle/loaders/load_builtins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index e2c6072..da7e93c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -118,6 +118,10 @@ def check_iterable_item_type(first_item,iter_obj):
     the least common dtype or none if not all items can be casted
     """
 
+    if isinstance(first_item,(str,bytes)):
+        # never stored as array, numpy may even refuse to convert instances of subclasses
+        return None
+
     if (
         operator.length_hint(first_item) > 1 or
         ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-- 
2.43.0


From ceab21d88369eef73587e73396b4e05100718696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:15 +0000
Subject: [PATCH 28/42] fix: pickle Tables whose columns or meta data can not
 be stored by a dataset

---
 hickle/loaders/load_astropy.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index b9f793b..254555f 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -186,6 +186,21 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     return d,()
 
 
+# attributes set by hickle
+_hickle_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+
+def is_attribute(key, value):
+    """
+    checks if key value pair of table meta data can be restored from an attribute
+    """
+    if type(key) is not str or not key or '\0' in key or key in _hickle_attrs:
+        return False
+    if type(value) is int:
+        return value.bit_length() < 64
+    if type(value) is str:
+        return '\0' not in value and len(value) < 2**13
+    return type(value) in (bool,float)
+
 def create_astropy_table(py_obj, h_group, name, **kwargs):
     """ Dump an astropy Table
 
@@ -210,6 +225,11 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     if py_obj.has_masked_columns or py_obj.has_mixin_columns or any(column.unit for column in py_obj.columns.values()):
         # just names and values of columns are stored
         raise NotHicklable("columns with mask or unit")
+    if any(column.dtype.kind in 'UO' or not cn.isascii() for cn,column in py_obj.columns.items()):
+        # neither strings nor objects can be stored by a compound dataset
+        raise NotHicklable("columns of strings or objects")
+    if not all(is_attribute(key,value) for key,value in py_obj.meta.items()):
+        raise NotHicklable("meta data")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
@@ -388,7 +408,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+            if metakey not in _hickle_attrs
         }
     )
     return t
-- 
2.43.0


From 3fe1d4ad3704fd18e4766f713ea460de953dc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:08 +0000
Subject: [PATCH 29/42] fix: load strings stored by hickle 3.x using h5py >= 3

---
 hickle/legacy_v3/loaders/load_python3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..67028af 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py >= 3 returns bytes
+    return data[0].decode('utf8') if isinstance(data[0], bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From 711f36c7c28999513862295366e4b64fc638b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:08 +0000
Subject: [PATCH 30/42] fix: load lists of bytes stored by hickle 3.x which are
 not utf8 encoded

---
 hickle/legacy_v3/loaders/load_python3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 67028af..6a4e89a 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,7 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
-- 
2.43.0


From 2b964727123d3b8a27d069909a85dda2b08a5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:08 +0000
Subject: [PATCH 31/42] fix: load dict key False stored by hickle 3.x

---
 hickle/legacy_v3/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..604cd57 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": literal_eval,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From 21c33883a6576a723636d73fc87f5cf57423eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:07 +0000
Subject: [PATCH 32/42] fix: do not add masks to lists of masked arrays stored
 by hickle 3.x

---
 hickle/legacy_v3/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..5c3a77b 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -604,7 +604,7 @@ def _load(py_container, h_group):
         sub_data = py_subcontainer.convert()
         py_container.append(sub_data)
 
-    else:
+    elif get_type(h_group) != b'ndarray_masked_mask': # loaded along with its data
         # must be a dataset
         subdata = load_dataset(h_group)
         py_container.append(subdata)
-- 
2.43.0


From f9f40b7700dd0c1e2b5a9e5c297e2f83dd389e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:07 +0000
Subject: [PATCH 33/42] fix: load dicts with keys which are not ascii stored by
 hickle 3.x

---
 hickle/legacy_v3/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
-- 
2.43.0


From 0be0aeb2c01caa25ed783a6a89f0aaf106097e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:07 +0000
Subject: [PATCH 34/42] fix: load arrays of single characters stored by hickle
 4.x

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 1d7a280..d0910b2 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -249,7 +249,7 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         return np.empty(load_shape(h_node.attrs,(0,)),dtype=dtype)
     if "str" in dtype.name:
         string_data = h_node[()]
-        if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
+        if (h_node.dtype.itemsize <= 1 and h_node.shape[:-1] == (1,)) or 'bytes' not in h_node.dtype.name:
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
             # not converted to list of string but saved as ar consequently
             # itemsize of dtype is > 1
-- 
2.43.0


From 32ca6aa862f9f09233aaf9ab98a1e12e9d5a3b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:29 +0000
Subject: [PATCH 35/42] fix: do not load strings of hickle 3.x files as bytes
 if reading their type fails

---
 hickle/legacy_v3/loaders/load_python3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 6a4e89a..7451139 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -35,7 +35,7 @@ def get_py3_string_type(h_node):
     try:
         py_type = h_node.attrs["py3_string_type"][0]
         return py_type
-    except:
+    except KeyError:
         return None
 
 def create_listlike_dataset(py_obj, h_group, call_id=0, **kwargs):
-- 
2.43.0


From e9bdaec48a6755d2d750009de41700f8d0468099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 36/42] fix: keep attributes set by the container of a table
 out of its meta data

---
 hickle/loaders/load_astropy.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 254555f..40046de 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -187,7 +187,7 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
 
 
 # attributes set by hickle
-_hickle_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+_hickle_attrs = {'type','base_type','colnames','meta_keys','item_index','key_idx','key_base_type'}
 
 def is_attribute(key, value):
     """
@@ -235,6 +235,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
 
     colnames = [cn.encode('ascii') for cn in py_obj.colnames]
     d.attrs['colnames'] = colnames
+    # tell meta data and attributes set by the container of the table apart
+    d.attrs['meta_keys'] = np.array([key.encode('utf8') for key in py_obj.meta],dtype='S')
     for key, value in py_obj.meta.items():
         d.attrs[key] = value
     return d,()
@@ -401,14 +403,18 @@ def load_astropy_table(h_node,base_type,py_obj_type):
     """
 
     colnames = load_str_list_attr_ascii(h_node.attrs,"colnames")
+    meta_keys = h_node.attrs.get('meta_keys')
+    if meta_keys is None:
+        meta_keys = set(h_node.attrs) - _hickle_attrs
+    else:
+        meta_keys = [bytes(metakey).decode('utf8') for metakey in meta_keys]
 
     t = py_obj_type(
         h_node[()],
         names = colnames,
         meta = {
-            metakey:metavalue 
-            for metakey,metavalue in h_node.attrs.items()
-            if metakey not in _hickle_attrs
+            metakey:h_node.attrs[metakey]
+            for metakey in meta_keys
         }
     )
     return t
-- 
2.43.0


From 56e32ad59aa2b8735e759453c539dfc6cc68408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:52 +0000
Subject: [PATCH 37/42] fix: dump lists of numbers and sequences which numpy
 can not convert

---
 hickle/loaders/load_builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index da7e93c..bd4fb27 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -141,8 +141,9 @@ def check_iterable_item_type(first_item,iter_obj):
         try:
             if np.ndim(item) != 0:
                 return None
-        except ValueError:
-            # item is a nested sequence which has no rectangular shape
+        except (ValueError,TypeError):
+            # item is a nested sequence which has no rectangular shape or which
+            # numpy can not convert to an array
             return None
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
         if ( 
-- 
2.43.0


From 9ca946e8c197dcd04ab738bfaf6d356bca5670f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:45 +0000
Subject: [PATCH 38/42] fix: load objects dumped to a group of a file made by
 hickle 3.x

---
 hickle/hickle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 23916cc..fa8c8e5 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -382,8 +382,9 @@ def load(file_obj, path='/', safe=True, filename = None):
         v3_attrs = ['CLASS', 'VERSION', 'PYTHON_VERSION']
         v4_attrs = ['HICKLE_VERSION', 'HICKLE_PYTHON_VERSION']
 
-        # Check if the proper attributes for v3 loading are available
-        if all(map(h5f.attrs.get, v3_attrs)):
+        # Check if the proper attributes for v3 loading are available, unless
+        # h_root_group was added to the file by a newer version
+        if all(map(h5f.attrs.get, v3_attrs)) and not all(map(h_root_group.attrs.get, v4_attrs)):
             # Check if group attribute 'CLASS' has value 'hickle
             if(h5f.attrs['CLASS'] not in ( b'hickle','hickle')):  # pragma: no cover
                 # If not, raise error
-- 
2.43.0


From 713afbd4b8c105df0b5b785ca676d0864f8b13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:45 +0000
Subject: [PATCH 39/42] fix: ignore groups and datasets next to an object
 stored by hickle 3.x

---
 hickle/legacy_v3/hickle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 5c3a77b..7ba08c8 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -597,6 +597,10 @@ def _load(py_container, h_group):
         else:
             h_keys = h_group.keys()
 
+        if py_subcontainer.container_type == b'hickle':
+            # anything else found next to the object does not belong to it
+            h_keys = [h_name for h_name in h_keys if h_name.startswith(b'data_')] or h_keys
+
         for h_name in h_keys:
             h_node = h_group[h_name]
             py_subcontainer = _load(py_subcontainer, h_node)
-- 
2.43.0


From 9a2752404fc2a3372102ea1a946dcde7658761bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:50 +0000
Subject: [PATCH 40/42] fix: process a loader again if registering its classes
 was interrupted

---
 hickle/lookup.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index dba8eac..f6068a8 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1315,10 +1315,17 @@ class LoaderManager(BaseManager):
                 sys.modules[loader_name] = loader
     
             # load all loaders defined by loader module
-            for next_loader in loader.class_register:
-                self.register_class(*next_loader)
-            for drop_loader in ( loader if isinstance(loader,(list,tuple)) else (loader,None) for loader in loader.exclude_register) :
-                self.register_class_exclude(*drop_loader)
+            try:
+                for next_loader in loader.class_register:
+                    self.register_class(*next_loader)
+                for drop_loader in ( loader if isinstance(loader,(list,tuple)) else (loader,None) for loader in loader.exclude_register) :
+                    self.register_class_exclude(*drop_loader)
+            except BaseException:
+                # loader is incomplete, ensure that it will be processed again next time
+                for known_type in (mro_item,*(next_loader[0] for next_loader in loader.class_register)):
+                    for known_types in self.__class__.__py_types__.values():
+                        known_types.pop(known_type,None)
+                raise
             loaded_loaders.add(loader_name)
     
             # check if loader module defines a loader for base_class mro_item
-- 
2.43.0


From 260ebbdb057faf13d0862020454d07c756df85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 41/42] fix: load scalar quantities of hickle 3.x files with
 numpy 2

---
 hickle/legacy_v3/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_astropy.py b/hickle/legacy_v3/loaders/load_astropy.py
index 17ca3d4..fa6d640 100644
--- a/hickle/legacy_v3/loaders/load_astropy.py
+++ b/hickle/legacy_v3/loaders/load_astropy.py
@@ -147,7 +147,7 @@ def create_astropy_table(py_obj, h_group, call_id=0, **kwargs):
 def load_astropy_quantity_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
     unit = h_node.attrs["unit"][0]
-    q = Quantity(data, unit, copy=False)
+    q = Quantity(data, unit)
     return q
 
 def load_astropy_time_dataset(h_node):
-- 
2.43.0


From f7d5410858f31843737cbe61843e9a3110e2fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:13 +0000
Subject: [PATCH 42/42] fix: names of the columns of tables stored with h5py 2

---
 hickle/loaders/load_astropy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 40046de..530e673 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -402,7 +402,11 @@ def load_astropy_table(h_node,base_type,py_obj_type):
     resulting py_obj_type
     """
 
-    colnames = load_str_list_attr_ascii(h_node.attrs,"colnames")
+    colnames = [
+        # h5py < 3 stored the list as array of fixed length bytes
+        cn.decode('ascii') if isinstance(cn,bytes) else cn
+        for cn in load_str_list_attr_ascii(h_node.attrs,"colnames")
+    ]
     meta_keys = h_node.attrs.get('meta_keys')
     if meta_keys is None:
         meta_keys = set(h_node.attrs) - _hickle_attrs
-- 
2.43.0

