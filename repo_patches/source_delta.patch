From 059a57bbdfd08f1cea5d3384e6b4e6d1848e9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 01/30] fix: reserve the py/b64 and py/b85 tags

User dict keys and attribute names that spell one of these two tags were
written as they are, so the decoder turned the whole dict into bytes.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From 52aec8e687966906bb8fb8f9876565c6addd817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:23 +0000
Subject: [PATCH 02/30] fix: number escaped string keys in the order they are
 decoded

With keys=True the decoder restores all escaped keys in a second pass.
The encoder escaped colliding string keys in its first pass, so the
reference numbers of the values after them did not match.
---
 jsonpickle/pickler.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..4042f18 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -199,6 +199,11 @@ def _mktyperef(obj: type) -> dict[str, str]:
     return {tags.TYPE: util.importable_name(obj)}
 
 
+def _must_escape(k: Any) -> bool:
+    """Does this key collide with the json:// prefix or a reserved wire tag?"""
+    return isinstance(k, str) and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
+
+
 def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     """Converts __slots__ = 'a' into __slots__ = ('a',)"""
     if isinstance(string, str):
@@ -820,7 +825,11 @@ class Pickler:
     def _flatten_non_string_key_value_pair(
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
-        """Flatten only non-string key/value pairs"""
+        """Flatten only non-string and escaped key/value pairs"""
+        if self.keys and _must_escape(k):
+            # must run before _is_picklable, which drops RESERVED keys.
+            data[self._escape_key(k)] = self._flatten(v)
+            return data
         if not util._is_picklable(k, v):
             return data
         if self.keys and not isinstance(k, str):
@@ -832,14 +841,8 @@ class Pickler:
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self.keys and _must_escape(k):
+            # The unpickler restores escaped keys last, so do the same here.
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From a142ac689b759b3a48bc16747923c9e028f1cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:27 +0000
Subject: [PATCH 03/30] fix: keep cached objects alive while their id is a
 cache key

bytes and bytearray objects were cached by id but not kept alive.  A
later temporary object with the same id was encoded as the earlier one.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4042f18..46d7e03 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -350,6 +350,8 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
+                # the id() must not be reused while it is a key of the cache
+                self._seen.append(obj)
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
         return result
 
-- 
2.43.0


From c5ba75034f57172875f4b2215964a5300d0d56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:30 +0000
Subject: [PATCH 04/30] fix: do not recurse forever into cyclic lists and dicts

With unpicklable=False a list or dict that contains itself raised
RecursionError.  The cycle now becomes None, as it does for instances.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 46d7e03..6f0642d 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -936,6 +936,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and _in_cycle(obj, self._objs, False, False):
+                # A circular becomes None.
+                return lambda obj: None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From c77931cefda855a5733d9cf60fbc43fbdcf916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:33 +0000
Subject: [PATCH 05/30] fix: replace proxies in dicts decoded with keys=True

The pass over ordinary string keys did not register proxies, so internal
placeholder objects were left in the decoded dict.
---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..21cf7ab 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -918,7 +918,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From a0f35c75598174aa994dbddc64b0470dc32a1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:37 +0000
Subject: [PATCH 06/30] fix: replace proxies in items of dict subclasses

The items of a dict subclass were registered as attributes, so internal
placeholder objects were left in the decoded mapping.
---
 jsonpickle/unpickler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 21cf7ab..12b0e49 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -717,6 +717,7 @@ class Unpickler:
                         deferred[k] = value
                     self._namestack.pop()
                     continue
+                method = _obj_setvalue
             else:
                 if not k.startswith("__"):
                     try:
-- 
2.43.0


From efdb9d89d23fe40422fb381369aa04dd79ff03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:40 +0000
Subject: [PATCH 07/30] fix: round-trip compiled bytes patterns

The bytes pattern was handed to the JSON backend as it is.  It failed to
encode, or came back as a str pattern.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f7cad2c 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -241,12 +241,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From ea5a6cecffb1968605cdc7492a4866c4a6ffe5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:44 +0000
Subject: [PATCH 08/30] fix: honour _jsonpickle_exclude in sequence subclasses

Excluded attributes of list, set and tuple subclasses were written.
---
 jsonpickle/pickler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6f0642d..d2a3ddd 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -747,7 +747,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -757,7 +757,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -970,11 +970,14 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self,
+        obj: Iterable[Any],
+        data: dict[str, Any],
+        exclude: Iterable[Any] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 5e5888e9b048ee01dff0bdf77215f1e2ca8a6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:47 +0000
Subject: [PATCH 09/30] fix: honour _jsonpickle_exclude when properties are
 included

With include_properties=True an excluded property was written.
---
 jsonpickle/pickler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index d2a3ddd..1b8a5f5 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -538,6 +538,7 @@ class Pickler:
         obj: Any,
         data: dict[str, Any],
         allslots: Iterable[Sequence[str]] | None = None,
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         if allslots is None:
             # setting a list as a default argument can lead to some weird errors
@@ -548,7 +549,11 @@ class Pickler:
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
-            return not x[0].startswith("__") and x[0] not in allslots_set
+            return (
+                not x[0].startswith("__")
+                and x[0] not in allslots_set
+                and x[0] not in exclude
+            )
 
         properties = [
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
@@ -580,7 +585,7 @@ class Pickler:
 
         # add properties to the attribute list
         if self.include_properties:
-            data = self._flatten_properties(obj, data, allslots)
+            data = self._flatten_properties(obj, data, allslots, exclude=exclude)
 
         if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
             attrs = [
@@ -648,7 +653,7 @@ class Pickler:
             return result
 
         if self.include_properties:
-            data = self._flatten_properties(obj, data)
+            data = self._flatten_properties(obj, data, exclude=exclude)
 
         if self.unpicklable:
             # test for a reduce implementation, and redirect before
-- 
2.43.0


From 40d6606fd75d127459f5b28270c6d36c059fceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:50 +0000
Subject: [PATCH 10/30] fix: do not list a backend twice when it is loaded
 again

Removing a backend that was loaded twice left its name behind, and later
calls failed with KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From ac7392dfd0fd04b79e8a76b4ae79eda596fa58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:54 +0000
Subject: [PATCH 11/30] fix: do not modify the data passed to restore

Restoring the same parsed document a second time lost the default_factory
of defaultdicts.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 12b0e49..132139b 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -819,6 +819,8 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
 
+        # loading the factory removes it, so leave the data of the caller alone
+        obj = dict(obj)
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
         factory = self._loadfactory(obj)
-- 
2.43.0


From c01637a6474c44416d40636822ed274fbe1733db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:57 +0000
Subject: [PATCH 12/30] fix: unregister the numpy datetime64 handler

unregister_handlers() left it in the registry.
---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From f3b5fbd00f6ca41b413eb8e6529f1caaacc9da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:01 +0000
Subject: [PATCH 13/30] fix: flatten numpy scalars with
 UnpickleableNumpyGenericHandler

With unpicklable=True it called the abstract method of the base handler
and raised NotImplementedError.
---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3ed4f36..d2f10aa 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -94,7 +94,7 @@ class UnpickleableNumpyGenericHandler(NumpyGenericHandler):
         if not self.context.unpicklable:
             return self.context.flatten(obj.tolist(), reset=False)
         else:
-            return super(NumpyGenericHandler, self).flatten(obj, data)
+            return super().flatten(obj, data)
 
     def restore(self, data: dict[str, Any]) -> NoReturn:
         raise NotImplementedError
-- 
2.43.0


From c82e148b6a60c654e50f981818732d4231bed014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 14/30] fix: do not overwrite attributes when handle_readonly
 is set

The probe assigned the value of any nested key with the same name as an
attribute of the encoded object to that attribute.
---
 jsonpickle/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..ac208d7 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -344,7 +344,8 @@ def _is_cython_function(obj: Any) -> bool:
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
-        setattr(obj, attr, value)
+        # probe with the current value, so that obj is not modified
+        setattr(obj, attr, getattr(obj, attr, value))
         return False
     except AttributeError:
         # this is okay, it means the attribute couldn't be set
-- 
2.43.0


From c41f026b4e039a8265df0d0268a978159167ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:08 +0000
Subject: [PATCH 15/30] fix: follow the whole dotted name returned by
 __reduce__

Only the first attribute after the module was looked up.
---
 jsonpickle/pickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1b8a5f5..54e148a 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -668,8 +668,8 @@ class Pickler:
                     curmod = sys.modules[next(varpath)]
                     for modname in varpath:
                         curmod = getattr(curmod, modname)
-                        # replace obj with value retrieved
-                        return self._flatten(curmod)
+                    # replace obj with value retrieved
+                    return self._flatten(curmod)
                 except KeyError:
                     # well, we can't do anything with that, so we ignore it
                     pass
-- 
2.43.0


From 8b8430eb77c11cd7c7bf2417f0ebb9f96b40c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:45 +0000
Subject: [PATCH 16/30] fix: resolve references to an iterator to the iterator

A second occurrence of an iterator was restored as the list behind it.
---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 132139b..e28386d 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -498,9 +498,13 @@ class Unpickler:
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            items = self._restore_list(obj[tags.ITERATOR])
         except TypeError:
             return iter([])
+        iterator = iter(items)
+        # later references are to the iterator, not to the list behind it
+        self._swapref(items, iterator)
+        return iterator
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
-- 
2.43.0


From 0d0c27d0dadcd41ddfbd03d5efd49af561f64793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:36 +0000
Subject: [PATCH 17/30] fix: replace proxies in elements of list subclasses

---
 jsonpickle/unpickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e28386d..5578e06 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -805,7 +805,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append(
+                            (instance, len(instance) - 1, value, _obj_setvalue)
+                        )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From 0d4543db8f2ba1decd3135384bdfcf50a8683954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:36 +0000
Subject: [PATCH 18/30] fix: keep reference IDs in step when fail_safe replaces
 an object

An object that could not be encoded stayed counted, together with
everything logged while it was being encoded. Each later reference then
pointed past the object it was meant for.
---
 jsonpickle/pickler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 54e148a..8ca7175 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -338,6 +338,13 @@ class Pickler:
         pretend_new = not self.unpicklable or not self.make_refs
         return pretend_new or is_new
 
+    def _forget_refs(self, num_refs: int) -> None:
+        """
+        Forget all references logged after the first num_refs
+        """
+        while len(self._objs) > num_refs:
+            self._objs.popitem()
+
     def _getref(self, obj: Any) -> dict[str, int]:
         """Return a "py/id" entry for the specified object"""
         return {tags.ID: self._objs.get(id(obj))}  # type: ignore[dict-item]
@@ -425,6 +432,7 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        num_refs = len(self._objs)
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -447,6 +455,9 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                # What was logged meanwhile is not part of the document, and
+                # counting it would shift the IDs of all later references.
+                self._forget_refs(num_refs)
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From 8d360cd0f82e0b4d3fdaa9566b4254eb206ddc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:05 +0000
Subject: [PATCH 19/30] fix: do not count objects held by properties as
 references

With include_properties, the objects in py/property got IDs although
decoding does not restore them. Each later reference then pointed past the
object it was meant for.
---
 jsonpickle/pickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 8ca7175..324d7b9 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -570,6 +570,7 @@ class Pickler:
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
         ]
 
+        num_refs = len(self._objs)
         properties_dict = {}
         for p_name in properties:
             p_val = getattr(obj, p_name)
@@ -578,6 +579,9 @@ class Pickler:
             else:
                 properties_dict[p_name] = self._flatten(p_val)
 
+        # Properties are not restored, so the IDs of what they hold are not
+        # counted when decoding either.
+        self._forget_refs(num_refs)
         data[tags.PROPERTY] = properties_dict
 
         return data
-- 
2.43.0


From e024a4302d5a7e2f8f57a0ca9247a43c1e991189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:16 +0000
Subject: [PATCH 20/30] fix: number an object that cannot be instantiated only
 once

The placeholder and the dict that was returned for it each got an ID, so
references to it gave None and later references pointed past the object
they were meant for.
---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 5578e06..e921c0f 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -866,7 +866,10 @@ class Unpickler:
                     instance = make_blank_classic(cls)
                 except Exception:  # ruff: ignore[BLE001]
                     self._process_missing(class_name)
-                    return self._mkref(obj)
+                    # the proxy has been numbered already
+                    proxy.reset(obj)
+                    self._swapref(proxy, obj)
+                    return obj
 
         proxy.reset(instance)
         self._swapref(proxy, instance)
-- 
2.43.0


From 58a93193687c3ec0b29142e3bc7469153bc85e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:29 +0000
Subject: [PATCH 21/30] fix: do not resolve negative reference IDs

They were taken as an index from the end of the objects restored so far.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e921c0f..7329a35 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -602,6 +602,8 @@ class Unpickler:
     def _restore_id(self, obj: dict[str, Any]) -> Any:
         try:
             idx = obj[tags.ID]
+            if idx < 0:
+                return None
             return self._objs[idx]
         except IndexError:
             return _IDProxy(self._objs, idx)
-- 
2.43.0


From 14c6c8374bb11631debe613457973fd46a57fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:35 +0000
Subject: [PATCH 22/30] fix: do not return the stand-in for an unknown
 reference ID

A document that is nothing but such a reference decoded to an internal
object instead of None.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 7329a35..ec48878 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -404,6 +404,8 @@ class Unpickler:
         value = self._restore(obj)
         if reset:
             self._swap_proxies()
+            if isinstance(value, _Proxy):
+                value = value.get()
         return value
 
     def register_classes(self, classes: ClassesType) -> None:
-- 
2.43.0


From ece8fa85af08a8031aa2246b3d1de0c4e2871ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:38 +0000
Subject: [PATCH 23/30] fix: keep the byte order of numpy arrays and views

Views of arrays in the other byte order, views of structured arrays and
structured arrays with fields in the other byte order came back with
their bytes swapped.
---
 jsonpickle/ext/numpy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index d2f10aa..92a1c57 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,12 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def native_dtype(arr: _HasDType) -> np.dtype[Any]:
+    """the dtype in native order, when the order is stored separately"""
+    # the fields of a structured dtype each have an order of their own
+    return arr.dtype if arr.dtype.fields else arr.dtype.newbyteorder("N")
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -112,7 +118,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
         if 0 in obj.shape:
@@ -202,7 +208,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -335,13 +341,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj), data)
             self.flatten_flags(obj, data)
 
             if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+                data["byteorder"] = get_byteorder(obj)
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
@@ -379,7 +383,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(native_dtype(obj), data)
                 self.flatten_flags(obj, data)
 
                 if get_byteorder(obj) != "|":
-- 
2.43.0


From 929d7ad042b31e847ac34fb386c7356be105a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:57 +0000
Subject: [PATCH 24/30] fix: keep the memory layout of numpy arrays stored as
 binary

Arrays that are neither C nor Fortran contiguous were written in C order
but labelled as Fortran order.  Arrays in Fortran order were restored in
C order, so that views of them were restored with the wrong elements.
---
 jsonpickle/ext/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 92a1c57..5ee4471 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -212,7 +212,8 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
-            if not obj.flags.c_contiguous:
+            # tobytes() writes anything else in C order
+            if obj.flags.fnc:
                 data["order"] = "F"
 
         return data
@@ -246,7 +247,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy(order="K")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From cf4f665159a8755f2bda7c52e97c4f3f3bbab5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:11 +0000
Subject: [PATCH 25/30] fix: restore views of numpy date arrays

Reading the buffer of such an array raises ValueError.
---
 jsonpickle/ext/numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 5ee4471..a2131d2 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -429,7 +429,10 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             # decode array view, which references the data of another array
             base = self.context.restore(base, reset=False)
             buffer: Any
-            if isinstance(base, np.ndarray):
+            if isinstance(base, np.ndarray) and base.dtype.kind in "mM":
+                # dates have no buffer format, but their bytes do
+                buffer = base.ravel(order="K").view(np.uint8)
+            elif isinstance(base, np.ndarray):
                 buffer = base.data
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
-- 
2.43.0


From bef98fecba886113676a17843ba869edb0787245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:37 +0000
Subject: [PATCH 26/30] fix: restore numpy arrays without dimensions

Numbers came back as arrays with one element and anything else was taken
for the binary representation.
---
 jsonpickle/ext/numpy.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index a2131d2..5b36141 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -221,12 +221,9 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         """decode numpy from json"""
         values = data["values"]
-        if isinstance(values, list):
-            # decode text representation
+        if isinstance(values, list) or "shape" not in data:
+            # decode text representation, the binary one always has a shape
             arr = super().restore(data)
-        elif isinstance(values, (int, float)):
-            # single-value array
-            arr = np.array([values], dtype=self.restore_dtype(data))
         else:
             # decode binary representation
             dtype = self.restore_dtype(data)
-- 
2.43.0


From 0a699a96a0ab164fe9d89aacf3fc751ce5813e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:57 +0000
Subject: [PATCH 27/30] fix: store numpy arrays that hold objects as text

Larger ones went through json.dumps, which fails for most objects and
turns tuples into lists.  Structured arrays with object fields were
stored as pointers.
---
 jsonpickle/ext/numpy.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 5b36141..4594a7f 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -177,27 +177,17 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-        if self.size_threshold is None or self.size_threshold >= obj.size:
+        if (
+            self.size_threshold is None
+            or self.size_threshold >= obj.size
+            # the bytes of objects are pointers
+            or obj.dtype.hasobject
+        ):
             # encode as text
             data = super().flatten(obj, data)
         else:
             # encode as binary
-            if obj.dtype == object:
-                # There's a bug deep in the bowels of numpy that causes a
-                # segfault when round-tripping an ndarray of dtype object.
-                # E.g., the following will result in a segfault:
-                #     import numpy as np
-                #     arr = np.array([str(i) for i in range(3)],
-                #                    dtype=object)
-                #     dtype = arr.dtype
-                #     shape = arr.shape
-                #     buf = arr.tobytes()
-                #     del arr
-                #     arr = np.ndarray(buffer=buf, dtype=dtype,
-                #                      shape=shape).copy()
-                # So, save as a binary-encoded list in this case
-                buf = json.dumps(obj.tolist()).encode()
-            elif hasattr(obj, "tobytes"):
+            if hasattr(obj, "tobytes"):
                 # numpy docstring is lacking as of 1.11.2,
                 # but this is the option we need
                 buf = obj.tobytes(order="A")
@@ -230,8 +220,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             buf = b64decode(values)
             if self.compression:
                 buf = self.compression.decompress(buf)
-            # See note above about segfault bug for numpy dtype object. Those
-            # are saved as a list to work around that.
+            # Older versions stored arrays of objects as a list in binary form
             if dtype == object:
                 values = json.loads(buf.decode())
                 arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
-- 
2.43.0


From 8aae2545fc33f53e07c5146a8099bd0371001039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:47 +0000
Subject: [PATCH 28/30] fix: keep the name of a pandas index that is not a
 tuple

A name such as 'foo' came back as ('f', 'o', 'o') and a number raised.
---
 jsonpickle/ext/pandas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..c7ab0e5 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -377,7 +377,8 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            # JSON turns tuples into lists
+            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 3959dcbdd00a84706183193bcb4e023e148b13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:25 +0000
Subject: [PATCH 29/30] fix: store uncompressed pandas text as bytes

PandasProcessor with compression=None raised above the size threshold
because base64 needs bytes.
---
 jsonpickle/ext/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index c7ab0e5..18b46a0 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -85,11 +85,11 @@ class PandasProcessor:
         self, buf: str, data: dict[str, Any], meta: dict[str, Any] | None = None
     ) -> dict[str, Any]:
         if self.size_threshold is not None and len(buf) > self.size_threshold:
+            raw = buf.encode()
             if self.compression:
-                buf = self.compression.compress(buf.encode())
+                raw = self.compression.compress(raw)
                 data["comp"] = True
-            # we have a mypy error here, not sure what the fix is so i'm silencing it temporarily
-            data["values"] = b64encode(buf)  # type: ignore[arg-type]
+            data["values"] = b64encode(raw)
             data["txt"] = False
         else:
             data["values"] = buf
@@ -103,9 +103,10 @@ class PandasProcessor:
             # It's just text...
             buf = data["values"]
         else:
-            buf = b64decode(data["values"])
+            raw = b64decode(data["values"])
             if data.get("comp", False):
-                buf = self.compression.decompress(buf).decode()
+                raw = self.compression.decompress(raw)
+            buf = raw.decode()
         meta = data.get("meta", {})
         return (buf, meta)
 
-- 
2.43.0


From a643a629f5ee1e846af35309b5fbc06e0e5cbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:30 +0000
Subject: [PATCH 30/30] fix: restore pandas series named by a tuple

The name came back as a list, which pandas rejects.
---
 jsonpickle/ext/pandas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 18b46a0..35b54d0 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -355,6 +355,9 @@ class PandasSeriesHandler(BaseHandler):
     def restore(self, data: dict[str, Any]) -> pd.Series:
         """Restore the flattened data"""
         name = data["name"]
+        if isinstance(name, list):
+            # JSON turns tuples into lists
+            name = tuple(name)
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
         return pd.Series(values, index=index, name=name)
-- 
2.43.0

