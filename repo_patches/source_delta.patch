From b7f163ad46f6e577ad4a4d4b100d5fa8601668ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 01/39] fix: overlapping iterations of IterableFromIterator
 lose items

---
 marsh/utils.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..ed98e66 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import threading
 import weakref
 import types
 import typing
@@ -970,16 +971,26 @@ class IterableFromIterator(Generic[_T]):
         self,
         iterator: Iterator[_T],
     ) -> None:
-        self._iter = iterator
+        self._iter = iter(iterator)
         self._cache: list = []
+        self._lock = threading.RLock()
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            if index == len(self._cache):
+                # only advance the wrapped iterator if no other
+                # ongoing iteration did so already.
+                with self._lock:
+                    if index == len(self._cache):
+                        try:
+                            self._cache.append(next(self._iter))
+                        except StopIteration:
+                            return
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From efb6efa027ada11905003285972272b538f93e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 02/39] fix: ValueCache/SafeDict mix up keys with equal hash
 and unhashable keys

---
 marsh/utils.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index ed98e66..c062904 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -493,6 +493,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
@@ -588,9 +589,10 @@ class SafeDict(MutableMapping[_K, _V]):
         except TypeError:
             if not self._unhashable_cache:
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
-            for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for i, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache[-i] = (key, value)
+                    self._unhashable_cache[i] = (key, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -607,24 +609,31 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._remove_order(False, key_idx)
+                    self._unhashable_cache.pop(key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        # the remaining keys of the same kind are shifted
+        # when a key is removed
+        self._order = [
+            (kind, i - 1 if kind is hashable and i > index else i)
+            for kind, i in self._order
+            if (kind, i) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 6dc9c301defdd29931b91734b77815853913e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 03/39] fix: cached results from before a clear survive it,
 binding=ignore mixes up objects between threads

---
 marsh/utils.py | 65 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index c062904..85cd1c9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -394,6 +394,15 @@ def cache(
         cached_func: Callable[..., _T]
         delegating_func: Callable[..., _T]
         disabled = False
+        # Part of each key in the underlying cache. It is replaced when the
+        # cache is cleared so that the result of a call that was started
+        # before that is not found by the calls started after.
+        generation = object()
+
+        def cache_clear() -> None:
+            nonlocal generation
+            generation = object()
+            lru_cached_func.cache_clear()
 
         def cache_disable() -> None:
             nonlocal disabled
@@ -404,13 +413,13 @@ def cache(
             disabled = False
 
         if binding == 'ignore':
-            _self: Any = None
 
             def cached_func(
+                self: _IgnoredArgument,
                 *args,
                 **kwargs,
             ) -> _T:
-                return func(_self, *args, **kwargs)
+                return func(self.value, *args, **kwargs)
 
             def delegating_func(
                 self,
@@ -419,9 +428,12 @@ def cache(
             ) -> _T:
                 if disabled:
                     return func(self, *args, **kwargs)
-                nonlocal _self
-                _self = self
-                return cached_func(*args, **kwargs)
+                ignored = _IgnoredArgument(self)
+                try:
+                    return lru_cached_func(generation, ignored, *args, **kwargs)
+                finally:
+                    # may be kept as part of a key in the cache
+                    ignored.value = None
 
         elif binding == 'weak':
 
@@ -439,7 +451,7 @@ def cache(
             ) -> _T:
                 if disabled:
                     return func(self, *args, **kwargs)
-                return cached_func(weakref.ref(self), *args, **kwargs)
+                return lru_cached_func(generation, weakref.ref(self), *args, **kwargs)
 
         elif binding is None:
             cached_func = func
@@ -450,11 +462,20 @@ def cache(
             ) -> _T:
                 if disabled:
                     return func(*args, **kwargs)
-                return cached_func(*args, **kwargs)
+                return lru_cached_func(generation, *args, **kwargs)
 
         else:
             raise ValueError(f'unexpected `binding` value: {binding}')
-        cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(cached_func)
+
+        @functools.lru_cache(maxsize=maxsize, typed=typed)
+        def lru_cached_func(
+            _: object,
+            /,
+            *args,
+            **kwargs,
+        ) -> _T:
+            return cached_func(*args, **kwargs)
+
         if safe:
             unsafe_delegating_func = delegating_func
 
@@ -466,8 +487,8 @@ def cache(
 
         wrapped_func = functools.wraps(func)(delegating_func)
         wrapped_func.__wrapped__ = func  # type: ignore
-        wrapped_func.cache_clear = cached_func.cache_clear  # type: ignore
-        wrapped_func.cache_info = cached_func.cache_info  # type: ignore
+        wrapped_func.cache_clear = cache_clear  # type: ignore
+        wrapped_func.cache_info = lru_cached_func.cache_info  # type: ignore
         wrapped_func.cache_disable = cache_disable  # type: ignore
         wrapped_func.cache_enable = cache_enable  # type: ignore
         return wrapped_func
@@ -476,6 +497,30 @@ def cache(
     return wrapper(fn)
 
 
+class _IgnoredArgument:
+    """Holds an argument that should not be considered
+    when performing a lookup in a cache."""
+
+    __slots__ = ('value',)
+
+    def __init__(
+        self,
+        value: Any,
+    ) -> None:
+        self.value = value
+
+    def __eq__(
+        self,
+        other: Any,
+    ) -> bool:
+        return isinstance(other, _IgnoredArgument)
+
+    def __hash__(
+        self,
+    ) -> int:
+        return hash(_IgnoredArgument)
+
+
 class _CachedHashKey(list):
     """Caches the hash value of an item.
 
-- 
2.43.0


From 6f1841d5faf67f45c15b2f34132c861e5f3acfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 04/39] fix: adding to a PriorityOrder disturbs iterations in
 progress and never detects duplicates

---
 marsh/utils.py | 133 +++++++++++++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 54 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 85cd1c9..54837fc 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -6,6 +6,7 @@ import dataclasses
 import difflib
 import functools
 import inspect
+import itertools
 import os
 import shutil
 import sys
@@ -1161,7 +1162,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         index: int
         """Used to keep track of in what order values were added."""
 
-        _counter: ClassVar[int] = 0
+        _counter: ClassVar[Iterator[int]] = itertools.count()
         """Keeps track of the current count which is used to set
         the `index` value."""
 
@@ -1182,8 +1183,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                 lower=self.resolve_priorities(lower_priority),
                 higher=self.resolve_priorities(higher_priority),
             )
-            self.index = self.__class__._counter
-            self.__class__._counter += 1
+            self.index = next(self._counter)
 
         def __str__(
             self,
@@ -1209,13 +1209,22 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     def __init__(
         self,
     ) -> None:
+        # this list is never changed in place but replaced by a
+        # changed copy, as other threads may be iterating over it.
         self._values: List[PriorityOrder._WrappedValue[_T]] = []
+        self._lock = threading.RLock()
 
     def __len__(
         self,
     ) -> int:
         return len(self._values)
 
+    def __iter__(
+        self,
+    ) -> Iterator[_T]:
+        for wrapped in self._values:
+            yield wrapped.value
+
     @overload
     def __getitem__(
         self,
@@ -1249,33 +1258,59 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
         If the deleted value(s) had any relative priority relationship
         with the remaining values the entire priority order is recalculated."""
-        if isinstance(index, slice):
-            removed_values = self._values[index]
-        else:
-            removed_values = [self._values[index]]
-        del self._values[index]
-        # If removed value(s) had any relative priority relation
-        # with current values recalculate the entire order instead
-        # of doing something more fancy
-        for value in self._values:
-            for removed_value in removed_values:
-                if value.relative_priority.has_relation(removed_value.relative_priority):
-                    self.reload()
-                    return
+        with self._lock:
+            if isinstance(index, slice):
+                removed_values = self._values[index]
+            else:
+                removed_values = [self._values[index]]
+            values = list(self._values)
+            del values[index]
+            # If removed value(s) had any relative priority relation
+            # with current values recalculate the entire order instead
+            # of doing something more fancy
+            if any(
+                value.relative_priority.has_relation(removed_value.relative_priority)
+                for value in values
+                for removed_value in removed_values
+            ):
+                values = self._ordered(values)
+            self._values = values
 
     def reload(
         self,
     ) -> None:
         """Reshuffle values in this container based on priority."""
-        values = sorted(self._values, key=lambda x: x.index)
-        del self._values[:]
-        for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+        with self._lock:
+            self._values = self._ordered(self._values)
+
+    @classmethod
+    def _ordered(
+        cls,
+        values: 'Iterable[PriorityOrder._WrappedValue[_T]]',
+    ) -> 'List[PriorityOrder._WrappedValue[_T]]':
+        ordered: List[PriorityOrder._WrappedValue[_T]] = []
+        for value in sorted(values, key=lambda x: x.index):
+            cls._insert(ordered, value)
+        return ordered
+
+    @staticmethod
+    def _insert(
+        values: 'List[PriorityOrder._WrappedValue[_T]]',
+        wrapped: 'PriorityOrder._WrappedValue[_T]',
+    ) -> None:
+        # find insertion index for value based on priorities.
+        # circular priorities with a length larger than 1 do
+        # not raise an error.
+        idx = 0
+        for i, position in enumerate(values):
+            if wrapped.relative_priority > position.relative_priority:
+                break
+            if (
+                wrapped.relative_priority < position.relative_priority
+                or wrapped.priority < position.priority
+            ):
+                idx = i + 1
+        values.insert(idx, wrapped)
 
     @overload
     def add(
@@ -1311,36 +1346,26 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     ) -> Union[Callable[[_T], _T], _T]:
 
         def wrapper(value: _T) -> _T:
-            wrapped = self._WrappedValue(
-                value=value,
-                priority=priority,
-                lower_priority=lower_priority,
-                higher_priority=higher_priority,
-            )
+            with self._lock:
+                wrapped = self._WrappedValue(
+                    value=value,
+                    priority=priority,
+                    lower_priority=lower_priority,
+                    higher_priority=higher_priority,
+                )
+                values = list(self._values)
 
-            # does the value to be added already exist?
-            for i in range(len(self._values)):
-                if self._values[i] == wrapped:
-                    if replace:
-                        del self._values[i]
-                        break
-                    raise ValueError(
-                        f'{wrapped} already exists.',
-                    )
-
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(self._values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            self._values.insert(idx, wrapped)
+                # does the value to be added already exist?
+                for i in range(len(values)):
+                    if values[i].value == value:
+                        if replace:
+                            del values[i]
+                            break
+                        raise ValueError(
+                            f'{wrapped} already exists.',
+                        )
+                self._insert(values, wrapped)
+                self._values = values
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From bfdb93973fd595836315b18385722724d915d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 05/39] fix: SingletonMeta and WeakTypeCache are not safe to
 share between threads

---
 marsh/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 54837fc..a3fe7c7 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -218,15 +218,18 @@ class SingletonMeta(type):
     _instances: MutableMapping[Type[Any], Any] = \
         weakref.WeakKeyDictionary()
 
+    _lock: ClassVar[Any] = threading.RLock()
+
     def __call__(
         cls,
         *args,
         **kwargs,
     ) -> None:
         meta = type(cls)
-        if cls not in meta._instances:
-            meta._instances[cls] = super().__call__(*args, **kwargs)
-        return meta._instances[cls]
+        with meta._lock:
+            if cls not in meta._instances:
+                meta._instances[cls] = super().__call__(*args, **kwargs)
+            return meta._instances[cls]
 
 
 class _CacheInfoInputType(Protocol):
@@ -1401,7 +1404,8 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            # copied as other threads may be adding types
+            for ref in reversed(list(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From cc5021fb17530362485ea612cb8a19db92539b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 06/39] fix: built unmarshal schemas depend on earlier builds,
 failed builds and other threads

---
 marsh/schema/core/unmarshal.py | 202 ++++++++++++++++++++++++++-------
 1 file changed, 159 insertions(+), 43 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..1f148af 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -1,11 +1,10 @@
-import collections
 import dataclasses
 import importlib
+import itertools
 import threading
 from typing import (
     Any,
     Callable,
-    DefaultDict,
     ForwardRef,
     Generic,
     Iterable,
@@ -13,9 +12,11 @@ from typing import (
     NamedTuple,
     Optional,
     Sequence,
+    Tuple,
     Type,
     TypeVar,
     Union,
+    get_args,
     get_origin,
     overload,
 )
@@ -46,6 +47,7 @@ skip_cache_types = {
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
+    builds: Sequence[Any] = (),
 ) -> Any:
     name = ref.__forward_arg__
     mod = ''
@@ -59,7 +61,21 @@ def resolve_forward_ref(
             )
         except Exception:
             pass
-    for type_ in cache:
+    # Types that are being built are the ones that hold the reference,
+    # these are considered before any other type known from before.
+    builds = tuple(
+        type_
+        for type_ in builds
+        if not marsh.utils.is_typing_alias(type_)
+    )
+    for type_ in builds:
+        if (
+            marsh.utils.get_type_name(type_) == name
+            and getattr(type_, '__module__', None)
+            == getattr(builds[0], '__module__', None)
+        ):
+            return type_
+    for type_ in itertools.chain(builds, cache):
         if marsh.utils.get_type_name(type_) == name:
             return type_
         if hasattr(type_, '__module__'):
@@ -80,6 +96,7 @@ def resolve_forward_ref(
 def resolve_type(
     value: Any,
     cache: Iterable[Any],
+    builds: Sequence[Any] = (),
 ) -> Any:
     """Attempt to resolve unknown types (forward references).
 
@@ -88,6 +105,8 @@ def resolve_type(
     Arguments:
         value: The type to resolve.
         cache: A cache of types.
+        builds: The types for which a schema is currently
+            being built, the innermost first.
 
     Returns:
         The resolved type.
@@ -97,8 +116,9 @@ def resolve_type(
             value = resolve_forward_ref(
                 value,
                 cache,
+                builds,
             )
-            return resolve_type(value, cache)
+            return resolve_type(value, cache, builds)
     except marsh.errors.MarshError:
         raise
     except Exception:
@@ -106,6 +126,88 @@ def resolve_type(
     return value
 
 
+def is_distinct_type(
+    type_: Any,
+) -> bool:
+    """Test if a type is only equal to types that are unmarshaled the same.
+
+    Unions and literals compare equal regardless of the order of their
+    arguments and forward references compare equal regardless of
+    where they are used.
+
+    Arguments:
+        type_: The type to test.
+
+    Returns:
+        ``True`` if types that are equal to the type
+        are also unmarshaled the same, else ``False``.
+    """
+    if (
+        get_origin(type_) is Union
+        or isinstance(type_, ForwardRef)
+        or marsh.utils.is_literal(type_)
+    ):
+        return False
+    return all(map(is_distinct_type, get_args(type_)))
+
+
+def has_forward_ref(
+    type_: Any,
+) -> bool:
+    """Test if the arguments of a type includes a forward reference.
+
+    Arguments:
+        type_: The type to test.
+
+    Returns:
+        ``True`` if there is a forward reference, else ``False``.
+    """
+    return isinstance(type_, ForwardRef) or any(map(has_forward_ref, get_args(type_)))
+
+
+class _Build(NamedTuple):
+    """A schema that is being built."""
+
+    value: Any
+    """The type for which the schema is built."""
+
+    selection: base.SchemaSelection
+    """The schema types matched to the type."""
+
+
+class _Builds(threading.local):
+    """The schemas that are being built by the current thread."""
+
+    active: Tuple[_Build, ...] = ()
+    """The ongoing builds, each one nested in the previous one."""
+
+    def find_recursive(
+        self,
+        type_: Any,
+    ) -> int:
+        """Find the ongoing build of a type.
+
+        Arguments:
+            type_: The type to find.
+
+        Returns:
+            The index of the build, or ``-1`` if there is none.
+        """
+        context_changed = False
+        for i, build in reversed(tuple(enumerate(self.active))):
+            if (
+                build.value is type_
+                or build.value == type_
+                and not (context_changed and has_forward_ref(type_))
+            ):
+                return i
+            if not marsh.utils.is_typing_alias(build.value):
+                # names are not looked up in the same place
+                # inside this type as they are outside of it
+                context_changed = True
+        return -1
+
+
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     def cache_clear(
@@ -189,13 +291,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         recursion: marsh.utils.CacheInfo
         build: marsh.utils.CacheInfo
 
-    _recursive_cache: DefaultDict[
-        int,
-        marsh.utils.ValueCache[
-            Type[Any],
-            base.SchemaSelection,
-        ],
-    ] = collections.defaultdict(marsh.utils.ValueCache)
+    _builds: _Builds = _Builds()
 
     type_cache: marsh.utils.WeakTypeCache = \
         marsh.utils.WeakTypeCache(skip_types=skip_cache_types)
@@ -207,8 +303,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
     def __init_subclass__(
         metacls,  # noqa: B902
     ) -> None:
-        metacls._recursive_cache = \
-            collections.defaultdict(marsh.utils.ValueCache)
+        metacls._builds = _Builds()
         metacls.type_cache = \
             marsh.utils.WeakTypeCache(skip_types=skip_cache_types)
         if (
@@ -228,18 +323,18 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         if cls is not UnmarshalSchema:
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
-        value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
-            return cls._build(
-                value=value,
-                *args,
-                **kwargs,
-            )
-        return cls._cached_build(
-            value=value,
-            *args,
-            **kwargs,
+        builds = metacls._builds.active
+        value = resolve_type(
+            value,
+            cache=metacls.type_cache,
+            builds=tuple(build.value for build in reversed(builds)),
         )
+        # A schema is only shared through the cache if there is nothing but
+        # its type that affects how it is built. Default values are not part
+        # of the cache as different values may be equal (`0 == False`).
+        if builds or args or kwargs or not is_distinct_type(value):
+            return cls._build(value, *args, **kwargs)
+        return cls._cached_build(value)
 
     def _build(
         cls,  # noqa: B902
@@ -252,16 +347,20 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             metacls.type_cache.add(value)
         except TypeError:
             pass
-        recursive_cache = cls._recursive_cache[threading.get_ident()]
-        if recursive_cache:
-            try:
-                return recursive_cache[value].build(value, *args, **kwargs)
-            except KeyError:
-                pass
-        result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        builds = metacls._builds.active
+        index = metacls._builds.find_recursive(value)
+        if index < 0:
+            selection = cls.registry.match(value)
+            nested_builds = builds + (_Build(value, selection),)
+        else:
+            selection = base.SchemaSelection([RecursiveReferenceUnmarshalSchema])
+            selection.extend(builds[index].selection)
+            nested_builds = builds[:index + 1]
+        try:
+            metacls._builds.active = nested_builds
+            return selection.build(value, *args, **kwargs)
+        finally:
+            metacls._builds.active = builds
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
@@ -271,21 +370,14 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
     def _cached_build(
         cls,  # noqa: B902
         value,
-        *args,
-        **kwargs,
     ):
-        return cls._build(
-            value=value,
-            *args,
-            **kwargs,
-        )
+        return cls._build(value)
 
     def cache_clear(
         cls,  # noqa: B902
     ) -> None:
         cls.registry.cache_clear()
         cls._cached_build.cache_clear()  # type: ignore
-        cls._recursive_cache.clear()
         cls.type_cache.clear()
 
     def cache_info(
@@ -293,7 +385,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
     ) -> 'UnmarshalSchemaMeta.CacheInfo':
         return dict(
             registry=cls.registry.cache_info(),
-            recursion=cls._recursive_cache[threading.get_ident()].cache_info(),
+            recursion=marsh.utils.CacheInfo(currsize=len(cls._builds.active)),
             build=cls._cached_build.cache_info(),  # type: ignore
         )
 
@@ -593,6 +685,30 @@ class WrapperUnmarshalSchema(
     ) -> None:
         super().__init__(*args, **kwargs)
         base.WrapperSchema.__init__(self, *args, **kwargs)
+        self._builds = type(type(self))._builds.active
+
+    @property
+    def schema(
+        self,
+    ) -> UnmarshalSchema[_T]:
+        """Lazy reference to inner schema. Constructed the first time it is
+        being accessed."""
+        builds = type(type(self))._builds
+        active = builds.active
+        try:
+            # build the inner schema in the same
+            # context as this schema was built
+            builds.active = self._builds
+            return super().schema
+        finally:
+            builds.active = active
+
+    @schema.setter
+    def schema(
+        self,
+        value: UnmarshalSchema[_T],
+    ) -> None:
+        self._schema = value
 
     def __str__(
         self,
-- 
2.43.0


From b0e284d2d2c80055e4131a59b26f3bebc3ec9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 07/39] fix: forward references are never looked up in the
 module of their type

---
 marsh/schema/core/unmarshal.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 1f148af..e15e9f9 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -44,6 +44,19 @@ skip_cache_types = {
 }
 
 
+def evaluate_forward_ref(
+    expression: str,
+    module: str,
+) -> Any:
+    # `ForwardRef._evaluate()` has a different signature depending on the
+    # python version and stores its result in the reference, which may
+    # be shared between modules.
+    value = eval(expression, vars(importlib.import_module(module)))
+    if isinstance(value, str):
+        return ForwardRef(value)
+    return value
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -55,10 +68,7 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return evaluate_forward_ref(name, mod)
         except Exception:
             pass
     # Types that are being built are the ones that hold the reference,
@@ -80,14 +90,12 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
-                    vars(
-                        importlib.import_module(
-                            type_.__module__ + (f'.{mod}' if mod else ''),
-                        ),
-                    ),
-                    None,
-                )
+                return evaluate_forward_ref(ref.__forward_arg__, type_.__module__)
+            except Exception:
+                pass
+        if mod and hasattr(type_, '__module__'):
+            try:
+                return evaluate_forward_ref(name, f'{type_.__module__}.{mod}')
             except Exception:
                 pass
     raise marsh.errors.MarshError(f'could not resolve forward reference to a type: {ref}')
-- 
2.43.0


From acef1e0e962fbf7093ad8a309715d48ab4e6cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 08/39] fix: registering an unmarshal schema leaves the schemas
 built before it in use

---
 marsh/schema/core/unmarshal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index e15e9f9..9dbca0d 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -267,14 +267,18 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
+            schema = self.priority.add(
                 _schema,
                 priority=priority,
                 lower_priority=lower_priority,
                 higher_priority=higher_priority,
                 replace=replace,
             )
+            self.cache_clear()
+            # schemas already built may contain a schema
+            # that would not be selected anymore
+            UnmarshalSchemaMeta._cached_build.cache_clear()  # type: ignore
+            return schema
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From 83a8aaa2cc9e4ff14dfe0ce14aba1d10f5636bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 09/39] fix: namespaces use outdated classes and lose or mix up
 concurrent registrations

---
 marsh/schema/namespace.py       | 102 +++++++++++++++++++-------------
 marsh/schema/types/namespace.py |   3 +
 2 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..3ee8d83 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -3,6 +3,7 @@
 For all types in a namespace each subclass of a type being
 that is being unmarshaled is considered."""
 import collections.abc
+import threading
 from typing import (
     Any,
     Callable,
@@ -117,27 +118,36 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
     def __init__(
         self,
     ) -> None:
+        # this mapping (and the one of each namespace) is never changed in
+        # place but replaced by a changed copy while holding the lock, as
+        # other threads may be using it.
         self._namespaces: Dict[str, 'Namespace'] = {}
+        self._lock = threading.RLock()
 
     def __getitem__(
         self,
         name: str,
     ) -> 'Namespace':
-        if name not in self:
+        namespaces = self._namespaces
+        if name not in namespaces:
             raise KeyError(
                 marsh.utils.get_closest_error_message(
                     value=name,
-                    candidates=self,
+                    candidates=namespaces,
                     key='namespace',
                 ),
             )
-        return self._namespaces[name]
+        return namespaces[name]
 
     def __delitem__(
         self,
         name,
     ) -> None:
-        del self._namespaces[name]
+        with self._lock:
+            namespaces = dict(self._namespaces)
+            del namespaces[name]
+            self._namespaces = namespaces
+            self._changed()
 
     def __contains__(
         self,
@@ -171,7 +181,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterator of result.
         """
-        for namespace in self.values():
+        for namespace in self._namespaces.values():
             for name in namespace.find_subclasses(cls):
                 yield name, namespace
 
@@ -214,18 +224,26 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             The namespace.
         """
-        if name in self:
-            raise marsh.errors.MarshError(
-                f'namespace "{name}" already exists',
-            )
-        self._namespaces[name] = (
-            namespace := Namespace(
+        with self._lock:
+            if name in self:
+                raise marsh.errors.MarshError(
+                    f'namespace "{name}" already exists',
+                )
+            namespace = Namespace(
                 name=name,
                 base=base,
             )
-        )
+            self._namespaces = {**self._namespaces, name: namespace}
+            self._changed()
         return namespace
 
+    def _changed(
+        self,
+    ) -> None:
+        # clear everything that depends on the existing namespaces
+        self.cache_clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
+
     def cache_clear(
         self,
         full: bool = False,
@@ -327,7 +345,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterable of names and namespaces.
         """
-        return marsh.utils.IterableFromIterator(self.find_subclasses_iter(cls))
+        return marsh.utils.IterableFromIterator(iter(tuple(self.find_subclasses_iter(cls))))
 
     @caches.new_callable_cache(
         name='marsh.namespaces.find_namespaces',
@@ -347,7 +365,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterable of namespaces found.
         """
-        return marsh.utils.IterableFromIterator(self.find_namespaces_iter(cls))
+        return marsh.utils.IterableFromIterator(iter(tuple(self.find_namespaces_iter(cls))))
 
 
 class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
@@ -379,7 +397,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -399,31 +416,30 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
         name: str,
     ) -> core.unmarshal.UnmarshalSchema[_T]:
-        if name not in self:
+        components = self.components
+        if name not in components:
             raise KeyError(
                 marsh.utils.get_closest_error_message(
                     value=name,
-                    candidates=self,
+                    candidates=components,
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -517,7 +533,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         Returns:
             The names of the subclasses.
         """
-        return marsh.utils.IterableFromIterator(self.find_subclasses_iter(cls))
+        return marsh.utils.IterableFromIterator(iter(tuple(self.find_subclasses_iter(cls))))
 
     @overload
     def register(
@@ -556,13 +572,14 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
+        def check_name() -> None:
+            if name in self and not replace:
                 raise marsh.errors.MarshError(
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
+
+        check_name()
 
         def _register(
             component: Type[_T],
@@ -572,10 +589,11 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     'registered component must be '
                     F'a subclass of {self.base}: {component}',
                 )
-            self.components[name] = component
-            self.cache_clear()
-            self._namespaces.cache_clear()
-            marsh.schema.UnmarshalSchema.cache_clear()
+            with self._namespaces._lock:
+                check_name()
+                self.components = {**self.components, name: component}
+                self.cache_clear()
+                self._namespaces._changed()
             return component
 
         if component is None:
diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..e2a660f 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -40,6 +40,9 @@ class NamespaceMarshalSchema(marsh.schema.core.marshal.WrapperMarshalSchema):
         self,
     ) -> marsh.element.ElementType:
         element = self.schema.marshal()
+        if self.name is None:
+            # the class is no longer held by any namespace
+            return element
         if not marsh.utils.is_mapping(element):
             raise marsh.errors.MarshalError(
                 f'{marsh.utils.get_type_name(self.value)}: marshaling '
-- 
2.43.0


From 48ff592ac576800d0588fd200ff50723adb56ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 10/39] fix: file extensions of newly registered config schemas
 are not discovered

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..cf79588 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From ab4c5ae320205bb544040aea28ee925c783e91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 11/39] fix: a config that can not be encoded destroys the file
 it is written to

---
 marsh/config.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index cf79588..930f2cf 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -92,13 +92,6 @@ class JSONConfigIO(ConfigSchema):
     ) -> bool:
         return get_ext(value).lower() == '.json'
 
-    def dump(
-        self,
-        element: marsh.element.ElementType,
-    ) -> None:
-        with open(self.value, 'w') as fp:
-            json.dump(element, fp)
-
     def load(
         self,
     ) -> marsh.element.ElementType:
@@ -128,13 +121,6 @@ class YAMLConfigIO(ConfigSchema):
     ) -> bool:
         return get_ext(value).lower() in ('.yaml', '.yml')
 
-    def dump(
-        self,
-        element: marsh.element.ElementType,
-    ) -> None:
-        with open(self.value, 'w') as fp:
-            yaml.safe_dump(element, fp)
-
     def load(
         self,
     ) -> marsh.element.ElementType:
-- 
2.43.0


From 55acb1d155a7d8a9ae55504a9805d3ad1f359f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 12/39] fix: named configs are not found in the working
 directory, errors depend on listing order

---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 930f2cf..85f917d 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -171,7 +171,7 @@ def find_config(
             )
         return target
     dpath = os.path.dirname(target)
-    if not os.path.isdir(dpath):
+    if not os.path.isdir(dpath or os.curdir):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
             f'for named config "{target}"',
@@ -179,7 +179,7 @@ def find_config(
     name = os.path.basename(target)
     names = []
     paths = []
-    for candidate_fname in os.listdir(dpath):
+    for candidate_fname in sorted(os.listdir(dpath or os.curdir)):
         path = os.path.join(dpath, candidate_fname)
         if not os.path.isfile(path):
             continue
-- 
2.43.0


From 27d217d43f5f37b1ecd163692bd79105c7df8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 13/39] fix: config tree omits the content of directories and
 depends on listing order

---
 marsh/config.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 85f917d..1ec20f1 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -234,11 +234,15 @@ def tree(
     lines = [f'{os.path.basename(path)}']
     subtrees: List[str] = []
     configs: List[str] = []
-    for name in os.listdir(path):
+    for name in sorted(os.listdir(path)):
         if os.path.isdir(os.path.join(path, name)):
-            subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            try:
+                subtree = tree(os.path.join(path, name))
+            except (FileNotFoundError, NotADirectoryError):
+                # removed since it was listed
+                continue
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From 3c80f4fa32262a52d7d9aff9969f950cec8cc9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 14/39] fix: order of merged mappings depends on the hash seed

---
 marsh/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..28ce772 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -146,7 +146,7 @@ def _merge(
                 element_b.get(key, marsh.MISSING),
                 concatenate=concatenate,
             )
-            for key in set(element_a).union(element_b)
+            for key in {**element_a, **element_b}
         }
     elif (
         concatenate
-- 
2.43.0


From 51498b93f12081c734c980549124da483f694973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 15/39] fix: combining a value with the current one is ignored
 for nested paths

---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index 28ce772..9428a1c 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 21b9d9af902452580c85ef7d41b05ad1504fcd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 16/39] fix: working directory is not restored when an entry
 point fails, directory errors are not handled

---
 marsh/entry_point.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..2af5f16 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -215,22 +215,27 @@ class EntryPoint:
         self,
         args: argparse.Namespace,
     ) -> Iterator[None]:
-        prev_path: Optional[str] = None
-        if args.output:
-            path = datetime.datetime.now(datetime.timezone.utc).strftime(args.output)
-            prev_path = os.getcwd()
+        if not args.output:
+            yield
+            return
+        path = datetime.datetime.now(datetime.timezone.utc).strftime(args.output)
 
-            def handle_create_dir_error(
-                error: Exception,
-            ) -> None:
-                print(f'failed to create output directory {path}: {error}')
-                sys.exit(1)
+        def handle_create_dir_error(
+            error: Exception,
+        ) -> None:
+            print(f'failed to create output directory {path}: {error}')
+            sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+        prev_path = os.getcwd()
+        try:
+            with marsh.errors.maybe_handle_error(
+                handle_create_dir_error,
+                OSError,
+            ):
                 os.makedirs(path, exist_ok=True)
-            os.chdir(path)
-        yield
-        if prev_path is not None:
+                os.chdir(path)
+            yield
+        finally:
             os.chdir(prev_path)
 
     def maybe_print_help(
-- 
2.43.0


From d5fce88cb9259461e1b2e63aff519267f769d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 17/39] fix: default values of a defaultdict fail when first
 used by several threads or interrupted

---
 marsh/schema/types/defaultdict.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..1a8fcdd 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,12 +30,15 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for input_ in (marsh.MISSING, 0, '', None):
             try:
-                return self.schema.unmarshal(self.input)
+                value = self.schema.unmarshal(input_)
             except Exception:
-                pass
-        self.input = self._sentinel
+                continue
+            # only set once it is known to work as
+            # this instance is shared between threads
+            self.input = input_
+            return value
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From fa88159caad9c011673959d101917b33d6a82f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 18/39] fix: an interrupted call leaves an incomplete list of
 types that match a protocol

---
 marsh/schema/types/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..21c3871 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -40,7 +40,8 @@ def _match_iter(
 def match(
     protocol: Any,
 ) -> Iterable:
-    return marsh.utils.IterableFromIterator(_match_iter(protocol))
+    # not lazily evaluated as that would be incomplete if interrupted
+    return tuple(_match_iter(protocol))
 
 
 @marsh.schema.register
-- 
2.43.0


From e217f1a9e41605434b05b09a935e380f0df251aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 19/39] fix: using a cache pool fails while another thread adds
 a cache to it

---
 marsh/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index a3fe7c7..0a7c3ad 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -980,7 +980,7 @@ class CachePool(Mapping[str, CacheType]):
         it only calls the ``clear_cache()`` function on
         each cache.
         """
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_clear()
 
     def cache_info(
@@ -996,21 +996,21 @@ class CachePool(Mapping[str, CacheType]):
         return {
             name: cache.cache_info()
             for name, cache
-            in self._caches.items()
+            in tuple(self._caches.items())
         }
 
     def cache_disable(
         self,
     ) -> None:
         """Disable all caches in this container."""
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_disable()
 
     def cache_enable(
         self,
     ) -> None:
         """Enable all caches in this container."""
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_enable()
 
 
-- 
2.43.0


From ae6f5060d753e1cfffbd1f1730ac6fa76e43cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 20/39] fix: forward references in the arguments of a callable
 depend on earlier calls

---
 marsh/schema/argument.py       | 16 ++++++++++++++++
 marsh/schema/core/unmarshal.py | 22 +++++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/argument.py b/marsh/schema/argument.py
index d991acc..f387877 100644
--- a/marsh/schema/argument.py
+++ b/marsh/schema/argument.py
@@ -17,6 +17,22 @@ class ArgumentsUnmarshalSchema(
     template.CallableUnmarshalSchema[Arguments],
 ):
 
+    def __init__(
+        self,
+        value: Any,
+        *args,
+        **kwargs,
+    ) -> None:
+        builds = type(type(self))._builds
+        active = builds.active
+        try:
+            # build the schemas of the arguments
+            # in the context of the callable
+            builds.active = builds.within(value)
+            super().__init__(value, *args, **kwargs)
+        finally:
+            builds.active = active
+
     def construct(
         self,
         *args,
diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9dbca0d..d17e977 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -179,8 +179,9 @@ class _Build(NamedTuple):
     value: Any
     """The type for which the schema is built."""
 
-    selection: base.SchemaSelection
-    """The schema types matched to the type."""
+    selection: Optional[base.SchemaSelection]
+    """The schema types matched to the type, or ``None``
+    if the schema is not one that unmarshals the type."""
 
 
 class _Builds(threading.local):
@@ -203,7 +204,7 @@ class _Builds(threading.local):
         """
         context_changed = False
         for i, build in reversed(tuple(enumerate(self.active))):
-            if (
+            if build.selection is not None and (
                 build.value is type_
                 or build.value == type_
                 and not (context_changed and has_forward_ref(type_))
@@ -215,6 +216,21 @@ class _Builds(threading.local):
                 context_changed = True
         return -1
 
+    def within(
+        self,
+        value: Any,
+    ) -> Tuple[_Build, ...]:
+        """The ongoing builds along with a value that is not
+        built itself but in which names are looked up.
+
+        Arguments:
+            value: The value in which names are looked up.
+
+        Returns:
+            The builds.
+        """
+        return self.active + (_Build(value, None),)
+
 
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
-- 
2.43.0


From f1c4d0b9cf91b363710c8130c0f8555f7f1144d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 21/39] fix: value caches lose or mix up entries when used by
 several threads

---
 marsh/utils.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 0a7c3ad..2b536a8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -738,6 +738,7 @@ class ValueCache(Generic[_K, _V]):
         self._misses: int = 0
         self._disabled = False
         self._cache: SafeDict[Any, _V] = SafeDict()
+        self._lock = threading.RLock()
 
     def __len__(
         self,
@@ -765,13 +766,15 @@ class ValueCache(Generic[_K, _V]):
         """
         if self._disabled:
             raise KeyError(key)
-        try:
-            self._hits += 1
-            return self._cache[self._make_key(key)]
-        except KeyError:
-            self._hits -= 1
-            self._misses += 1
-            raise
+        cache_key = self._make_key(key)
+        with self._lock:
+            try:
+                self._hits += 1
+                return self._cache[cache_key]
+            except KeyError:
+                self._hits -= 1
+                self._misses += 1
+                raise
 
     def __setitem__(
         self,
@@ -785,7 +788,9 @@ class ValueCache(Generic[_K, _V]):
             value: The item to store.
         """
         if not self._disabled:
-            self._cache[self._make_key(key)] = value
+            cache_key = self._make_key(key)
+            with self._lock:
+                self._cache[cache_key] = value
 
     def __delitem__(
         self,
@@ -799,7 +804,9 @@ class ValueCache(Generic[_K, _V]):
         Arguments:
             key: The key associated with the item.
         """
-        del self._cache[self._make_key(key)]
+        cache_key = self._make_key(key)
+        with self._lock:
+            del self._cache[cache_key]
 
     def _make_key(
         self,
@@ -818,8 +825,9 @@ class ValueCache(Generic[_K, _V]):
         self,
     ) -> None:
         """Clear the cache, removing all stored items."""
-        self._cache.clear()
-        self._hits = self._misses = 0
+        with self._lock:
+            self._cache.clear()
+            self._hits = self._misses = 0
 
     def cache_info(
         self,
-- 
2.43.0


From f2ebb186196692bdc1166475d67a5749d69eaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 22/39] fix: a name replaced during unmarshal can give a class
 that is not of the type asked for

The subclasses were looked up first and the class of the name afterwards;
a replacement in between with a class that is not a subclass of the
requested type was unmarshaled and returned.
---
 marsh/schema/types/namespace.py | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index e2a660f..fd543b9 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -1,5 +1,6 @@
 from typing import (
     Any,
+    Optional,
     Sequence,
     TypeVar,
 )
@@ -114,9 +115,9 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
         if not path:
             return self
         field, path = marsh.path.head(path)
-        for name, namespace in self.namespaces.find_subclasses(self.value):
-            if name == field:
-                return namespace[name].select(path)
+        schema = self._find_schema(field)
+        if schema is not None:
+            return schema.select(path)
         raise marsh.errors.PathError(
             marsh.utils.get_closest_error_message(
                 field,
@@ -125,6 +126,19 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             ),
         )
 
+    def _find_schema(
+        self,
+        name: str,
+    ) -> Optional[marsh.schema.UnmarshalSchema]:
+        for candidate, namespace in self.namespaces.find_subclasses(self.value):
+            if candidate == name:
+                schema = namespace[name]
+                # the name may have been given to another class
+                # since the subclasses were looked up.
+                if issubclass(schema.value, self.value):
+                    return schema
+        return None
+
     def find_namespace(
         self,
         name: str,
@@ -156,4 +170,18 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             name = element.pop('name', marsh.MISSING)
         if marsh.utils.is_missing(name):
             return self.schema.unmarshal(element)
-        return self.find_namespace(name)[name].unmarshal(element)
+        schema = self._find_schema(name)
+        if schema is None:
+            raise marsh.errors.UnmarshalError(
+                marsh.utils.get_closest_error_message(
+                    value=name,
+                    candidates=[
+                        candidate
+                        for candidate, _
+                        in self.namespaces.find_subclasses(self.value)
+                    ],
+                    key='name',
+                ),
+                path='name',
+            )
+        return schema.unmarshal(element)
-- 
2.43.0


From ee499294ee645267542404399128f988926d6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 23/39] fix: arguments in front of variable positional
 arguments are given twice or not at all

---
 marsh/schema/template/callable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..57a690f 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -40,6 +40,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         keyword = {}
         var_positional = None
         var_keyword = None
+        kinds = [param.kind for param in sig.parameters.values()]
         for name, param in sig.parameters.items():
             if (
                 param.annotation is param.empty
@@ -53,7 +54,12 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 default = param.default
             with marsh.errors.prepend(name):
                 schema = marsh.schema.UnmarshalSchema(type_, default=default)
-            if param.kind == param.POSITIONAL_ONLY:
+            if param.kind == param.POSITIONAL_ONLY or (
+                # what precedes variable positional arguments
+                # can not be given by keyword along with them
+                param.kind == param.POSITIONAL_OR_KEYWORD
+                and param.VAR_POSITIONAL in kinds
+            ):
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
                 keyword[name] = schema
-- 
2.43.0


From 4b64ad3e11d052d402a442b91a1fe793504e3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 24/39] fix: an argument given by position is also taken from
 the default keyword arguments

---
 marsh/schema/template/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..2bcc5e5 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -206,6 +206,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     if element_list:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args:
                             value = default_args.pop(0)
-- 
2.43.0


From 5a0e01d126c55fabf78f080c152a6dc2a1d00424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 25/39] fix: complete dates can not be unmarshaled in a local
 time zone that has no name

---
 marsh/schema/types/datetime.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..a677e66 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -109,6 +109,21 @@ class DatetimeUnmarshalSchema(
     ) -> str:
         return self.doc_static_description()
 
+    def parse_iso(
+        self,
+        text: str,
+    ) -> Optional[datetime.datetime]:
+        # dateparser always needs to know the local time zone,
+        # a complete date or time does not depend on it.
+        if self.value == datetime.time and text[2:3] == ':':
+            text = f'1970-01-01T{text}'
+        try:
+            if text[10:11] in ('', 'T', ' '):
+                return datetime.datetime.fromisoformat(text)
+        except ValueError:
+            pass
+        return None
+
     def unmarshal(
         self,
         element: marsh.element.ElementType,
@@ -137,7 +152,9 @@ class DatetimeUnmarshalSchema(
             )
         except ValueError:
             if isinstance(element, str):
-                dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                dt = self.parse_iso(element)
+                if dt is None:
+                    dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From 3d16223267d15e9652ef7db9506654956b60af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 26/39] fix: defaults of a defaultdict depended on failures of
 earlier defaults

The input that worked first was remembered for all later dicts of the
same type, also when an earlier input was skipped because of an error
that only occurred in that call.
---
 marsh/schema/types/defaultdict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index 1a8fcdd..b83fd8c 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -16,29 +16,23 @@ _T = TypeVar('_T')
 
 class InitType(Generic[_T]):
 
-    _sentinel: Any = object()
-
     def __init__(
         self,
         schema: marsh.schema.UnmarshalSchema[_T],
     ) -> None:
         self.schema = schema
-        self.input: marsh.element.ElementType = self._sentinel
 
     def __call__(
         self,
     ) -> _T:
-        if self.input is not self._sentinel:
-            return self.schema.unmarshal(self.input)
+        # the input that worked is not remembered as this instance
+        # is shared between dicts and an earlier input can have
+        # failed for a reason that only applied to that call.
         for input_ in (marsh.MISSING, 0, '', None):
             try:
-                value = self.schema.unmarshal(input_)
+                return self.schema.unmarshal(input_)
             except Exception:
                 continue
-            # only set once it is known to work as
-            # this instance is shared between threads
-            self.input = input_
-            return value
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From 52affb66c1d00362581c08dfcd8b6ea9a37faed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 27/39] fix: looking for a close match fails for values that
 are not text

---
 marsh/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2b536a8..974f1f5 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2454,9 +2454,10 @@ def get_closest(
     Returns:
         The closest candidate. :data:`None` if no candidate is close.
     """
+    # both can be values of any type, e.g. literals
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From 24d2d2bf5f31655d9df318070b39395cc44cc018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 28/39] fix: error paths with special characters in their last
 field can not be split

---
 marsh/element.py | 4 ++--
 marsh/path.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 9428a1c..7d77e8c 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From 17d37282551fc84e76682cf7615fb91e0101f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 29/39] fix: errors of literals lose their cause

---
 marsh/schema/types/literal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 0e73105..84282dd 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -55,7 +55,7 @@ class LiteralUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
     ) -> _T:
         try:
             return super().unmarshal(element)
-        except Exception:
+        except Exception as err:
             closest = marsh.utils.get_closest(
                 value=str(element),
                 candidates=(schema.literal_value for schema in self.schemas),
@@ -70,7 +70,7 @@ class LiteralUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
                 err_msg,
                 element=element,
                 type=self.value,
-            )
+            ) from err
 
 
 @marsh.schema.register
-- 
2.43.0


From 8094cc194349c3e6e454b4f324bfccae8a546089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 30/39] fix: errors for field types of typed dicts do not name
 the field

---
 marsh/schema/types/typeddict.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..9c31860 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -59,23 +59,18 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
         annotations = get_type_hints(self.value)
-        self.schemas = types.MappingProxyType(
-            {
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                    )
-                    for name in self.required_keys
-                },
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                        default=self._sentinel,
-                    )
-                    for name in self.optional_keys
-                },
-            },
-        )
+        schemas = {}
+        for name in (*self.required_keys, *self.optional_keys):
+            with marsh.errors.prepend(name):
+                schemas[name] = marsh.schema.UnmarshalSchema(
+                    annotations[name],
+                    default=(
+                        marsh.MISSING
+                        if name in self.required_keys
+                        else self._sentinel
+                    ),
+                )
+        self.schemas = types.MappingProxyType(schemas)
 
     @classmethod
     def match(
-- 
2.43.0


From cc774222d46a13a11459f12bf711a27a3d786dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 31/39] fix: missing dates ignore their default and timestamps
 out of range raise OverflowError

---
 marsh/schema/types/datetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index a677e66..bd33b9b 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -129,6 +129,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
@@ -150,7 +152,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = self.parse_iso(element)
                 if dt is None:
-- 
2.43.0


From 37c42e39424863ca9e684f62324242c1e80616fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 32/39] fix: keep annotations whose class constructor raises
 TypeError

---
 marsh/schema/types/annotated.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/annotated.py b/marsh/schema/types/annotated.py
index 421794f..d366bd5 100644
--- a/marsh/schema/types/annotated.py
+++ b/marsh/schema/types/annotated.py
@@ -111,16 +111,17 @@ class AnnotatedUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         annotations: List[marsh.annotation.Annotation] = []
         for ann in marsh.utils.get_annotations(self.value):
             try:
-                if issubclass(
+                is_annotation_type = issubclass(
                     ann,
                     (
                         marsh.annotation.Annotation,
                         marsh.annotation.PreAnnotation,
                     ),
-                ):
-                    ann = ann()
+                )
             except TypeError:
-                pass
+                is_annotation_type = False
+            if is_annotation_type:
+                ann = ann()
             try:
                 if isinstance(
                     ann,
-- 
2.43.0


From bb0c923f3e4e69212be13751ea7c894d11dedac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 33/39] fix: text annotations of partials, callable instances
 and __new__ are ignored

---
 marsh/schema/core/unmarshal.py    | 15 ++++++++++---
 marsh/schema/template/callable.py | 36 +++++++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d17e977..39fb655 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -1,4 +1,5 @@
 import dataclasses
+import functools
 import importlib
 import itertools
 import threading
@@ -57,6 +58,14 @@ def evaluate_forward_ref(
     return value
 
 
+def unwrap_partial(
+    value: Any,
+) -> Any:
+    while isinstance(value, functools.partial):
+        value = value.func
+    return value
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -74,7 +83,7 @@ def resolve_forward_ref(
     # Types that are being built are the ones that hold the reference,
     # these are considered before any other type known from before.
     builds = tuple(
-        type_
+        unwrap_partial(type_)
         for type_ in builds
         if not marsh.utils.is_typing_alias(type_)
     )
@@ -84,10 +93,10 @@ def resolve_forward_ref(
             and getattr(type_, '__module__', None)
             == getattr(builds[0], '__module__', None)
         ):
-            return type_
+            return marsh.utils.get_type(type_)
     for type_ in itertools.chain(builds, cache):
         if marsh.utils.get_type_name(type_) == name:
-            return type_
+            return marsh.utils.get_type(type_)
         if hasattr(type_, '__module__'):
             try:
                 return evaluate_forward_ref(ref.__forward_arg__, type_.__module__)
diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 57a690f..5506912 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -1,3 +1,4 @@
+import functools
 import inspect
 import types
 from typing import (
@@ -14,6 +15,36 @@ from . import structured
 _T = TypeVar('_T')
 
 
+def get_called_function(
+    value: Any,
+) -> Any:
+    """Get the function that receives the arguments of a call.
+
+    This is the function that holds the annotations
+    of the signature of a callable.
+
+    Arguments:
+        value: A callable.
+
+    Returns:
+        The function, or the callable itself if it
+        does not delegate to a function.
+    """
+    while isinstance(value, functools.partial):
+        value = value.func
+    if inspect.isclass(value):
+        if isinstance(type(value).__call__, types.FunctionType):
+            return type(value).__call__
+        for base in value.__mro__:
+            for name in ('__new__', '__init__'):
+                if name in vars(base) and hasattr(getattr(value, name), '__annotations__'):
+                    return getattr(value, name)
+        return value.__init__
+    if not inspect.isroutine(value) and not hasattr(value, '__wrapped__'):
+        return type(value).__call__
+    return value
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -30,10 +61,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 f'failed to retrieve callable signature: {self.value}',
             )
         try:
-            if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
-            else:
-                annotations = get_type_hints(self.value)
+            annotations = get_type_hints(get_called_function(self.value))
         except Exception:
             annotations = {}
         positional = {}
-- 
2.43.0


From ba976c970e08af905940e0dba5d4df0ba08893d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 34/39] fix: names in inherited annotations are looked up in
 the wrong module

---
 marsh/schema/core/unmarshal.py    | 26 ++++++++++++++++++++++++++
 marsh/schema/template/callable.py |  7 +++++--
 marsh/schema/types/dataclass.py   | 13 ++++++++++++-
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 39fb655..035158c 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -1,3 +1,4 @@
+import contextlib
 import dataclasses
 import functools
 import importlib
@@ -9,6 +10,7 @@ from typing import (
     ForwardRef,
     Generic,
     Iterable,
+    Iterator,
     Mapping,
     NamedTuple,
     Optional,
@@ -240,6 +242,30 @@ class _Builds(threading.local):
         """
         return self.active + (_Build(value, None),)
 
+    @contextlib.contextmanager
+    def inherited_from(
+        self,
+        source: Any,
+        value: Any,
+    ) -> Iterator[None]:
+        """Look up names where a source of annotations was written
+        instead of where the value that inherits them was written.
+
+        Arguments:
+            source: The class or function that has the annotations.
+            value: The value that inherits them.
+        """
+        active = self.active
+        try:
+            if (
+                getattr(source, '__module__', None)
+                != getattr(unwrap_partial(value), '__module__', None)
+            ):
+                self.active = self.within(source)
+            yield
+        finally:
+            self.active = active
+
 
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 5506912..1b41184 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -60,8 +60,10 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             raise ValueError(
                 f'failed to retrieve callable signature: {self.value}',
             )
+        function = get_called_function(self.value)
+        builds = type(type(self))._builds
         try:
-            annotations = get_type_hints(get_called_function(self.value))
+            annotations = get_type_hints(function)
         except Exception:
             annotations = {}
         positional = {}
@@ -80,7 +82,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             default = marsh.MISSING
             if param.default is not param.empty:
                 default = param.default
-            with marsh.errors.prepend(name):
+            with marsh.errors.prepend(name), \
+                    builds.inherited_from(function, self.value):
                 schema = marsh.schema.UnmarshalSchema(type_, default=default)
             if param.kind == param.POSITIONAL_ONLY or (
                 # what precedes variable positional arguments
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..054dc1e 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -1,4 +1,5 @@
 import dataclasses
+import inspect
 import re
 import types
 from typing import (
@@ -98,6 +99,15 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         except Exception:
             annotations = {}
         schemas = {}
+        builds = type(type(self))._builds
+
+        def get_source(
+            name: str,
+        ) -> Any:
+            for type_ in inspect.getmro(marsh.utils.get_type(self.value)):
+                if name in vars(type_).get('__annotations__', ()):
+                    return type_
+            return self.value
 
         def resolve_type(
             type_: Any,
@@ -131,7 +141,8 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         ):
             if not field.init:
                 continue
-            with marsh.errors.prepend(field.name):
+            with marsh.errors.prepend(field.name), \
+                    builds.inherited_from(get_source(field.name), self.value):
                 type_ = resolve_type(field.type)
                 schemas[field.name] = marsh.schema.UnmarshalSchema(
                     type_,
-- 
2.43.0


From dda46c17102626bcffe95a3e939f5567160679ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 35/39] fix: init-only fields of dataclasses swap values with
 others and can not be text

---
 marsh/schema/types/dataclass.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 054dc1e..342683a 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -18,12 +18,13 @@ _T = TypeVar('_T')
 
 
 _FIELDS = getattr(dataclasses, '_FIELDS', '__dataclass_fields__')
-_INITVAR_SENTINEL = dataclasses._FIELD_INITVAR  # type: ignore
+_CLASSVAR_SENTINEL = dataclasses._FIELD_CLASSVAR  # type: ignore
 
 
-def get_init_var_fields(
+def get_init_fields(
     dataclass: Any,
 ) -> Tuple[dataclasses.Field, ...]:
+    """The fields in the order in which the initializer takes them."""
     return tuple(
         field
         for field
@@ -31,7 +32,8 @@ def get_init_var_fields(
             dataclass,
             _FIELDS,
         ).values()
-        if field._field_type is _INITVAR_SENTINEL
+        if field._field_type is not _CLASSVAR_SENTINEL
+        and field.init
     )
 
 
@@ -132,15 +134,12 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             except Exception:
                 pass
             if type_is_initvar:
-                return resolve_type(type_.type)
+                if isinstance(type_.type, str):
+                    return ForwardRef(type_.type)
+                return type_.type
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
-            if not field.init:
-                continue
+        for field in get_init_fields(self.value):
             with marsh.errors.prepend(field.name), \
                     builds.inherited_from(get_source(field.name), self.value):
                 type_ = resolve_type(field.type)
-- 
2.43.0


From c76465cdfcffc4369b243c7566d430eca21a4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 36/39] fix: annotations of fields of named tuples and typed
 dicts and of text are ignored

---
 marsh/schema/template/callable.py |  4 +--
 marsh/schema/types/dataclass.py   |  7 +++--
 marsh/schema/types/namedtuple.py  |  4 +--
 marsh/schema/types/typeddict.py   | 49 +++++++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 1b41184..8b414e9 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -5,8 +5,8 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 from . import structured
@@ -63,7 +63,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         function = get_called_function(self.value)
         builds = type(type(self))._builds
         try:
-            annotations = get_type_hints(function)
+            annotations = get_type_hints(function, include_extras=True)
         except Exception:
             annotations = {}
         positional = {}
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 342683a..4b73e1f 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -8,8 +8,8 @@ from typing import (
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 
@@ -97,7 +97,10 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = get_type_hints(
+                marsh.utils.get_type(self.value),
+                include_extras=True,
+            )
         except Exception:
             annotations = {}
         schemas = {}
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..6988f79 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,8 +4,8 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 from . import (
@@ -73,7 +73,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = get_type_hints(self.value, include_extras=True)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 9c31860..dabf589 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -2,8 +2,16 @@ import functools
 import types
 from typing import (
     Any,
+    Mapping,
+    Optional,
     Sequence,
     TypeVar,
+)
+import typing_extensions
+from typing_extensions import (
+    Annotated,
+    get_args,
+    get_origin,
     get_type_hints,
 )
 
@@ -13,6 +21,12 @@ from . import mapping
 
 _T = TypeVar('_T')
 
+_QUALIFIERS = tuple(
+    getattr(typing_extensions, name)
+    for name in ('Required', 'NotRequired', 'ReadOnly')
+    if hasattr(typing_extensions, name)
+)
+
 
 class _Sentinel:
 
@@ -22,6 +36,18 @@ class _Sentinel:
         return ''
 
 
+def remove_qualifiers(
+    type_: Any,
+) -> Any:
+    """Get the type of a key without what is not part of the type."""
+    if get_origin(type_) in _QUALIFIERS:
+        return remove_qualifiers(get_args(type_)[0])
+    if get_origin(type_) is Annotated:
+        type_, *annotations = get_args(type_)
+        return Annotated[(remove_qualifiers(type_), *annotations)]
+    return type_
+
+
 @marsh.schema.register(lower_priority=mapping.MappingUnmarshalSchema)
 class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_T]):
 
@@ -58,12 +84,12 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        annotations = get_type_hints(self.value, include_extras=True)
         schemas = {}
         for name in (*self.required_keys, *self.optional_keys):
             with marsh.errors.prepend(name):
                 schemas[name] = marsh.schema.UnmarshalSchema(
-                    annotations[name],
+                    remove_qualifiers(annotations[name]),
                     default=(
                         marsh.MISSING
                         if name in self.required_keys
@@ -91,6 +117,25 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             'all keys are optional.'
         )
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+        default_args: Optional[Sequence] = None,
+        default_kwargs: Optional[Mapping[str, Any]] = None,
+    ) -> _T:
+        # there is nothing to apply annotations
+        # to for the keys that are left out
+        absent = {
+            name: self._sentinel
+            for name in tuple(self.schemas)[len(default_args or ()):]
+            if name in self.optional_keys
+        }
+        return super().unmarshal(
+            element,
+            default_args=default_args,
+            default_kwargs={**absent, **(default_kwargs or {})},
+        )
+
     def construct(
         self,
         *args,
-- 
2.43.0


From 88702d6fdd8562b25ebe59cf7708bf01b00f0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 37/39] fix: sequences give values to the wrong keys of typed
 dicts or fail

---
 marsh/schema/types/typeddict.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index dabf589..38a8b3a 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -141,14 +141,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = dict(zip(self.schemas, args), **kwargs)
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From a4935e62474ed261c695f0469ada5c6daf2b1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 38/39] fix: unions written with | only work after equal typing
 unions were used

---
 marsh/schema/core/unmarshal.py |  3 +--
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 17 ++++++++++++++++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 035158c..4167e1b 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -20,7 +20,6 @@ from typing import (
     TypeVar,
     Union,
     get_args,
-    get_origin,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -162,7 +161,7 @@ def is_distinct_type(
         are also unmarshaled the same, else ``False``.
     """
     if (
-        get_origin(type_) is Union
+        marsh.utils.is_union(type_)
         or isinstance(type_, ForwardRef)
         or marsh.utils.is_literal(type_)
     ):
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 974f1f5..fffa2b9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1923,6 +1923,21 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    type_: Any,
+) -> bool:
+    """Determine if a type is a union.
+
+    Arguments:
+        type: The type to evaluate.
+
+    Returns:
+        ``True`` if value is ``typing.Union`` or, for python 3.10+,
+        a union created with the ``|`` operator, else ``False``.
+    """
+    return get_origin(type_) in (Union, getattr(types, 'UnionType', Union))
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1937,7 +1952,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0


From 4e111b59fb0dac53b7d51e30c363bb8f1079420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 39/39] fix: recognise hashes above the hash modulus in
 relative priorities

---
 marsh/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index fffa2b9..aa34ee3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1212,9 +1212,15 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     isinstance(priority, collections.abc.Iterable)
                     and not isinstance(priority, (str, bytes))
                 ):
-                    return set(map(hash, priority))
+                    priority = tuple(priority)
+                    # an integer may be the hash of a value, which
+                    # is not necessarily equal to its own hash
+                    hashes = {p for p in priority if isinstance(p, int)}
+                    return hashes.union(map(hash, priority))
             except Exception:
                 pass
+            if isinstance(priority, int):
+                return {priority, hash(priority)}
             return {hash(priority)}
 
     def __init__(
-- 
2.43.0

