From 21c71eb503c2eae096cef6ff6fab5d8c0338482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/48] fix: describe ranges whose endpoints are tuples

The endpoint was the right operand of a % format, so that printing a range
of tuples, and rejecting an inverted one, raised TypeError.
---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..e2f875a 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -258,13 +258,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -295,13 +295,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From 7317f5f875a9e980f69188fc1c1bd6a0c4981d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/48] fix: keep unbounded ranges equal to their pickled or
 deep copies

The cuts below and above everything are singletons compared by identity, but
pickling and deep-copying duplicated them: the copy of an unbounded range
claimed to be bounded and differed from the original.
---
 vistautils/range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index e2f875a..85160e3 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,10 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # this is a singleton, so it is pickled and copied as a reference to it
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +228,10 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # this is a singleton, so it is pickled and copied as a reference to it
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From ac0ca7d9cd9fc29f2f76be68a84abd02c3380531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/48] fix: equal range sets have equal hashes

The hash was that of a view of the ranges, that is of its identity: it
differed between equal sets, and from call to call for the same set.
---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 85160e3..1e2e854 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -785,7 +785,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # as_ranges() is a view, which is hashed by identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From d793b86b99f154bd93636e89b9b7072bc09efd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 04/48] fix: pickle empty range sets with protocols 0 and 1

Their state is an empty tuple, which these protocols drop, so that the
unpickled set lacked its contents attribute and failed on every use.
---
 vistautils/range.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 1e2e854..61593ca 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1,4 +1,5 @@
 # really needs to be totally-ordered
+import copyreg
 from abc import ABCMeta, abstractmethod
 from datetime import date
 from typing import (
@@ -1092,6 +1093,11 @@ class _SortedDictRangeSet(RangeSet[T], metaclass=ABCMeta):
             [(rng._lower_bound, rng) for rng in state]
         )
 
+    def __reduce__(self):
+        # spelled out because pickle protocols 0 and 1 by default drop a state which is false,
+        # as that of an empty range set is
+        return (copyreg.__newobj__, (type(self),), self.__getstate__())  # type: ignore
+
 
 class _MutableSortedDictRangeSet(_SortedDictRangeSet[T], MutableRangeSet[T]):
     # pylint:disable=protected-access
-- 
2.43.0


From d6faf1e47bd011e9f5b0214208cbb502d050a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/48] fix: take the minimal enclosing span of any iterable

The iterable was traversed twice, so that iterators raised ValueError.
---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..d699e14 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # we go over the spans twice, but any iterable is accepted
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From 40ed9226a9f73f0f66b3363296edf5aac3f897f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 06/48] fix: look for the containing span, not for equal items
 at both ends

A disjoint index returned an item for a span reaching from that item to
another one equal to it, although neither contains the span.
---
 vistautils/span.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index d699e14..51ee320 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -241,13 +241,8 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        rng = self._range_to_item_index.range_set.range_enclosing_range(span.as_range())
+        return self._range_to_item_index.rng_to_val[rng] if rng else None
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 9fa41df42218caeac0b2ad5c8396feaef100da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/48] fix: refuse different items with the same span in a
 disjoint index

Other overlaps raised ValueError, but of items with identical spans all but
the last were dropped silently.
---
 vistautils/span.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 51ee320..f2b711a 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -1,4 +1,4 @@
-from typing import Iterable, Optional, Sized, Tuple, TypeVar, Union
+from typing import Dict, Iterable, Optional, Sized, Tuple, TypeVar, Union
 
 from attr import attrib, attrs, validators
 
@@ -215,7 +215,15 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    range_to_item: Dict[Range[int], T] = {}
+    for span, item in inp:
+        # the map itself detects overlaps of different ranges
+        check_arg(
+            range_to_item.setdefault(span.as_range(), item) == item,
+            "Some range keys are connected or overlapping: different items have span %s",
+            (span,),
+        )
+    return immutablerangemap(tuple(range_to_item.items()))
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From b083fcb4920bd04ecca5ca2d73aec03153ef8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/48] fix: nest the tags of annotations with identical spans

Their end tags were written in the order of their start tags, which gave
crossing elements.
---
 vistautils/annotated_text_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..afce27c 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -8,7 +8,7 @@ is itself derived from code from BBN Technologies.
 """
 import io
 import itertools
-from typing import Collection, Iterable, List, Mapping, Optional
+from typing import Collection, Iterable, List, Mapping, Optional, Sequence
 
 from attr import attrib, attrs, evolve
 from attr.validators import instance_of
@@ -154,7 +154,7 @@ class HTMLStyleAnnotationFormatter:
 
     @staticmethod
     def _tag_sequence(
-        annotations: Collection[AnnotatedSpan]
+        annotations: Sequence[AnnotatedSpan]
     ) -> Iterable["HTMLStyleAnnotationFormatter.Tag"]:
         """
         Provide the tags in order of their occurrence in the formatted text.
@@ -179,7 +179,8 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            # of annotations with identical spans the one which starts last ends first
+            for ann in sorted(reversed(annotations), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From 4f0e80af8ae77ea9403bd3b6e924cc8f831d1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 09/48] fix: create div and span annotations on Python 3.10 and
 later

immutabledict refuses plain dictionaries there, so that these functions
raised ValueError.
---
 vistautils/annotated_text_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index afce27c..6a8f27c 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -42,11 +42,11 @@ class AnnotatedSpan:
 
     @staticmethod
     def create_div_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(DIV, span, {"class": clazz})
+        return AnnotatedSpan(DIV, span, immutabledict([("class", clazz)]))
 
     @staticmethod
     def create_span_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(SPAN, span, {"class": clazz})
+        return AnnotatedSpan(SPAN, span, immutabledict([("class", clazz)]))
 
 
 def to_start_tag(annotated_range: AnnotatedSpan) -> str:
-- 
2.43.0


From a70ab5a96bbdd20d5c074a8b8ca43905db06c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 10/48] fix: only() refuses two elements whatever the second is
 equal to

The end was detected with !=, so that a second element which is never unequal
to anything was taken for it.
---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From d1afc33b0a5adb5feca4e907984f846ed84285cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/48] fix: parse the whole string as an amount of memory

Anything which began like an amount was accepted: "10 Marbles" were 10 MB.
---
 vistautils/memory_amount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/memory_amount.py b/vistautils/memory_amount.py
index b0dbdac..4d7fb5b 100644
--- a/vistautils/memory_amount.py
+++ b/vistautils/memory_amount.py
@@ -64,7 +64,7 @@ class MemoryAmount:
 
     @staticmethod
     def parse(memory_string: str) -> "MemoryAmount":
-        parts = MemoryAmount._PARSE_PATTERN.match(memory_string)
+        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
         if parts:
             return MemoryAmount(
                 amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
-- 
2.43.0


From f60af8172d7b416d9fa250451b77d59d5c49f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 12/48] fix: check the type of optional values which are false

check_opt_isinstance accepted 0, "" or an empty list where another type than
theirs was required, although it promises to accept only None besides.
---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From 8e32d0ed982e9e3bedbdd590d6043ebea601e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 13/48] fix: do not format messages of check_arg without
 arguments

Messages quoting user input which contains a percent sign raised TypeError
instead of the ValueError.
---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index e849729..6ff14a8 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -32,7 +32,7 @@ def check_not_none(x: T, msg: str = None) -> T:
 def check_arg(result: Any, msg: str = None, msg_args: Tuple = None) -> None:
     if not result:
         if msg:
-            raise ValueError(msg % (msg_args or ()))
+            raise ValueError(msg % msg_args if msg_args else msg)
         else:
             raise ValueError()
 
-- 
2.43.0


From 4d8c9e73005cef545f2db72f28a533a1c79fa3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 14/48] fix: interpolate local values which are false, like 0
 and the empty string

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..18573a1 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1638,7 +1638,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1657,7 +1660,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1676,7 +1679,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From fdbd80d5d88c9aebfe022db3cdcf61c52875cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 15/48] fix: prefix default objects of namespaces with the
 whole path

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 18573a1..a0618ad 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1368,7 +1368,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From 0fdaf0189e6b07bfb8e53ef1e047fe9314fbf567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 16/48] fix: apply the special factory which was asked for

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a0618ad..31d6f09 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1045,7 +1045,7 @@ class Parameters:
                 elif requested_param_string_value in special_factories:
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factories[requested_param_string_value],
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From 16970b3016b42b088047477e46eb4604aaa64c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 17/48] fix: do not ignore defaults of parameters which are
 false

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 31d6f09..12d24e4 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From b1d9f53ea19b8c1834895d09192406486dddc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 18/48] fix: use the defaults for namespaces with neither value
 nor factory

---
 vistautils/parameters.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 12d24e4..04849b2 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -999,9 +999,13 @@ class Parameters:
                 # The general case is that the user has a namespace providing all the information
                 # for evaluation.
                 namespace = self.namespace(name)
-                namespace.assert_exactly_one_present(
-                    [value_namespace_param_name, factory_namespace_param_name]
-                )
+                if (default_value is None and default_factory is None) or (
+                    value_namespace_param_name in namespace
+                    and factory_namespace_param_name in namespace
+                ):
+                    namespace.assert_exactly_one_present(
+                        [value_namespace_param_name, factory_namespace_param_name]
+                    )
                 if value_namespace_param_name in namespace:
                     # The user specifies the value to be evaluated directly
                     return validate(
@@ -1028,13 +1032,11 @@ class Parameters:
                             namespace,
                         )
                     )
+                elif default_value is not None:
+                    return validate(default_value)
                 else:
-                    # This should be impossible due to the assertion above.
-                    raise RuntimeError(
-                        f"Namespace {name} specifies neither "
-                        f"{value_namespace_param_name}"
-                        f"nor {factory_namespace_param_name}"
-                    )
+                    # One of the defaults is present due to the assertion above.
+                    return validate(apply_factory(default_factory, namespace))
             else:
                 # If the user doesn't need to specify additional modules or anything else special,
                 # they can provide a string the be matched against our special values
-- 
2.43.0


From 3f019cb87262e42dde67294b663f9b692dd7519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 19/48] fix: use special values and factories which are not
 strings in namespaces

---
 vistautils/parameters.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 04849b2..bb50f31 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -994,6 +994,19 @@ class Parameters:
                     f"Expected a class with from_parameters or a callable but got {factory}"
                 )
 
+        def evaluate_in_namespace(param_name, specials):
+            special = specials.get(self.namespace(name).string(param_name))
+            # specials are either objects or strings to be evaluated
+            if special is not None and not isinstance(special, str):
+                return special
+            return self.evaluate(
+                name,
+                object,
+                context=context,
+                namespace_param_name=param_name,
+                special_values=specials,
+            )
+
         if name in self:
             if self.has_namespace(name):
                 # The general case is that the user has a namespace providing all the information
@@ -1009,25 +1022,15 @@ class Parameters:
                 if value_namespace_param_name in namespace:
                     # The user specifies the value to be evaluated directly
                     return validate(
-                        self.evaluate(
-                            name,
-                            object,
-                            context=context,
-                            namespace_param_name=value_namespace_param_name,
-                            special_values=special_values,
-                        )
+                        evaluate_in_namespace(value_namespace_param_name, special_values)
                     )
                 elif factory_namespace_param_name in namespace:
                     # The user specifies an expression to be evaluated which yields
                     # a factory which can create an object which this namespace.
                     return validate(
                         apply_factory(
-                            self.evaluate(
-                                name,
-                                object,
-                                context=context,
-                                namespace_param_name=factory_namespace_param_name,
-                                special_values=special_factories,
+                            evaluate_in_namespace(
+                                factory_namespace_param_name, special_factories
                             ),
                             namespace,
                         )
-- 
2.43.0


From 82ecdb55bb92fbd813452046c9aa8f069686465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 20/48] fix: evaluate expressions with dots which are not
 qualified names

---
 vistautils/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index bb50f31..4593467 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -7,6 +7,7 @@ import re
 import shutil
 from datetime import date
 from enum import Enum, EnumMeta
+from itertools import takewhile
 from pathlib import Path
 from typing import (
     Any,
@@ -832,7 +833,9 @@ class Parameters:
         For example, for *foo.bar.baz.meep_function*, these are
         *foo*, *foo.bar*, and *foo.bar.baz*.
         """
-        parts = maybe_fully_qualified_name.split(".")[:-1]
+        parts = list(
+            takewhile(str.isidentifier, maybe_fully_qualified_name.split(".")[:-1])
+        )
         return [".".join(parts[0 : i + 1]) for i in range(len(parts))]
 
     # type ignored because ImmutableDict.empty() has type Dict[Any, Any]
-- 
2.43.0


From 1c46ddb215c5e211645d049ce9079f74efe698c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 21/48] fix: load parameters when an environmental variable has
 a dot in its name

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 4593467..61971cb 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1521,7 +1521,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # and those whose names could not be names of parameters are ignored
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From 0c71da17e9df9dbd63abcc1010219d08ed13df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 22/48] fix: run entry points with explicit parameters

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From c4010bba3cb6e1a8e4586b00b475da0ad51f5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 23/48] fix: read file maps when asked for by type

---
 vistautils/key_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..39c32f5 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -835,12 +835,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
-- 
2.43.0


From 9cb604ed1c840d9daa0fd8242c858b43f0f308f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 24/48] fix: read bytes by default from sources of bytes

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 39c32f5..749ec2c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1010,7 +1010,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From 7424c6676774122b3fbae5a065594ddb67e633cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 25/48] fix: make the documented sink type directory available

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 749ec2c..116c230 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1019,11 +1019,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From 70cb238d0c58c94be2fbdcda46fc4ddc75a171ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 26/48] fix: do not list keys whose values could not be written

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 116c230..03ce456 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,10 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 6fc9b90e8b0c8579b63deef871674552f790a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 27/48] fix: forget the keys of an overwritten zip file

---
 vistautils/key_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 03ce456..8ced38f 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -494,6 +494,7 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        self._keys.clear()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From 1755b65f74b14c2c4e76731ebf3883b335906005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 28/48] fix: accept any mapping as a mapping of paths

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 8ced38f..eef97a5 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -313,7 +313,7 @@ class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMet
 
         The contents of the paths, interpreted as UTF-8, will be the values.
         """
-        return _PathMappingCharKeyValueSource(id_to_path)  # type: ignore
+        return _PathMappingCharKeyValueSource(id_to_path.items())  # type: ignore
 
     @staticmethod
     def from_doc_id_to_file_map(
-- 
2.43.0


From b9c04a6b95a83478a57bca0415ec7b8410c992cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 29/48] fix: strip the whole extension .tar.gz

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From 2b9e2b52233f4be090cc996ce244a9dc4113e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 30/48] fix: unpack tar files to a temporary directory

---
 vistautils/scripts/tar_gz_to_zip.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..6c2bdb1 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,6 +1,7 @@
 import argparse
 import os
 import tarfile
+from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
 USAGE = """
@@ -61,14 +62,14 @@ def main():
         print(f"WARNING: Removing existing file at {output_zip_name}")
         os.remove(output_zip_name)
 
-    with ZipFile(output_zip_name, "x") as out:
+    with ZipFile(output_zip_name, "x", strict_timestamps=False) as out:
         with tarfile.open(tar_file) as inp:
             if dont_stream:
-                inp.extractall()
-                for member in inp:
-                    if member.isfile():
-                        out.write(member.name)
-                    os.remove(member.name)
+                with TemporaryDirectory() as unpacked:
+                    inp.extractall(unpacked)
+                    for member in inp:
+                        if member.isfile():
+                            out.write(os.path.join(unpacked, member.name), member.name)
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From e8e5c30f518d8724899c88ac8888d3a41c53de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 31/48] fix: downsample on Python 3.11 and later

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From a44a8fa86336e0f5de8e7563c34660f30ee1b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 32/48] fix: look for must_be_exhaustive where it is documented

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..7a9b56f 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From 84f9b816dbc34354f4cdf7219de28d66d7423be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 33/48] fix: find files in .tar.gz files whatever the encoding
 of their content

---
 vistautils/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..82eb1dc 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -222,7 +222,7 @@ class _FileWithinTgzCharSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
+        tgz_file = tarfile.open(self._tgz_path, "r:gz")
         # extractfile here returns  binary file object. We are lazy here and load it all into
         # memory to make dealing with the encoding issues simple
         tgz_data = tgz_file.extractfile(self._path_within_tgz)
@@ -244,7 +244,7 @@ class _FileWithinTgzCharSource(CharSource):
         return ret
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
+        tgz_file = tarfile.open(self._tgz_path, "r:gz")
         return tgz_file.getmember(self._path_within_tgz).size == 0
 
 
-- 
2.43.0


From 820a9b7bb456d78de099696e361acb02162dffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 34/48] fix: tell whether compressed sources are empty from
 their decoded content

---
 vistautils/io_utils.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 82eb1dc..9cbab66 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -209,11 +209,6 @@ class _GZipFileSource(CharSource):
     def open(self) -> TextIO:
         return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
 
-    def is_empty(self) -> bool:
-        with gzip.open(self._path) as inp:
-            data = inp.read(1)
-        return len(data) == 0
-
 
 @attrs(slots=True, frozen=True)
 class _FileWithinTgzCharSource(CharSource):
@@ -243,10 +238,6 @@ class _FileWithinTgzCharSource(CharSource):
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret
 
-    def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz")
-        return tgz_file.getmember(self._path_within_tgz).size == 0
-
 
 class CharSink(metaclass=ABCMeta):
     """
-- 
2.43.0


From 003681366184341467131d39c0b976b6f671c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 35/48] fix: omit large files also when tar files are unpacked
 first

---
 vistautils/scripts/tar_gz_to_zip.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6c2bdb1..7ece65d 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -69,22 +69,31 @@ def main():
                     inp.extractall(unpacked)
                     for member in inp:
                         if member.isfile():
-                            out.write(os.path.join(unpacked, member.name), member.name)
+                            if omit_large_files and member.size > large_file_cutoff:
+                                _warn_about_omission(member, args.large_file_cutoff)
+                            else:
+                                out.write(
+                                    os.path.join(unpacked, member.name), member.name
+                                )
             else:
                 for member in inp:
                     if member.isfile():
                         if omit_large_files and member.size > large_file_cutoff:
-                            print(
-                                f"WARNING: Omitting {member.name} as "
-                                f"its size {member.size / 1e9:.2f} GB "
-                                f"exceeds {args.large_file_cutoff:.2f} GB"
-                            )
+                            _warn_about_omission(member, args.large_file_cutoff)
                         else:
                             print(f"Copying {member.name}")
                             with inp.extractfile(member) as data:
                                 out.writestr(member.name, data.read())
 
 
+def _warn_about_omission(member: tarfile.TarInfo, cutoff_in_gigabytes: float) -> None:
+    print(
+        f"WARNING: Omitting {member.name} as "
+        f"its size {member.size / 1e9:.2f} GB "
+        f"exceeds {cutoff_in_gigabytes:.2f} GB"
+    )
+
+
 def _output_name(filename: str) -> str:
     valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
-- 
2.43.0


From c6e97ddf6069426735c6535a638a00737d8a8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 36/48] fix: check that splits of file maps are exhaustive

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index 7a9b56f..069456e 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -117,7 +117,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
     if explicit_split_namespace.boolean(
         "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
     ):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = immutableset(list(source.keys())) - set(  # type: ignore
+            keys_copied
+        )
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From 325c64c897497029d2089bbbd1063666b348944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 37/48] fix: downsample deterministically whatever the hash
 seed

---
 vistautils/scripts/downsample_key_value_store.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index c34a8f6..091a63a 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -32,7 +32,8 @@ _RANDOM_SEED_PARAM = "random_seed"
 
 def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
-        keys = list(input_source.keys())
+        # guarantee deterministic iteration order
+        keys = sorted(input_source.keys())  # type: ignore
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
         random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
-- 
2.43.0


From 77cb6a78d0fc071447eb199a560223533ce94d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 38/48] fix: write the keys of zip files in a deterministic
 order

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index eef97a5..1f5f041 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -57,7 +57,8 @@ def _read_keys_from_keys_file(zip_file: ZipFile) -> Optional[AbstractSet[str]]:
 
 
 def _write_keys_to_keys_file(zip_file: ZipFile, keys: AbstractSet[str]) -> None:
-    zip_file.writestr("__keys", "\n".join(keys).encode("utf-8"))
+    # sorted so that the output does not depend on the order sets happen to have
+    zip_file.writestr("__keys", "\n".join(sorted(keys)).encode("utf-8"))
 
 
 class KeyValueSink(Generic[K, V], metaclass=ABCMeta):
-- 
2.43.0


From ae91492bd5270b784097c1f402fabce39f801a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 39/48] fix: make range maps of built-in dictionaries on Python
 3.10 and later

---
 vistautils/range.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 61593ca..4b79de1 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1413,6 +1413,9 @@ class ImmutableRangeMap(Generic[K, V], RangeMap[K, V]):
 def immutablerangemap(
     mappings: Optional[Iterable[Tuple[Range[K], V]]] = None
 ) -> ImmutableRangeMap[K, V]:
+    if isinstance(mappings, Mapping):
+        # immutabledict refuses built-in dictionaries on Python 3.10 and later
+        mappings = mappings.items()
     return ImmutableRangeMap(immutabledict(mappings))
 
 
-- 
2.43.0


From bffad20fca4d0e69e100a0e67c0dee2a6b752f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 40/48] fix: accept built-in dictionaries of attributes on
 Python 3.10 and later

---
 vistautils/annotated_text_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 6a8f27c..ff1efdd 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -8,12 +8,12 @@ is itself derived from code from BBN Technologies.
 """
 import io
 import itertools
-from typing import Collection, Iterable, List, Mapping, Optional, Sequence
+from typing import Any, Collection, Iterable, List, Mapping, Optional, Sequence
 
 from attr import attrib, attrs, evolve
 from attr.validators import instance_of
 
-from immutablecollections import immutabledict
+from immutablecollections import ImmutableDict, immutabledict
 
 from vistautils.preconditions import check_arg
 from vistautils.span import Span
@@ -22,6 +22,13 @@ DIV = "div"
 SPAN = "span"
 
 
+def _to_immutabledict(attributes: Any) -> ImmutableDict[str, str]:
+    if isinstance(attributes, Mapping):
+        # immutabledict refuses built-in dictionaries on Python 3.10 and later
+        attributes = attributes.items()
+    return immutabledict(attributes)
+
+
 @attrs(frozen=True, slots=True)
 class AnnotatedSpan:
     """
@@ -37,7 +44,7 @@ class AnnotatedSpan:
     label: str = attrib(validator=instance_of(str))
     span: Span = attrib(validator=instance_of(Span))
     attributes: Mapping[str, str] = attrib(
-        default=immutabledict(), converter=immutabledict
+        default=immutabledict(), converter=_to_immutabledict
     )
 
     @staticmethod
-- 
2.43.0


From 786795ddf544072524bcb20deac32677e545591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 41/48] fix: reset_all of checkpoints in a directory given as a
 symbolic link or as '.'

reset_all removed the directory and made it again, which fails with OSError for
a symbolic link (and, after removing the content, for the current directory).
It now empties the directory instead.
---
 vistautils/checkpoints.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vistautils/checkpoints.py b/vistautils/checkpoints.py
index 9c9b979..cc0d419 100644
--- a/vistautils/checkpoints.py
+++ b/vistautils/checkpoints.py
@@ -59,5 +59,10 @@ class _CheckPointDirectory(Checkpoints):
         return Path(self.directory, item).is_file()
 
     def reset_all(self) -> None:
-        shutil.rmtree(str(self.directory))
-        self.directory.mkdir(parents=True, exist_ok=True)
+        # we empty the directory rather than remove and recreate it because the latter fails
+        # if it was given as a symbolic link or as the current directory
+        for child in self.directory.iterdir():
+            if child.is_dir() and not child.is_symlink():
+                shutil.rmtree(str(child))
+            else:
+                child.unlink()
-- 
2.43.0


From 271faf79d588419cd056c4c6cd654085151a3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 42/48] fix: entries of a .tar.gz whose key is the empty string
 were skipped

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 1f5f041..644a70d 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -742,7 +742,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             for member in self.inp:  # type: ignore
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-                    if key and key_filter(key):
+                    if key is not None and key_filter(key):
                         data = self.inp.extractfile(member)  # type: ignore
                         if data:
                             with data:
-- 
2.43.0


From 9481e10e7ff97c8d290c2156f3bebb475cf279ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 43/48] fix: text formatted with offsets below zero lost its
 end

---
 vistautils/annotated_text_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index ff1efdd..9362811 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -120,8 +120,8 @@ class HTMLStyleAnnotationFormatter:
             ret.write(tag.string)
 
         # get any trailing text after last tag
-        if last_uncopied_offset < text_offsets.end:
-            ret.write(text[last_uncopied_offset : text_offsets.end])
+        if last_uncopied_offset < len(text):
+            ret.write(text[last_uncopied_offset:])
         return ret.getvalue()
 
     @staticmethod
-- 
2.43.0


From 8bbeed3fd3d3473921552fcfebcee4d9f023cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 44/48] fix: keep the prefix of every namespace when
 Parameters.from_mapping is given it as an iterator

---
 vistautils/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 61971cb..3327d4b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -107,6 +107,8 @@ class Parameters:
         becomes a namespace.
         """
         check_isinstance(mapping, Mapping)
+        # the prefix is used for each sub-namespace, but any iterable is accepted
+        namespace_prefix = tuple(namespace_prefix)
         ret: List[Tuple[str, Any]] = []
         for (key, val) in mapping.items():
             if isinstance(val, Mapping):
-- 
2.43.0


From 4d1ff1fb1d08503f0daf1a67ab9cf1201781ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:57 +0000
Subject: [PATCH 45/48] fix: write parameter values of subclasses of str, int
 and float as plain YAML values

---
 vistautils/parameters.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 3327d4b..eb0cfa1 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1745,6 +1745,26 @@ class YAMLParametersLoader:
         )
 
 
+class _ParametersDumper(yaml.Dumper):  # pylint:disable=too-many-ancestors
+    """
+    Writes values of subclasses of `str`, `int`, and `float`,
+    for example members of an `IntEnum`, as the plain values they are equal to.
+
+    By default they would be written as Python objects, which parameter files cannot contain.
+    """
+
+
+_ParametersDumper.add_multi_representer(
+    str, lambda dumper, value: dumper.represent_str(str.__str__(value))
+)
+_ParametersDumper.add_multi_representer(
+    int, lambda dumper, value: dumper.represent_int(int.__int__(value))
+)
+_ParametersDumper.add_multi_representer(
+    float, lambda dumper, value: dumper.represent_float(float.__float__(value))
+)
+
+
 @attrs(frozen=True)
 class YAMLParametersWriter:
     def write(self, params: Parameters, sink: Union[Path, str, CharSink]) -> None:
@@ -1756,6 +1776,7 @@ class YAMLParametersWriter:
             yaml.dump(
                 self._preprocess_dicts(params.as_nested_dicts()),
                 out,
+                Dumper=_ParametersDumper,
                 # prevents leaf dictionaries from being written in the
                 # human unfriendly compact style
                 default_flow_style=False,
-- 
2.43.0


From 8df5e88227d68bc3319305a98ac7efeb6fe5fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:00 +0000
Subject: [PATCH 46/48] fix: do not add to the mappings given as values of
 pairs when making parameters

---
 vistautils/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index eb0cfa1..9707694 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -137,6 +137,8 @@ class Parameters:
         If a key name contains *namespace_separator` (default "."),
         then the resulting `Parameters` will have the appropriate nested namespaces.
         """
+        # later pairs may add to a namespace given as a value, but not to the caller's mapping
+        kv_pairs = [(k, _copy_of_namespaces(v)) for (k, v) in kv_pairs]
         ret: MutableMapping[str, Any] = {}
         for (k, v) in kv_pairs:
             if k:
@@ -1381,6 +1383,12 @@ def _extend_prefix(
     return tuple(ret)
 
 
+def _copy_of_namespaces(value: Any) -> Any:
+    if isinstance(value, Mapping):
+        return {key: _copy_of_namespaces(val) for (key, val) in value.items()}
+    return value
+
+
 @attrs(auto_attribs=True)
 class YAMLParametersLoader:
     """
-- 
2.43.0


From b9c5538113924c87fe474301b61a8d2d42ec3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:28 +0000
Subject: [PATCH 47/48] fix: qualify names in namespaced_items by the place of
 the namespace they are in

---
 vistautils/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 9707694..9c3d323 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -182,6 +182,11 @@ class Parameters:
         """
         for (key, value) in self._data.items():
             if isinstance(value, Parameters):
+                # namespaces given as parameters may have the prefix of another place
+                value = Parameters(
+                    value._data,
+                    namespace_prefix=_extend_prefix(self.namespace_prefix, key),
+                )
                 for (param_name, value) in value.namespaced_items():
                     yield param_name, value
             else:
-- 
2.43.0


From e7e1569c30df1a45f0ea8e1e77196e2a48948feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:27 +0000
Subject: [PATCH 48/48] fix: format an empty text without failing for lack of
 an empty span

---
 vistautils/annotated_text_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 9362811..366c959 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -97,6 +97,9 @@ class HTMLStyleAnnotationFormatter:
         `text_offsets` relative to it.  You might use this, for example, to render a single
         paragraph from a document.
         """
+        if not text and text_offsets is None:
+            # a span cannot be empty, and there is nothing which could be annotated
+            return text
         if not text_offsets:
             text_offsets = Span.from_inclusive_to_exclusive(0, len(text))
         check_arg(
-- 
2.43.0

