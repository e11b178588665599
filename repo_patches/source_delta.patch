From 84a8b9e0954b31c4433da59557b9a631dff00eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 01/38] fix: use the key's own handler when a Dict value type
 is seen for the first time

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..e903d24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From cd19c73fef50f7bdddfa4879b06122b3eb80e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/38] fix: keep the trace of errors happening inside
 dictionaries

---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e903d24..67a7b4a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -418,6 +418,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
-- 
2.43.0


From dda5e16c125ab7408325f5602ae3ef8cf88dfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 03/38] fix: raise TypedloadTypeError when loading a value with
 no length into a tuple

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 67a7b4a..8911662 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -436,9 +436,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        length = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
-- 
2.43.0


From 48b4e2101922cf3de7dd26595ed2fed7b9e88f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 04/38] fix: do not fail with AssertionError on unhashable
 values in the discriminator field of a Union

---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8911662..ec60dae 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -708,7 +708,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # The value is not hashable, so it can't match any literal
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From abad847b618d4bb8448ef7fe19225f2b98707170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 05/38] fix: check the type of the pattern when loading
 Pattern[str] and Pattern[bytes]

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ec60dae..6b5555e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -830,7 +830,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From d7776bf2ad2000622828f3ddc91cac57b52cc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 06/38] fix: raise TypedloadException for patterns too big or
 too nested to be compiled

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6b5555e..649a02f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -836,7 +836,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
-    except re.error as e:
+    except (re.error, OverflowError, RecursionError) as e:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
-- 
2.43.0


From 686b7d5d4c43d8560539bf530c9930c38c419c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 07/38] fix: raise TypedloadValueError when loading numbers too
 big for a date

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 649a02f..8340f0a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -825,7 +825,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
             return type_(*value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
-    except ValueError as e:
+    except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
 
 
-- 
2.43.0


From abaa15b4658704a00750291bb7b3124ed37b0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 08/38] fix: raise TypedloadValueError when loading invalid
 numbers into a timedelta

---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8340f0a..7cfa409 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -847,6 +847,8 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (ValueError, OverflowError) as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From d6939687b75bfba244d9d64f83daadcd17a5cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 09/38] fix: only put typedload exceptions in the
 sub-exceptions of a failed Enum load

---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7cfa409..0f82173 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -791,8 +791,10 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     for _, t in get_type_hints(type_).items():
         try:
             return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            exceptions.append(TypedloadException(str(e), value=value, type_=type_))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From d9724e80aadff7b5fd37aef3fc689f3072261321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 10/38] fix: do not modify the annotations of a TypedDict while
 loading it

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 0f82173..639cbc8 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -637,7 +637,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From 8b6d70f0f61d199d63059d378c001dc69cc93a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 11/38] fix: load argparse.Namespace into classes with mangled
 names

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 639cbc8..868ad52 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -523,7 +523,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
     try:
-        value = _mangle_names(transforms, value, l.failonextra)
+        value = _mangle_names(transforms, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
@@ -885,7 +885,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
     try:
-        value = _mangle_names(namesmap, value, l.failonextra)
+        value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
-- 
2.43.0


From 2ca351bceeab9a5b1eed56ed2671e639163ab784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 12/38] fix: make the types encountered inside other types
 known, to resolve ForwardRef

---
 typedload/dataloader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 868ad52..b23f2aa 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -257,6 +257,11 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__'):
+                    typename = type_.__name__
+                    if typename not in self.frefs:
+                        self.frefs[typename] = type_
                 return i
         raise ValueError('No matching condition found')
 
@@ -289,12 +294,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From dbf10e7f3aa2bc257624c731fb44773302a754a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 13/38] fix: do not put a None component in the path of errors
 inside a NewType

---
 typedload/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..e57d7d6 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -110,7 +110,7 @@ class TypedloadException(Exception):
         for i in trace:
             if i.annotation:
                 path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
-            else:
+            elif not path:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
             return '.'
-- 
2.43.0


From cf1f028a99b856706c9a7baf8df7557e7ce2013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 14/38] fix: raise the right exception when no handler can dump
 a tuple

---
 typedload/datadumper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..f9c34d1 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -175,7 +175,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % value, value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % (value,), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
-- 
2.43.0


From c19304a49eac6a8579a234900e01f98fba98d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/38] fix: dump dataclasses that have forward references in
 their fields

---
 typedload/datadumper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index f9c34d1..979b6c0 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -268,7 +268,7 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        type_hints = {k: v.type for k, v in value.__dataclass_fields__.items()}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From b4d70720f77b199f8fbb951e65cd53b8d05d1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 16/38] fix: dump attrs classes having default factories with
 takes_self

---
 typedload/datadumper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 979b6c0..2c3c5be 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,10 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                default = attr.default.factory(value) if attr.default.takes_self else attr.default.factory()
+                if attrval == default:
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From 53e9d4b502389d9856c1d39f028d88a4b7d77089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 17/38] fix: load back the dump of classes having fields with
 init=False

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b23f2aa..933c5d5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -500,7 +500,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
+        fields = {k for k, v in type_.__dataclass_fields__.items() if v.init}
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
                             v.init == True and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
@@ -870,7 +870,7 @@ def _get_attr_converter_type(c: "Callable"):
 def _attrload(l: Loader, value: Any, type_) -> Any:
     from attr._make import _Nothing as NOTHING
 
-    fields = {i.name for i in type_.__attrs_attrs__}
+    fields = {i.name for i in type_.__attrs_attrs__ if i.init}
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
-- 
2.43.0


From 37a5bb2c99235eacd6279fd4c9ce8380eec25e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 18/38] fix: class variables of a dataclass are not fields to
 load and dump

---
 typedload/datadumper.py | 5 +++--
 typedload/dataloader.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 2c3c5be..d72cfb5 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -265,8 +265,9 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     t = type(value)
     cached = d._dataclasscache.get(t)
     if cached is None:
-        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE, fields as dataclass_fields
+        # This excludes ClassVar and InitVar
+        fields = {i.name for i in dataclass_fields(value)}
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 933c5d5..8c26591 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -500,9 +500,11 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = {k for k, v in type_.__dataclass_fields__.items() if v.init}
+        from dataclasses import _FIELD_CLASSVAR as DT_CLASSVAR # type: ignore
+        # What the constructor accepts. Class variables are not fields
+        fields = {k for k, v in type_.__dataclass_fields__.items() if v.init and v._field_type is not DT_CLASSVAR}
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
-                            v.init == True and # Is a field for the constructor
+                            k in fields and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
                             }
         if l.pep563:
-- 
2.43.0


From 111dd968913d0308b3df8457a86cca72b3e65d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 19/38] fix: load attrs classes having private attributes

---
 typedload/dataloader.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8c26591..4e28af5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -869,21 +869,34 @@ def _get_attr_converter_type(c: "Callable"):
     return Any
 
 
+def _get_attr_init_name(attribute) -> str:
+    """
+    The name of the constructor's parameter for an attr field.
+
+    attrs removes the leading underscores from it, and since 22.2 it
+    can be changed with alias.
+    """
+    return getattr(attribute, 'alias', None) or attribute.name.lstrip('_')
+
+
 def _attrload(l: Loader, value: Any, type_) -> Any:
     from attr._make import _Nothing as NOTHING
 
-    fields = {i.name for i in type_.__attrs_attrs__ if i.init}
+    fields = {_get_attr_init_name(i) for i in type_.__attrs_attrs__ if i.init}
     necessary_fields = set()
-    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
+    type_hints = {_get_attr_init_name(i): (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
 
     for attribute in type_.__attrs_attrs__:
+        init_name = _get_attr_init_name(attribute)
         if attribute.default is NOTHING and attribute.init:
-            necessary_fields.add(attribute.name)
+            necessary_fields.add(init_name)
 
         # Manage name mangling
         if l.mangle_key in attribute.metadata:
-            namesmap[attribute.metadata[l.mangle_key]] = attribute.name
+            namesmap[attribute.metadata[l.mangle_key]] = init_name
+        elif init_name != attribute.name:
+            namesmap[attribute.name] = init_name
 
     try:
         value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
-- 
2.43.0


From fe0a7c03bb4e97f3e043dce0c0efb87b7e8886bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 20/38] fix: report extra fields whose name is not a string

With failonextra, data having a key that is not a string made load() fail with an
AssertionError, because the names of the extra fields were joined as they are.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 4e28af5..7ffd648 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -575,7 +575,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(str(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From 1b1e688ae9254c0a332106dbf539d4d47338da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 21/38] fix: errors of an object's constructor carry the value
 and the type

Like every other error about a value that can not be converted.
---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7ffd648..a0cf852 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -611,9 +611,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 0e4a0ea12c789a1eae66df0be2f8a4591667f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 22/38] fix: show the path from the root for nested
 sub-exceptions

---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index e57d7d6..e1351d9 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -126,9 +126,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0


From 1335e54e4128915bd2a9412995cdbb1efee1e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 23/38] fix: do not share the discriminator cache among unions
 having a different order

---
 typedload/dataloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a0cf852..db8256f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -240,7 +240,7 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -686,7 +686,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasattr(value, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        discriminatorscache = l._unionload_discriminatorcache.get(args)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -704,7 +704,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[args] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From 574d8bfeff43fe301da09b41b344c357c4b9aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 24/38] fix: load argparse.Namespace having an attribute named
 keys

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index db8256f..e7fb345 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -555,7 +555,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     '''
     try:
         vfields = set(value.keys())
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         newvalue = _dictequivalence(l, value)
 
         if newvalue is value:
-- 
2.43.0


From 28fcaeae66ed14bb452919bd35cae404ebadf546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 25/38] fix: load attrs classes whose converter has only the
 return annotated

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e7fb345..5ee8079 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -865,7 +865,7 @@ def _get_attr_converter_type(c: "Callable"):
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-        return next(iter(hints.values()))
+        return next(iter(hints.values()), Any)
     return Any
 
 
-- 
2.43.0


From c8a07c6ea2ea5fa73b4f605a775a9f6f23b0a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 26/38] fix: load attrs classes whose converter is a callable
 object without annotations

---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5ee8079..f762767 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -861,7 +861,11 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    try:
+        hints = get_type_hints(c)
+    except TypeError:
+        # Callable objects can have no annotations
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-- 
2.43.0


From 70b763f38e6c1433d5319984cffe6eb4f367aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 27/38] fix: data with an attribute called items that is not a
 method raised AssertionError

Loading an object that has an attribute items which is not callable, or a
dictionary whose keys are loaded into something not hashable, raised a
TypeError inside of the handler, so load() failed with AssertionError.
---
 typedload/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index f762767..edbf90b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -421,6 +421,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
@@ -527,7 +529,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         value = _mangle_names(transforms, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
@@ -906,7 +908,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
-- 
2.43.0


From 782eac241922a833d0431b0a30c508e1002b4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 28/38] fix: values whose _get_kwargs is not the method of a
 Namespace

load(argparse.Namespace, Dict[str, int]), with the class instead of an
instance, and Namespace(_get_kwargs=1) ended in an AssertionError.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index edbf90b..9707013 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -547,7 +547,11 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     '''
     # Convert argparse.Namespace to dictionary
     if l.dictequivalence and hasattr(value, '_get_kwargs'):
-        return {k: v for k,v in value._get_kwargs()}
+        try:
+            return {k: v for k,v in value._get_kwargs()}
+        except TypeError:
+            # It's not the method of a Namespace object
+            pass
     return value
 
 
-- 
2.43.0


From c17734b4f3576c6b1277a57141f9a5a33d75942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 29/38] fix: errors about values that can't be printed

Loader(basiccast=False).load(10 ** 5000, str), load(10 ** 5000, SomeEnum)
and the same with deeply nested lists ended in an AssertionError, because
making the message for the exception failed.
---
 typedload/dataloader.py | 12 ++++++------
 typedload/helpers.py    | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 9707013..3e6173a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -34,7 +34,7 @@ import uuid
 from .exceptions import *
 from .typechecks import *
 from .typechecks import discriminatorliterals
-from .helpers import tname
+from .helpers import text, tname
 
 
 __all__ = [
@@ -357,7 +357,7 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
             except Exception as e:
                 raise TypedloadException(str(e), value=value, type_=type_)
         else:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (text(value, repr), tname(type(value)), tname(type_)), value=value, type_=type_)
     return value
 
 
@@ -581,7 +581,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(str(i) for i in extra_fields)
+        extra = ', '.join(text(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
@@ -803,8 +803,8 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
         except Exception as e:
             exceptions.append(TypedloadException(str(e), value=value, type_=type_))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
-        lst = '\nValue %s not between: ' % repr(value) + \
-        ', '.join(repr(i.value) for i in type_.__members__.values())
+        lst = '\nValue %s not between: ' % text(value, repr) + \
+        ', '.join(text(i.value, repr) for i in type_.__members__.values())
     else:
         lst = ''
     raise TypedloadValueError(
@@ -842,7 +842,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
     if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (text(value, repr), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
     except (re.error, OverflowError, RecursionError) as e:
diff --git a/typedload/helpers.py b/typedload/helpers.py
index 1aa8d71..553ac2a 100644
--- a/typedload/helpers.py
+++ b/typedload/helpers.py
@@ -22,7 +22,7 @@ Internal helper functions
 # author Salvo "LtWorf" Tomaselli <tiposchi@tiscali.it>
 
 from enum import Enum
-from typing import Any, Tuple, Union, Set, List, Dict, Type, FrozenSet
+from typing import Any, Callable, Tuple, Union, Set, List, Dict, Type, FrozenSet
 
 
 __all__ = [
@@ -34,4 +34,17 @@ def tname(type_) -> str:
     '''
     Return a nice string for a type
     '''
-    return getattr(type_, '__qualname__', str(type_))
+    return getattr(type_, '__qualname__', text(type_))
+
+
+def text(value: Any, convert: Callable[[Any], str] = str) -> str:
+    '''
+    Text of a value to use in a message.
+
+    It never fails, while str() and repr() do for huge integers
+    and for data that is too nested.
+    '''
+    try:
+        return convert(value)
+    except Exception:
+        return object.__repr__(value)
-- 
2.43.0


From 2b5a8442600135f8a091b416d10aedba1e001286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 30/38] fix: str() of exceptions that have values that can't be
 printed in their path

str() of the error of load({10 ** 5000: 1}, Dict[str, int]) failed.
---
 typedload/exceptions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index e1351d9..96414fd 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -24,6 +24,8 @@ Exceptions
 from enum import Enum
 from typing import Any, List, NamedTuple, Optional, Type, Union
 
+from .helpers import text
+
 
 __all__ = [
     'TypedloadException',
@@ -109,7 +111,7 @@ class TypedloadException(Exception):
         path = []
         for i in trace:
             if i.annotation:
-                path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
+                path.append(text(i.annotation[1], '[%d]'.__mod__ if isinstance(i.annotation[1], int) else str))
             elif not path:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
-- 
2.43.0


From 9a488b741cd9da05b3f3fc3422749e87c4aa2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 31/38] fix: error for values that can't be dumped nor printed

dump(collections.deque([10 ** 5000])) failed with a ValueError that is
not a TypedloadValueError.
---
 typedload/datadumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index d72cfb5..6518915 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -30,6 +30,7 @@ from typing import *
 import uuid
 
 from .exceptions import TypedloadValueError
+from .helpers import text
 from .typechecks import is_attrs, NONETYPE
 
 
@@ -175,7 +176,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % (value,), value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % text(value), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
-- 
2.43.0


From a9b032640ab3ea8fa2d5a1d49da0c72b0357556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 32/38] fix: classes are not dumped as if they were instances
 of themselves

The conditions for dataclasses and attrs looked at the value, so that a
class was taken for an instance. Since handlers are cached by the type of
the value, every other class was then dumped by the same handler.
---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 6518915..e8ace18 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -143,11 +143,11 @@ class Dumper:
         self.handlers = [
             (lambda value: type(value) in self.basictypes, _identitydump),
             (lambda value: isinstance(value, tuple) and hasattr(value, '_fields') and hasattr(value, '_asdict'), _namedtupledump),
-            (lambda value: '__dataclass_fields__' in dir(value), _dataclassdump),
+            (lambda value: '__dataclass_fields__' in dir(type(value)), _dataclassdump),
             (lambda value: isinstance(value, (list, tuple, set, frozenset)), _iteratordump),
             (lambda value: isinstance(value, Enum), lambda l, value, t: l.dump(value.value)),
             (lambda value: isinstance(value, Dict), lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),
-            (is_attrs, _attrdump),
+            (lambda value: is_attrs(type(value)), _attrdump),
             (lambda value: isinstance(value, (datetime.date, datetime.time)), _datetimedump),
             (lambda value: isinstance(value, datetime.timedelta), _timedeltadump),
             (lambda value: isinstance(value, re.Pattern), _patterndump),
-- 
2.43.0


From de50a7c9428984fd1a445804b112547ce49e5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 33/38] fix: literals given values that can't be compared to
 them

Like a signaling NaN of decimal, or an array of numpy.
---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3e6173a..a2fe81f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -331,8 +331,12 @@ def _literalload(l: Loader, value: Any, type_) -> Any:
     Checks if the value is within the allowed literals and
     returns it.
     """
-    if value in type_.__args__:
-        return value
+    try:
+        if value in type_.__args__:
+            return value
+    except Exception:
+        # It can't be compared, so it's not one of them
+        pass
     raise TypedloadValueError('Not one of the allowed values in %s' % tname(type_), value=value, type_=type_)
 
 
-- 
2.43.0


From f5227afad6519e6cc0f389300d0e93c61445ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 34/38] fix: dates given an iterable that fails

---
 typedload/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a2fe81f..99bfd30 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -840,6 +840,9 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        # From iterating the value
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-- 
2.43.0


From df18b710bdb2fffbf489dc072b5e688d3198ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 35/38] fix: dataclass fields whose mangled name is empty

They were dumped with the empty name, but not loaded from it.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 99bfd30..1e237ad 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -525,7 +525,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         for pyname in fields:
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
+                if name is not None:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
-- 
2.43.0


From 4a4ae87255ab06652b620fac2699e3d05eac291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 36/38] fix: unions of discriminated objects given values that
 can't be compared to the literals

Like the ones that are not hashable, they match none of them.
---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1e237ad..d09a6ae 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -721,8 +721,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         if discriminatorscache[1]:
             try:
                 preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
-            except TypeError:
-                # The value is not hashable, so it can't match any literal
+            except Exception:
+                # The value is not hashable or it can't be compared, so it can't match any literal
                 preferredtype = None
             if preferredtype:
                 # Place best value on top
-- 
2.43.0


From d79850f86683f82a4aff7a10ba590241745994b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:31 +0000
Subject: [PATCH 37/38] fix: default factories of dataclasses that give
 something else every time

A field was compared with what its factory gave when the class was first
dumped, so it could be left out when it was not the default any more.
---
 typedload/datadumper.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index e8ace18..224b2bd 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -155,7 +155,7 @@ class Dumper:
         ]  # type: List[Tuple[Callable[[Any], bool], Callable[['Dumper', Any, Any], Any]|Callable[['Dumper', Any], Any]]]
 
         self._handlerscache = {}  # type: Dict[Type[Any], Callable[['Dumper', Any, Any], Any]]
-        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any]]]
+        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any], Dict[str, Any]]]
 
         for k, v in kwargs.items():
             setattr(self, k, v)
@@ -270,12 +270,16 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         # This excludes ClassVar and InitVar
         fields = {i.name for i in dataclass_fields(value)}
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
-        field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
-        defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
+        field_factories = {k: v.default_factory for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         type_hints = {k: v.type for k, v in value.__dataclass_fields__.items()}
-        d._dataclasscache[t] = (fields, defaults, type_hints)
+        d._dataclasscache[t] = (fields, field_defaults, field_factories, type_hints)
     else:
-        fields, defaults, type_hints = cached
+        fields, field_defaults, field_factories, type_hints = cached
+
+    defaults = field_defaults
+    if d.hidedefault and field_factories:
+        # Merge the two dictionaries. Factories can give something else every time
+        defaults = {**field_defaults, **{k: v() for k, v in field_factories.items()}}
 
     r = {
         value.__dataclass_fields__[f].metadata.get(d.mangle_key, f) : d.dump(getattr(value, f), type_hints.get(f, Any)) for f in fields
-- 
2.43.0


From fc8a0681529a783cc518fef0aa10e4b2dd1dd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:24 +0000
Subject: [PATCH 38/38] fix: dictionaries whose values are iterators, failing
 to load

The dictionary was loaded again to find the item that failed, and the
iterators were already consumed. So the second time the items could load
as if they were empty, or another item was reported.
---
 typedload/dataloader.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index d09a6ae..bb13ec5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -406,27 +406,26 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     value = _dictequivalence(l, value)
 
-    # Try fast load
-    try:
-        return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
-            for k, v in value.items()
-        }
-    except Exception:
-        # Failed, do the slow method with exception tracking
-        pass
-
+    # It's done in one pass because the items might be iterators
+    r = {}
     try:
-        return {
-            l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
-            for k, v in value.items()}
-    except TypedloadException:
-        raise
+        for k, v in value.items():
+            # What is being loaded, to track the exceptions
+            where = AnnotationType.KEY
+            key = k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type)
+            where = AnnotationType.VALUE
+            r[key] = v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type)
+    except TypedloadException as e:
+        if where == AnnotationType.KEY:
+            e.trace.insert(0, TraceItem(k, key_type, Annotation(where, k)))
+        else:
+            e.trace.insert(0, TraceItem(v, value_type, Annotation(where, v)))
+        raise e
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    return r
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
-- 
2.43.0

