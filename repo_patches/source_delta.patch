From 313d9b0b3bf8b3bf87d1ba903e0889e034f90fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 01/50] fix: dump negative UTC offsets with the correct minutes

The minutes of a negative offset were taken modulo 60 before the sign was
stripped: -00:45 was dumped as -00:15 and -03:15 as -03:45, so that such a
datetime did not survive a round trip. A zero offset is now +00:00 (-00:00
means "unknown" in RFC3339).
---
 jsons/_datetime_impl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..55cdd74 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -86,10 +86,11 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     :return: the offset for ``tdelta``.
     """
     offset_s = tdelta.total_seconds()
-    offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
-    offset_t = time(abs(offset_h), abs(offset_m))
-    operator = '+' if offset_s > 0 else '-'
+    # Use the absolute value, the sign is provided by the operator.
+    offset_h = int(abs(offset_s) / 3600)
+    offset_m = int((abs(offset_s) / 60) % 60)
+    offset_t = time(offset_h, offset_m)
+    operator = '+' if offset_s >= 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
 
-- 
2.43.0


From 00bfe1522a917ed9e679635b95816edef8b18376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 02/50] fix: dump years before 1000 with four digits

strftime('%Y') does not pad the year on Linux, which resulted in text that is
not RFC3339 and that could not be loaded back.
---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 55cdd74..37fdc61 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,9 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    if '%Y' in pattern:
+        # The %Y of strftime is not zero-padded on every platform.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 4337e7ed194055395a35c3595a84239eac7e0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 03/50] fix: load times with microseconds

A time is dumped with its microseconds, but could not be loaded with them.
---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 3783d357b52d94e150ec12ecef80f5e875ac1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 04/50] fix: do not dump a timezone that is merely named UTC as
 UTC

timezone(timedelta(hours=5), 'UTC') was dumped with the suffix Z.
---
 jsons/_datetime_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 37fdc61..b037d79 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -75,7 +75,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if tzone is timezone.utc or tzone.utc is timezone.utc:
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+            or tzone.utcoffset(None)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 1956a8e110c1aece8c167659877e740847054aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 05/50] fix: do not alter the source when loading a dict with
 hashed keys

The -keys section of the given dict was emptied, so that the same dict could
not be loaded a second time (e.g. by the next type of a Union).
---
 jsons/deserializers/default_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..06b806e 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -46,7 +46,8 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
+        # Copy the -keys as well, since obj must not be altered.
+        result = {**obj, '-keys': {**obj['-keys']}}
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-- 
2.43.0


From 73a5c60a55330a6db4f3985ec93bdc4c414c584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 06/50] fix: dump naive datetimes with the local offset

tzone.utc is timezone.utc for every datetime.timezone, so naive datetimes, which
are treated as local times, were always dumped with +00:00. Moreover, the offset
of today was meant to be used rather than the offset at the datetime in
question.
---
 jsons/_datetime_impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index b037d79..6b21621 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -71,8 +71,12 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        try:
+            tzone = obj.astimezone().tzinfo
+        except (OverflowError, ValueError, OSError):
+            # Too close to datetime.min or datetime.max.
+            tzone = datetime.now(timezone.utc).astimezone().tzinfo
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
-- 
2.43.0


From e9157706a3a714930e2cedb16811920087936d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 07/50] fix: load a dump that has meta info without classes

A dump with Verbosity.WITH_DUMP_TIME could not be loaded (KeyError), and meta
info that is malformed made a foreign exception escape from load.
---
 jsons/_common_impl.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..974bc83 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,7 @@ from typing import Callable, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import DeserializationError, UnknownClassError
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -121,9 +121,16 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        classes = meta.get('classes', {}) if isinstance(meta, dict) else None
+        if not isinstance(classes, dict):
+            msg = 'Invalid meta info: "{}"'.format(meta)
+            raise DeserializationError(msg, json_obj, None)
+        if '/' not in classes:
+            # There is no class info (e.g. Verbosity.WITH_DUMP_TIME only).
+            return None, meta
+        cls = get_cls_from_str(classes['/'], json_obj, fork_inst)
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From 8f0c7e018ed5a6582283d9e98734de36e7510add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 08/50] fix: raise UnknownClassError for class names that make
 no sense

Names such as "a[b]c[d]", "..x" or a name that is not even a string made a
ValueError or TypeError escape from load.
---
 jsons/_common_impl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 974bc83..2c3bcbc 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -75,18 +75,24 @@ def _get_special_cases(cls: type):
 
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
+    if not isinstance(cls_str, str):
+        msg = 'Invalid class name: "{}"'.format(cls_str)
+        raise UnknownClassError(msg, source, cls_str)
     cls = getattr(builtins, cls_str, None)
     if cls:
         return cls
     if '[' in cls_str and ']' in cls_str:
-        return _get_generic_cls_from_str(cls_str, source, fork_inst)
+        try:
+            return _get_generic_cls_from_str(cls_str, source, fork_inst)
+        except (TypeError, ValueError):
+            return _lookup_announced_class(cls_str, source, fork_inst)
     try:
         splitted = cls_str.split('.')
         module_name = '.'.join(splitted[:-1])
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+    except (ImportError, AttributeError, TypeError, ValueError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
-- 
2.43.0


From 1bc0c4552bb47076afbf043dd6a36c117a1aad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 09/50] fix: raise a DeserializationError if loadb cannot
 decode its bytes

---
 jsons/_load_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..83fd468 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -181,7 +181,11 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        msg = 'Could not decode the given bytes using {}'.format(encoding)
+        raise DeserializationError(msg, bytes_, cls) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From 97fb29f02ceec715cd75adf21465709f5b4245de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 10/50] fix: do not share validators and announced classes
 between forks

A validator that was set on a fork was also applied by the type that was forked
and by all of its other forks.
---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..a8cb91c 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From ca925449814d316b4519818e47dccf876fe48d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 11/50] fix: do not choke on classes with union or optional in
 their name

Loading None into such a class raised a TypeError.
---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 2c3bcbc..197893e 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -146,7 +146,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From 09353ad3c57934af1d07998711f425332b3baf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 12/50] fix: let registrations take effect immediately

The lookups of (de)serializers and validators are cached. A lookup outside a
load or dump, or a load that returned its source as is, left entries in the
cache that made a subsequent registration ineffective. E.g. a validator for int
was ignored if an int had been loaded before.
---
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..6300803 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()  # Any cached serializer may be outdated by now.
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()  # Any cached deserializer may be outdated by now.
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..68b02d7 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+    clear()  # Any cached validator may be outdated by now.
 
 
 @cached
-- 
2.43.0


From e462b367dae4073097f44ae7d87a9744ff161031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 13/50] fix: pass on the key_transformer when loading tuples

---
 jsons/deserializers/default_tuple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..8d916de 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -24,6 +24,7 @@ def default_tuple_deserializer(obj: list,
     """
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
+    kwargs['key_transformer'] = key_transformer
     cls_args = get_args(cls)
     if cls_args:
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
-- 
2.43.0


From 7cbc98eeee7766495a4043254775cd796e6b8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 14/50] fix: dump a timezone for which the cls is given

The cls was passed on to the dump of the offset, so that e.g. a dataclass with
an attribute of type timezone could not be dumped.
---
 jsons/serializers/default_timezone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..7b0062d 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -12,7 +12,9 @@ def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-    offset = dump(obj.utcoffset(None), **kwargs)
+    # The type that is given (if any) is that of obj, not that of the offset.
+    kwargs_ = {**kwargs, 'cls': None}
+    offset = dump(obj.utcoffset(None), **kwargs_)
     return {
         'name': name,
         'offset': offset
-- 
2.43.0


From 133a01d007d5a07aec06b31cf8169625acbe6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 15/50] fix: let the key transformers accept any string

An empty key, or a key with only dashes or underscores, raised an
IndexError.
---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From bd646e4778713e0cf2b804f01e532c53e562f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 16/50] fix: dump verbose with dicts that have keys other than
 strings

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..84930a0 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -298,9 +298,9 @@ def _fill_collection_of_types(
         if attr != META_ATTR and isinstance(obj_[attr], dict):
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   '{}{}/'.format(prefix, attr),
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_['{}{}'.format(prefix, attr)] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From a39e093c9bf512723913e3ef74db3b624b6f0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 17/50] fix: leave out only the attribute that failed to dump

All attributes after the failing attribute were left out as well, although the
warning tells that only that attribute is ignored. Also, an exception without
arguments caused an IndexError.
---
 jsons/serializers/default_object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 84930a0..95d69b9 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -131,14 +131,14 @@ def _do_serialize(
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=str(err)) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr, get_class_name(cls), err),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From ba96faf85a3ee08018f6b3aad45b0da6d1b46e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 18/50] fix: use the fork of the class when dumping after
 with_dump

As opposed to with_load, with_dump did not provide the fork, so that any
serializer of the fork was ignored.
---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From 7027c634d21e88b755813bd2d9f68b6235550c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 19/50] fix: pass on the fork_inst when loading a list with
 multiple tasks

---
 jsons/deserializers/default_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..fef69ea 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,8 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        result = multi_task(load, obj, tasks, task_type, cls_,
+                            fork_inst=fork_inst, **kwargs_)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
-- 
2.43.0


From d8930c27846df0deaada35150d8fdf59ff00b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 20/50] fix: process an empty collection with multiple tasks

It raised a ZeroDivisionError.
---
 jsons/_multitasking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..f2a4df6 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -18,6 +18,8 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    if len(obj) == 0:
+        return []  # There is nothing to divide among tasks.
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
-- 
2.43.0


From 19145945d85c2235adb3f3619fe73e73d164bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 21/50] fix: do not ignore failing elements when using multiple
 tasks

A failing task left a 0 in the result for the failing element and for every
element after it, without raising anything.
---
 jsons/_multitasking.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index f2a4df6..ec7ee19 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,9 +8,21 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
+class _Failure:
+    """
+    The result of an element that could not be processed. It holds a message
+    rather than the exception, since it must be possible to pickle it.
+    """
+
+    def __init__(self, message: str):
+        self.message = message
+
+
 def multi_task(
         func: Callable,
         obj: Subscriptable,
@@ -27,7 +39,12 @@ def multi_task(
     for task in tasks_instances:
         task.join()
 
-    return list(result)
+    result = list(result)
+    for index, elem in enumerate(result):
+        if isinstance(elem, _Failure):
+            raise JsonsError('Could not process the element at index {}. {}'
+                             .format(index, elem.message))
+    return result
 
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
@@ -80,5 +97,8 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+        try:
+            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+        except Exception as err:
+            loaded = _Failure(str(err))
         list_to_fill[i_] = loaded
-- 
2.43.0


From 9f1bd30d560134d4e6c631e98662f22e3e17a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 22/50] fix: keep all entries of a dict of which keys have the
 same hash

E.g. (-1,) and (-2,) have the same hash, so only one of them was dumped.
---
 jsons/serializers/default_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..ae3790a 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -39,7 +39,7 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, obj,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
@@ -62,6 +62,7 @@ def default_dict_serializer(
 def _store_and_hash(
         obj: dict,
         key: object,
+        source: dict,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -76,6 +77,8 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_['-keys'] or key_hash in source:
+                key_hash += 1  # Distinct keys may have the same hash.
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From bd2ee991214238f6f02122e38249950998b0af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 23/50] fix: do not apply the meta hints of an attribute to its
 siblings' attributes

The class of an attribute was also used for an equally named attribute of a
nested object, so that a verbose dump could not be loaded.
---
 jsons/deserializers/default_object.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..baf1150 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -134,6 +134,7 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
         new_hints = {
             _remove_prefix(cls_key, key): meta_hints[key]
             for key in meta_hints
+            if key == cls_key or key.startswith(cls_key + '/')
         }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
-- 
2.43.0


From 3f2ddf70a9a867a2f934b36f0b907e1c47475832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 24/50] fix: pass on the options when loading the offset of a
 timezone

---
 jsons/deserializers/default_timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..3a73cfe 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -10,7 +10,7 @@ def default_timezone_deserializer(obj: dict,
     Deserialize a dict to a timezone instance.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments that may be passed on to ``load``.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    return timezone(load(obj['offset'], timedelta, **kwargs), obj['name'])
-- 
2.43.0


From 904fff1ff8b193f73a1ea262f75141e7de24fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 25/50] fix: pass on the options when loading the parts of a
 complex number

---
 jsons/deserializers/default_complex.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..43eed41 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -11,13 +11,12 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments that may be passed on to ``load``.
     :return: an instance of ``complex``.
     """
     try:
-        clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
-        return complex(clean_obj['real'], clean_obj['imag'])
+        return complex(load(obj['real'], float, **kwargs),
+                       load(obj['imag'], float, **kwargs))
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
                              "does not contain key '{}'"
-- 
2.43.0


From 1cc46f42056906aafe992f0130eea7b4b9cd78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 26/50] fix: reject meta info that names something that is not
 a class

---
 jsons/_common_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 197893e..b812345 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -79,7 +79,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         msg = 'Invalid class name: "{}"'.format(cls_str)
         raise UnknownClassError(msg, source, cls_str)
     cls = getattr(builtins, cls_str, None)
-    if cls:
+    if callable(cls):
         return cls
     if '[' in cls_str and ']' in cls_str:
         try:
@@ -92,6 +92,9 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
+        if not callable(cls):
+            # Not a class or a type hint (e.g. sys.path).
+            cls = _lookup_announced_class(cls_str, source, fork_inst)
     except (ImportError, AttributeError, TypeError, ValueError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
-- 
2.43.0


From 0da763e6da206ac6cbcf2dbff07e1e2cc3be31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 27/50] fix: do not recurse forever on meta info that names a
 union

---
 jsons/deserializers/default_union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..f17cbf7 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -19,7 +19,9 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     """
     for sub_type in get_union_params(cls):
         try:
-            return load(obj, sub_type, **kwargs)
+            # The alternatives are explicit: the meta info in obj may name this
+            # very union again.
+            return load(obj, sub_type, **{**kwargs, '_inferred_cls': False})
         except JsonsError:
             pass  # Try the next one.
     else:
-- 
2.43.0


From a97b2fe6d332d93b82260110bfad6e85020e21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 28/50] fix: reject a class name that subscripts an enum

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index b812345..96b1a28 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -84,7 +84,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     if '[' in cls_str and ']' in cls_str:
         try:
             return _get_generic_cls_from_str(cls_str, source, fork_inst)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, LookupError):
             return _lookup_announced_class(cls_str, source, fork_inst)
     try:
         splitted = cls_str.split('.')
-- 
2.43.0


From 7157c0d3d4fd927544bfd1b62d3e97be6ce32470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 29/50] fix: load a value into a builtin generic mapping (e.g.
 dict[str, int])

---
 jsons/deserializers/default_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..c3438e7 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,6 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
+    if not isinstance(result, get_naked_class(cls)):
         result = cls(dict_)
     return result
-- 
2.43.0


From 5a5cbb27f7ebf166ac3879fee2d02f94663a8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 30/50] fix: dump a tuple as a tuple class without generics

---
 jsons/_compatibility_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..baacfbf 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        # A tuple without any generics (e.g. tuple) has no (or no filled) args.
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From ea01fef2b34c9c391de60dcbbb08e953ad806325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 31/50] fix: dump every element of a collection as its own type
 in strict mode

---
 jsons/serializers/default_iterable.py | 16 +++++-----------
 jsons/serializers/default_list.py     |  6 ++++--
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..4bdc7c5 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -2,7 +2,7 @@ from collections.abc import Iterable
 from multiprocessing import Process
 from typing import Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
@@ -34,8 +34,10 @@ def default_iterable_serializer(
     kwargs_ = {**kwargs, 'strict': strict}
     kwargs_.pop('_store_cls', None)
     if strict:
-        cls_ = _determine_cls(obj, cls)
-        subclasses = _get_subclasses(obj, cls_)
+        subclasses = _get_subclasses(obj, cls)
+        if not cls and hasattr(obj, '__getitem__'):
+            # Every element is dumped as its own type.
+            subclasses = tuple(type(elem) for elem in obj)
     else:
         subclasses = _get_subclasses(obj, None)
 
@@ -71,11 +73,3 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
     kwargs_ = {**kwargs}
     kwargs_['tasks'] = 1
     return dump(*obj_cls_tuple, *args, **kwargs_)
-
-
-def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
-    cls_ = cls
-    if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
-    return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..55615b2 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -42,7 +42,9 @@ def default_list_serializer(
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
     elif strict:
-        inner_type = type(obj[0])
-        serializer = get_serializer(inner_type, fork_inst)
+        # Every element is dumped as its own type.
+        return [get_serializer(type(elem), fork_inst)(
+            elem, cls=type(elem), fork_inst=fork_inst, **kwargs_)
+            for elem in obj]
 
     return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj]
-- 
2.43.0


From 69874edca3e4f8d2d195143d3967e25c405695a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 32/50] fix: resolve a union in its own order, not that of an
 equal union that was cached

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index baacfbf..c99994b 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -51,8 +51,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Not cached: unions are equal regardless of the order of their types.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0


From dfff88a2ff2e4fe9e5e0cd53b37abee61d89947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 33/50] fix: let every announcement of a class take effect,
 also a repeated one

---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From a76ea03a9fa4fc5e1cf58b9a677a42e1c25135e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 34/50] fix: accept a list of attribute names for strip_attr

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 95d69b9..f103b4e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -165,7 +165,7 @@ def _normalize_strip_attr(strip_attr) -> tuple:
     if (not isinstance(strip_attr, MutableSequence)
             and not isinstance(strip_attr, tuple)):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 51cd246a7bab662101ee887d925d254485ba8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 35/50] fix: do not pass a value to a constructor under the
 name of its variadic parameter

---
 jsons/deserializers/default_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index baf1150..f2bf784 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -89,7 +89,11 @@ def _get_value_for_attr(
         attr_getters,
         **kwargs):
     # Find a value for the attribute (with signature sig_key).
-    if obj and sig_key in obj:
+    if sig.kind in (inspect.Parameter.VAR_POSITIONAL,
+                    inspect.Parameter.VAR_KEYWORD):
+        # This argument is either *args or **kwargs.
+        result = None, None
+    elif obj and sig_key in obj:
         # This argument is in obj.
         result = sig_key, _get_value_from_obj(obj, cls, sig, sig_key,
                                               meta_hints, **kwargs)
@@ -100,10 +104,6 @@ def _get_value_for_attr(
     elif sig.default != inspect.Parameter.empty:
         # There is a default value for this argument.
         result = sig_key, sig.default
-    elif sig.kind in (inspect.Parameter.VAR_POSITIONAL,
-                      inspect.Parameter.VAR_KEYWORD):
-        # This argument is either *args or **kwargs.
-        result = None, None
     elif can_match_with_none(cls):
         # It is fine that there is no value.
         result = sig_key, None
-- 
2.43.0


From be21498b1cbfc876769cb10ba3aa513258055ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 36/50] fix: recognize inner classes without their source, also
 inherited ones

---
 jsons/serializers/default_object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index f103b4e..4c30f97 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -327,7 +327,10 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
     return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+            and any(attr_obj.__module__ == cls_.__module__
+                    and attr_obj.__qualname__.startswith(
+                        '{}.'.format(cls_.__qualname__))
+                    for cls_ in get_mro(cls)))
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From 632a04ded599d2b6106eb4888986a7d616cbe325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 37/50] fix: dump attributes that happen to have the name of a
 JsonSerializable member

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 4c30f97..de0e572 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -230,7 +230,8 @@ def _filter_attributes(
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    excluded_elems = (dir(JsonSerializable)
+                      if issubclass(cls, StateHolder) else ())
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -239,7 +240,6 @@ def _filter_attributes(
             and not (strip_properties and attr in props)
             and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
-            and attr != 'json'
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From a97bc83fe63d92bc35c9c4764a285d017e930c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 38/50] fix: do not take slots for class variables

---
 jsons/serializers/default_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index de0e572..9971fd3 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -251,6 +251,8 @@ def _get_class_props(cls: type) -> Tuple[list, list]:
     props = []
     other_cls_vars = []
     for n, v in _get_complete_class_dict(cls).items():
+        if inspect.ismemberdescriptor(v):
+            continue  # This is an attribute of the instances (a slot).
         list_to_append = props if isinstance(v, property) else other_cls_vars
         list_to_append.append(n)
     return props, other_cls_vars
-- 
2.43.0


From 0ff0908db8a5dc7a084e7abf17a860caaa26265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 39/50] fix: use the meta info of the object itself, and never
 that of another object

---
 jsons/_load_impl.py                   |  3 +++
 jsons/deserializers/default_object.py | 24 +++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 83fd468..8a26b53 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -97,6 +97,9 @@ def load(
         '_initial': False,
         '_inferred_cls': cls is not original_cls,
     }
+    if meta_hints:
+        # The meta info of json_obj itself describes json_obj best.
+        kwargs_['meta_hints'] = meta_hints
 
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
 
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index f2bf784..fa90fcf 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -125,26 +125,30 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
     cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
     cls_from_meta = None
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-            if key == cls_key or key.startswith(cls_key + '/')
-        }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
-    value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
+    value = load(obj[sig_key], cls_,
+                 meta_hints=_get_nested_hints(cls_key, meta_hints), **kwargs)
     return value
 
 
+def _get_nested_hints(cls_key: str, meta_hints: dict) -> dict:
+    # Rebuild the class hints: cls_key becomes the new root.
+    return {
+        _remove_prefix(cls_key, key): meta_hints[key]
+        for key in meta_hints
+        if key == cls_key or key.startswith(cls_key + '/')
+    }
+
+
 def _set_remaining_attrs(instance,
                          remaining_attrs,
                          attr_getters,
+                         meta_hints,
                          **kwargs):
     # Set any remaining attributes on the newly created instance.
     attr_getters = attr_getters or {}
@@ -163,7 +167,9 @@ def _set_remaining_attrs(instance,
                             .format(attr_name), 'hashed-keys-without-hint')
         attr_type = attr_type or type(remaining_attrs[attr_name])
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        nested_hints = _get_nested_hints('/{}'.format(attr_name), meta_hints)
+        loaded_attr = load(remaining_attrs[attr_name], attr_type,
+                           meta_hints=nested_hints, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
-- 
2.43.0


From d469ee2476bc199b3f2f8d9978e0845fb0bfa1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 40/50] fix: load a value into object as what it is

---
 jsons/deserializers/default_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index fa90fcf..2596d51 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -35,6 +35,10 @@ def default_object_deserializer(
     deserializers.
     :return: an instance of type ``cls``.
     """
+    if cls is object:
+        # Any value will do, let the value itself or its meta info decide.
+        return load(obj, key_transformer=key_transformer, strict=strict,
+                    **kwargs)
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
-- 
2.43.0


From 680013c8902ed39e9f5b3419ed9dbf16d01106bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 41/50] fix: dump a value of the declared type object as what
 it is

---
 jsons/serializers/default_object.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 9971fd3..5b68d4c 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -10,6 +10,7 @@ from jsons._cache import cached
 from jsons._common_impl import get_class_name, META_ATTR, StateHolder
 from jsons._compatibility_impl import get_type_hints
 from jsons._datetime_impl import to_str
+from jsons._dump_impl import dump
 from jsons.classes import JsonSerializable
 from jsons.classes.verbosity import Verbosity
 from jsons.exceptions import SerializationError
@@ -58,6 +59,18 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
+    if cls is object and obj.__class__ is not object and not strict:
+        # Any value is an object, so let the value itself decide.
+        return dump(obj,
+                    key_transformer=key_transformer,
+                    strip_nulls=strip_nulls,
+                    strip_privates=strip_privates,
+                    strip_properties=strip_properties,
+                    strip_class_variables=strip_class_variables,
+                    strip_attr=strip_attr,
+                    verbose=verbose,
+                    fork_inst=fork_inst,
+                    **kwargs)
     if cls and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
-- 
2.43.0


From 0aecd3f9617789dc9cb46fce0cdae3e147dbcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 42/50] fix: understand nested generic types and NoneType in
 meta info

---
 jsons/_common_impl.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 96b1a28..b5b1251 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -78,13 +78,15 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     if not isinstance(cls_str, str):
         msg = 'Invalid class name: "{}"'.format(cls_str)
         raise UnknownClassError(msg, source, cls_str)
+    if cls_str == NoneType.__name__:
+        return NoneType
     cls = getattr(builtins, cls_str, None)
     if callable(cls):
         return cls
     if '[' in cls_str and ']' in cls_str:
         try:
             return _get_generic_cls_from_str(cls_str, source, fork_inst)
-        except (TypeError, ValueError, LookupError):
+        except (TypeError, ValueError, LookupError, RecursionError):
             return _lookup_announced_class(cls_str, source, fork_inst)
     try:
         splitted = cls_str.split('.')
@@ -102,14 +104,27 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
+                for s in _split_subtypes(subtypes_str)]
     return origin[tuple(subtypes)]
 
 
+def _split_subtypes(subtypes_str: str) -> list:
+    # Split by the commas that are not within the brackets of a nested type.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += (char == '[') - (char == ']')
+        if char == ',' and depth == 0:
+            result.append('')
+        else:
+            result[-1] += char
+    return result
+
+
 def determine_precedence(
         cls: type,
         cls_from_meta: type,
-- 
2.43.0


From 439df595cc393fb34a39dcfdd00364c0db23017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 43/50] fix: record the class of a named tuple in the meta info
 of its owner

---
 jsons/serializers/default_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 5b68d4c..c457b5a 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -331,6 +331,8 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
         cls = get_type(original_obj)
+        if isinstance(original_obj, tuple):
+            cls = original_obj.__class__  # A named tuple.
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From 297f027c7657631aecd3742c542c9517958693aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 44/50] fix: dump a value of the declared type Any as what it
 is

---
 jsons/serializers/default_object.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index c457b5a..b7d6390 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,7 +1,7 @@
 import inspect
 from datetime import datetime, timezone
 from inspect import isfunction
-from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
+from typing import Any, Optional, Callable, Union, MutableSequence, Tuple, Dict
 
 from typish import get_type, get_mro
 
@@ -59,9 +59,11 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
-    if cls is object and obj.__class__ is not object and not strict:
-        # Any value is an object, so let the value itself decide.
+    if cls is Any or (cls is object and obj.__class__ is not object
+                      and not strict):
+        # Any value will do, so let the value itself decide.
         return dump(obj,
+                    strict=strict,
                     key_transformer=key_transformer,
                     strip_nulls=strip_nulls,
                     strip_privates=strip_privates,
-- 
2.43.0


From 0859b84ccb47ef833925280edc236d4e6be78155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 45/50] fix: accept None for a union of which an alternative
 accepts anything

---
 jsons/_common_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index b5b1251..7d96f2b 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -164,7 +164,8 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in (get_union_params(cls) or ()))
+                  and any(sub_cls in (Any, object, NoneType)
+                          for sub_cls in get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From d1c1649381e233133e3f193e614967f11ebb1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 46/50] fix: look up the supertype of a NewType of a NewType

---
 jsons/_lizers_impl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 6300803..4272115 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -118,14 +118,13 @@ def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
-        fork_inst: type,
-        recursive: bool = False) -> callable:
+        fork_inst: type) -> callable:
     cls_name = get_class_name(cls, str.lower, fully_qualified=True)
     lizer = (lizers.get(cls_name, None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
-    if not lizer and not recursive and hasattr(cls, '__supertype__'):
+    if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
-                          classes_lizers, fork_inst, True)
+                          classes_lizers, fork_inst)
     return lizer
 
 
-- 
2.43.0


From 31c537b52aec9e0e2fcef180cecdc2ca06f8d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 47/50] fix: load and dump NewTypes of primitives

---
 jsons/deserializers/default_primitive.py | 2 ++
 jsons/serializers/default_primitive.py   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_primitive.py b/jsons/deserializers/default_primitive.py
index 82c6f23..7076056 100644
--- a/jsons/deserializers/default_primitive.py
+++ b/jsons/deserializers/default_primitive.py
@@ -14,6 +14,8 @@ def default_primitive_deserializer(obj: object,
     :return: ``obj``.
     """
     result = obj
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__  # A NewType is not meant for isinstance.
     if obj is not None and not isinstance(obj, cls):
         try:
             result = cls(obj)
diff --git a/jsons/serializers/default_primitive.py b/jsons/serializers/default_primitive.py
index 93725e1..d896d34 100644
--- a/jsons/serializers/default_primitive.py
+++ b/jsons/serializers/default_primitive.py
@@ -15,8 +15,8 @@ def default_primitive_serializer(obj: object,
     result = obj
 
     cls_ = cls
-    if _is_newtype(cls):
-        cls_ = cls.__supertype__
+    while _is_newtype(cls_):
+        cls_ = cls_.__supertype__
 
     if cls_ and obj is not None and not isinstance(obj, cls_):
         try:
-- 
2.43.0


From fc8336355388812c2f2b21784c13afd3e0258ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 48/50] fix: load the keys that were not hashed when a dict has
 hashed keys as well

---
 jsons/deserializers/default_dict.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 06b806e..9a422e1 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -23,20 +23,21 @@ def default_dict_deserializer(
     """
     cls_args = get_args(cls)
 
-    obj_, keys_were_hashed = _load_hashed_keys(
+    obj_, loaded_keys = _load_hashed_keys(
         obj, cls, cls_args, key_transformer=key_transformer, **kwargs)
 
-    return _deserialize(obj_, cls_args, key_transformer, keys_were_hashed, kwargs)
+    return _deserialize(obj_, cls_args, key_transformer, loaded_keys, kwargs)
 
 
 def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, bool]:
+        **kwargs) -> Tuple[dict, set]:
     # Load any hashed keys and return a copy of the given obj if any hashed
-    # keys are unpacked.
+    # keys are unpacked, along with the keys that were loaded thereby.
     result = obj
+    loaded_keys = set()
 
     stored_keys = set(obj.get('-keys', set()))
     if stored_keys:
@@ -56,18 +57,19 @@ def _load_hashed_keys(
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
+            loaded_keys.add(loaded_key)
             del result['-keys'][key]
             del result[key]
 
         del result['-keys']
-    return result, len(stored_keys) > 0
+    return result, loaded_keys
 
 
 def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Callable[[str], str],
-        keys_were_hashed: bool,
+        loaded_keys: set,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
     key_func = key_transformer
@@ -76,12 +78,13 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
-        if not keys_were_hashed:
-            # In case of cls is something like Dict[<key>, <value>], we need to
-            # ensure that the keys in the result are <key>. If the keys were
-            # hashed though, they have been loaded already.
-            kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+        # In case of cls is something like Dict[<key>, <value>], we need to
+        # ensure that the keys in the result are <key>. The keys that were
+        # hashed have been loaded already.
+        kwargs_k = {**kwargs, 'cls': cls_k}
+        key_func = lambda key: (
+            key if key in loaded_keys
+            else load(key_transformer(key), **kwargs_k))
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
-- 
2.43.0


From 8bd64e797b7e7231aaf158e9142a1f283906063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 49/50] fix: a dumped key never takes the place of the hash of
 another key

---
 jsons/serializers/default_dict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index ae3790a..97652f2 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -72,12 +72,15 @@ def _store_and_hash(
         # First try to dump the key, that might be enough already.
         dumped_key = dump(key, **kwargs)
         result = obj, dumped_key
-        if not _is_valid_json_key(dumped_key):
-            # Apparently, this was not enough; the key is still not "jsonable".
+        if (not _is_valid_json_key(dumped_key)
+                or dumped_key in obj.get('-keys', {})):
+            # Apparently, this was not enough; the key is still not "jsonable"
+            # (or it is in use already, as the hash of another key).
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
-            while key_hash in obj_['-keys'] or key_hash in source:
+            while (key_hash in obj_ or key_hash in obj_['-keys']
+                   or key_hash in source):
                 key_hash += 1  # Distinct keys may have the same hash.
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
-- 
2.43.0


From 7e708e1bcb7cb0755aedf35647e6ac34c03130fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:14 +0000
Subject: [PATCH 50/50] fix: a key that dumps to the name of the key section
 lost its entry

---
 jsons/serializers/default_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 97652f2..75fb2fd 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -73,9 +73,11 @@ def _store_and_hash(
         dumped_key = dump(key, **kwargs)
         result = obj, dumped_key
         if (not _is_valid_json_key(dumped_key)
+                or dumped_key == '-keys'
                 or dumped_key in obj.get('-keys', {})):
             # Apparently, this was not enough; the key is still not "jsonable"
-            # (or it is in use already, as the hash of another key).
+            # (or it is in use already, as the hash of another key or as the
+            # name of the special section).
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
-- 
2.43.0

