From 0b47f028567101889a5733a937459c612ed7bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 01/38] fix: Schema.update() must set the current schema

FieldError looks up the current schema; update() never set it, so an
invalid update raised LookupError (or blamed an unrelated schema).
---
 oblate/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..a82124a 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,6 +412,13 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        token = current_schema.set(self)
+        try:
+            self._update_from_data(data, ignore_extra)
+        finally:
+            current_schema.reset(token)
+
+    def _update_from_data(self, data: Mapping[str, Any], ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
-- 
2.43.0


From 5365078c60f3229881eae7e11a649b404cacdb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 02/38] fix: roll back Schema.update() on every failure

A FrozenError (or any exception from user code) raised part way through
left the values processed before it applied.
---
 oblate/schema.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a82124a..821a8f5 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -413,15 +413,19 @@ class Schema(metaclass=_SchemaMeta):
             ignore_extra = self.__config__.ignore_extra
 
         token = current_schema.set(self)
+        old_values = self._field_values.copy()
         try:
             self._update_from_data(data, ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(token)
 
     def _update_from_data(self, data: Mapping[str, Any], ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -438,8 +442,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From 405f6c4d1400ef73dd5c84f990f615abc7677c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 03/38] fix: attribute assignment reports errors under the
 field's load key

The attribute name was used, so FieldError.field was None (or another
field) for fields with a custom load key.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 0891ca1adbe54525dd359146167c7ebc74a1dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 04/38] fix: restore the current schema after Schema.dump()

dump() left the dumped schema as the current one, so errors raised after
a nested dump were attributed to the nested schema.
---
 oblate/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 821a8f5..a0580bc 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -30,6 +30,7 @@ from typing import (
     List,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -477,7 +478,13 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        token = current_schema.set(self)
+        try:
+            return self._dump_fields(fields)
+        finally:
+            current_schema.reset(token)
+
+    def _dump_fields(self, fields: Set[str]) -> Dict[str, Any]:
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From a19e169787dcc6aa6a611d5eb10ead7dff02df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 05/38] fix: always reset the current context after processing
 a field

The context of a field given None stayed current, so later errors (such
as the one for an unknown key) carried an unrelated LoadContext.
---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a0580bc..1669976 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -231,6 +231,21 @@ class Schema(metaclass=_SchemaMeta):
             validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
         ) -> List[FieldError]:
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
+        ) -> List[FieldError]:
+
         # A little overview of how external validations are handled by
         # this method:
         #
@@ -250,8 +265,6 @@ class Schema(metaclass=_SchemaMeta):
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -279,8 +292,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From ac26b60768306324a171aabffc55b62f8df14394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 06/38] fix: report raw validator errors when deserialization
 fails on update

Initialization reports both; assignment and update() dropped the errors
of raw validators if value_load() failed too.
---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 1669976..4e20ee2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -291,8 +291,8 @@ class Schema(metaclass=_SchemaMeta):
                 validators.append((field, final_value, context, False))
             if not validator_errors:
                 self._field_values[name] = final_value
-            errors.extend(validator_errors)
 
+        errors.extend(validator_errors)
         return errors
 
     def _get_field(self, name: str) -> Field[Any, Any]:
-- 
2.43.0


From f1b68c0e2b90bfa63cc53ff40af1994b232628a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 07/38] fix: run raw validators on None when updating a field

Initialization runs raw validators on the given None; assignment and
update() skipped them and stored a None that a raw validator rejects.
---
 oblate/schema.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 4e20ee2..406452a 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -269,15 +269,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
-- 
2.43.0


From 5bb001e17a8d23760c4673d499dca75e47436d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 08/38] fix: drop the load key of a field overridden in a
 subclass

---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 406452a..e7970d0 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -151,6 +151,10 @@ class Schema(metaclass=_SchemaMeta):
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
+                overridden = cls.__fields__.get(name)
+                if overridden is not None and cls.__load_fields__.get(overridden.load_key) is overridden:
+                    # the parent's field is replaced, its load key must not remain
+                    del cls.__load_fields__[overridden.load_key]
                 cls.__fields__[name] = member  # type: ignore
                 cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
-- 
2.43.0


From dc58046c2cb2399663d2857523ee75bd6ff47eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 09/38] fix: inherit the fields of every parent schema

---
 oblate/schema.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index e7970d0..3de3d75 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -143,6 +143,8 @@ class Schema(metaclass=_SchemaMeta):
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
             cls.__load_fields__ = cls.__load_fields__.copy()
+            if len(cls.__bases__) > 1:
+                cls._inherit_fields()
         else:
             cls.__fields__ = {}
             cls.__load_fields__ = {}
@@ -172,6 +174,19 @@ class Schema(metaclass=_SchemaMeta):
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
+    @classmethod
+    def _inherit_fields(cls) -> None:
+        # With multiple bases, attribute lookup only finds the fields of the
+        # first one so they have to be collected from all parent schemas.
+        fields: Dict[str, Field[Any, Any]] = {}
+        for base in reversed(cls.__mro__[1:]):
+            for name, field in vars(base).get('__fields__', {}).items():
+                if vars(base).get(name) is field:
+                    fields[name] = field
+
+        cls.__fields__ = fields
+        cls.__load_fields__ = {field.load_key: field for field in fields.values()}
+
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
         if not isinstance(data, collections.abc.Mapping):
-- 
2.43.0


From f8b99a2b298f1a3753bd76e9e0f3c15b247a5d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 10/38] fix: allow subclasses to add validators to inherited
 fields by name

---
 oblate/schema.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 3de3d75..b4353fa 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -164,8 +164,8 @@ class Schema(metaclass=_SchemaMeta):
                 if isinstance(field, str):
                     try:
                         field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    except KeyError:
+                        field = cls._own_inherited_field(field)
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
@@ -174,6 +174,21 @@ class Schema(metaclass=_SchemaMeta):
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
+    @classmethod
+    def _own_inherited_field(cls, name: str) -> Any:
+        # Validators of a subclass must not affect the parent's field so
+        # the subclass gets its own copy of the field.
+        field = cls.__fields__.get(name)
+        if field is None or field._schema is cls:
+            return name if field is None else field
+
+        field = field.copy()
+        field._bind(name, cls)
+        setattr(cls, name, field)
+        cls.__fields__[name] = field
+        cls.__load_fields__[field.load_key] = field
+        return field
+
     @classmethod
     def _inherit_fields(cls) -> None:
         # With multiple bases, attribute lookup only finds the fields of the
-- 
2.43.0


From faf9ae75de361b0c0c4b88c5001d0d8d0bbe8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 11/38] fix: dump Object fields that are set to None

---
 oblate/fields/nesting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..e4b3590 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,4 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return value.dump()
+        return None if value is None else value.dump()  # type: ignore
-- 
2.43.0


From 24c3fd4b5eeb66380e95d956af574ef581af9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 12/38] fix: report errors of nested schemas while dumping

---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index e4b3590..fe8064a 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return None if value is None else value.dump()  # type: ignore
+        try:
+            return None if value is None else value.dump()  # type: ignore
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 0252df3bf20fad8c1f6179479362106a8635818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 13/38] fix: validate every item of tuples given for
 typing.Sequence

---
 oblate/type_validation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..7ed65bb 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -332,10 +332,11 @@ class TypeValidator:
         value_tp = type(value)
         if value_tp is list:
             return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+        if isinstance(value, tuple):
+            # Sequence[T] does not restrict the number of items
+            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 236d5de2551296e2ca4065af75d40a3a8b579ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 14/38] fix: reject tuples longer than the type expression

---
 oblate/type_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 7ed65bb..2e68a0b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -325,6 +325,10 @@ class TypeValidator:
                         validated = False
                         errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
 
+            if len(value) > len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
+
         return validated, errors
 
     @classmethod
-- 
2.43.0


From ca294c7aeb2706554694a42532cc19c6a5231ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 15/38] fix: validate typing.Mapping in type expressions

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 2e68a0b..6ee8beb 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -352,6 +352,8 @@ class TypeValidator:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is list:
             return cls._handle_origin_list(value, tp)
         if origin is set:
@@ -372,7 +374,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From 03a36b549011e0178996ce6fbcf45b8b8f5e2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 16/38] fix: support bare structure types in type expressions

---
 oblate/type_validation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 6ee8beb..b46a638 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -31,6 +31,7 @@ from typing import (
     Literal,
     Dict,
     Mapping,
+    Sequence,
     get_origin,
     get_args,
 )
@@ -144,6 +145,15 @@ class TypeValidator:
 
     _warnings_issued: Set[Any] = set()
 
+    _bare_structs: Dict[Any, Any] = {
+        dict: Dict[Any, Any],
+        list: List[Any],
+        set: Set[Any],
+        tuple: Tuple[Any, ...],
+        collections.abc.Mapping: Mapping[Any, Any],
+        collections.abc.Sequence: Sequence[Any],
+    }
+
     __slots__ = ('types',)
 
     def __init__(self, types: Dict[str, Any]) -> None:
@@ -348,6 +358,10 @@ class TypeValidator:
     def _process_struct(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         origin = get_origin(tp)
 
+        if not get_args(tp) and (origin is not tuple or tp is Tuple):
+            # bare types such as typing.List do not restrict their items
+            tp = cls._bare_structs[origin]
+
         if origin is collections.abc.Sequence:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
-- 
2.43.0


From daa54c2a3d6d8b2979ee12bf0aa9b2d4490beadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 17/38] fix: validate values of Required and NotRequired typed
 dictionary keys

---
 oblate/type_validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index b46a638..2246b8b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -213,8 +213,7 @@ class TypeValidator:
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, args[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From ca528403a545aadf6af531236014fc1ef437e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 18/38] fix: determine the required keys of typed dictionaries
 by their totality

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 2246b8b..f52add4 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -187,6 +187,8 @@ class TypeValidator:
             return False, [f'Must be a {tp.__name__} dictionary']  # pragma: no cover
 
         typehints = get_type_hints(tp, include_extras=True)
+        # The totality of a typed dictionary does not apply to inherited keys
+        required_keys = getattr(tp, '__required_keys__', typehints.keys() if tp.__total__ else ())
         errors: List[str] = []
 
         for key, value in value.items():  # type: ignore
@@ -201,7 +203,7 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
+            if (origin is not Required and key not in required_keys) or (origin is NotRequired):
                 # either no marker and total=False -> field is not required
                 # or NotRequired marker and total=True/False -> field is not required
                 continue
-- 
2.43.0


From 1b15905b57b57f6c2817ec92ca405b08a3763a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 19/38] fix: accept unsupported types that are not classes in
 type expressions

---
 oblate/type_validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index f52add4..6075faf 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -163,6 +163,15 @@ class TypeValidator:
     def _is_origin_union(cls, origin: Any) -> bool:
         return origin is Union or (PY_310 and origin is types.UnionType)
 
+    @classmethod
+    def _is_checkable(cls, tp: Any) -> bool:
+        try:
+            isinstance(None, tp)
+        except TypeError:
+            # not a class e.g. type variables and forward references
+            return False
+        return True
+
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
         from oblate.configs import config  # circular import
@@ -409,6 +418,9 @@ class TypeValidator:
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
+            if not cls._is_checkable(tp):
+                cls._warn_unsupported(tp)
+                return True, []
             return isinstance(value, tp), [f'Must be of type {tp.__name__}']
 
         return cls._handle_origin(value, tp, origin)
-- 
2.43.0


From ed84b76a6559ce41456908023fa562f490b5d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 20/38] fix: respect the step of ranges given to
 Range.from_standard()

---
 oblate/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..b0c55af 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,9 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        validator = cls(obj.start, obj.stop - 1)
+        validator._range = obj
+        return validator
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From d4f5cb3814940849bf328c234aada98e9d4255e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 21/38] fix: respect a replaced global configuration

---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 5 ++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..eeb62ab 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,9 +43,9 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.contexts import LoadContext, DumpContext
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index b4353fa..3555972 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -39,11 +39,12 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
 import collections.abc
 import inspect
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.fields.base import Field
@@ -253,7 +254,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -490,7 +491,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -561,6 +562,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 6075faf..d5cd42a 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -42,6 +42,7 @@ import types
 import warnings
 import sys
 import collections.abc
+import oblate
 
 __all__ = (
     'validate_types',
@@ -174,9 +175,7 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
-
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From 643c56e9431bdedebae518046e86203338851b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 22/38] fix: allow arbitrary dictionaries as field error
 messages

---
 oblate/exceptions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..23b766c 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -225,7 +225,7 @@ class ValidationError(OblateException):
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
+                if self._is_nested(error.message):
                     builder.append(self._make_message(error.message, level=level+1))  # type: ignore
                     continue
 
@@ -237,6 +237,14 @@ class ValidationError(OblateException):
 
         return '\n│\n' + '\n'.join(builder)
 
+    def _is_nested(self, message: Any) -> bool:
+        # User provided messages may also be dictionaries, only those created
+        # for the errors of nested schemas consist of lists of field errors.
+        return isinstance(message, dict) and all(
+            isinstance(errors, list) and all(isinstance(error, FieldError) for error in errors)  # type: ignore
+            for errors in message.values()  # type: ignore
+        )
+
     def _ensure_string(self, obj: Any) -> Any:
         if isinstance(obj, FieldError):
             return self._ensure_string(obj.message)
-- 
2.43.0


From d95a405625e7240586a7bafa596b4db3736c1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 23/38] fix: set a proper message and name on FieldNotSet

---
 oblate/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 23b766c..6948afe 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -69,7 +69,8 @@ class FieldNotSet(AttributeError, OblateException):
         self.field_name = field_name
         self.field = field
         self.schema = schema
-        super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        super().__init__(f'Field {field._name!r} has no value set')
+        self.name = field_name
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 07f73987c1c0c5e1d496d1890d80b84249b17629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 24/38] fix: provide the original value in Boolean coercion
 errors

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..75de1b7 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            string = str(value)
+            if string in self._true_values:
                 return True
-            if value in self._false_values:
+            if string in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From b1f2c0e8b978def7edf20dc42460cb5f9be3ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 25/38] fix: load the value given to primitive fields

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 75de1b7..fd93ae1 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0


From 92485b6255581c2a958eb3cc0832470deeff0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 26/38] fix: keep the order of errors when flattening sequences
 of messages

---
 oblate/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 6948afe..a635bf5 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -198,11 +198,12 @@ class ValidationError(OblateException):
         super().__init__(self._make_message())
 
     def _flatten_errors(self, errors: List[FieldError]) -> None:
+        self.errors = []
         for error in errors:
             if not isinstance(error.message, (list, tuple, set)):
+                self.errors.append(error)
                 continue
 
-            self.errors.remove(error)
             for message in error.message:  # type: ignore
                 self.errors.append(error._copy_with(message))
 
-- 
2.43.0


From 82a20977e59968ad78e3478f658b640908a9a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 27/38] fix: report values that cannot be converted by String
 fields as validation errors

---
 oblate/fields/primitive.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd93ae1..5ae73ab 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -57,6 +57,7 @@ class String(Field[str, str]):
         cannot be converted to relevant data type.
     """
     ERR_INVALID_DATATYPE = 'string.invalid_datatype'
+    ERR_COERCION_FAILED  = 'string.coercion_failed'
 
     def __init__(self, strict: bool = True, **kwargs: Any) -> None:
         self.strict = strict
@@ -66,13 +67,18 @@ class String(Field[str, str]):
         if not isinstance(value, str):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            return str(value)
+            try:
+                return str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
         else:
             return value
 
     def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a string'
+        if error_code == self.ERR_COERCION_FAILED:
+            return f'Failed to coerce {context._value!r} to string'
 
         return super()._get_default_error_message(error_code, context)
 
-- 
2.43.0


From f98b5d25f6f9cfde79a4f56d27cf56163901be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 28/38] fix: report values without a string form as validation
 errors in Boolean fields

---
 oblate/fields/primitive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 5ae73ab..57300d4 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -205,7 +205,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            string = str(value)
+            try:
+                string = str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
             if string in self._true_values:
                 return True
             if string in self._false_values:
-- 
2.43.0


From cdaf24a82946c361e8a2cb64f105ff389f69de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 29/38] fix: keep the inherited configuration when another
 parent schema has none

---
 oblate/schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 3555972..514b000 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -75,7 +75,9 @@ class _SchemaMeta(type):
             # If class doesn't have a Config defined, look it up in
             # the bases of class
             for base in bases:
-                if issubclass(base, Schema) and hasattr(base, '__config__'):
+                # Bases that have no configuration of their own must not
+                # hide the one inherited from the other bases
+                if issubclass(base, Schema) and base.__config__ is not SchemaConfig:
                     config = base.__config__
 
         if config.slotted:
-- 
2.43.0


From e410288058c59f087c73929f13b291bea7a02d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 30/38] fix: keep the text of errors split from a sequence of
 messages

---
 oblate/exceptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index a635bf5..a5a5aa4 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -150,6 +150,7 @@ class FieldError(OblateException):
 
     def _copy_with(self, message: Any) -> FieldError:
         copy = self.__class__.__new__(self.__class__)
+        copy.args = (message,)
         copy.message = message
         copy.state = self.state
         copy.context = self.context
-- 
2.43.0


From 2aae1e6f30299e3861824881ca8e4992965f38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 31/38] fix: accept tuples and other unsupported objects in
 type expressions

---
 oblate/type_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index d5cd42a..740a19a 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -166,6 +166,9 @@ class TypeValidator:
 
     @classmethod
     def _is_checkable(cls, tp: Any) -> bool:
+        if not isinstance(tp, type):
+            # e.g. tuples of classes
+            return False
         try:
             isinstance(None, tp)
         except TypeError:
-- 
2.43.0


From c3536f618900398d892ddb2706f8cbd7377a6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 32/38] fix: accept unhashable objects in type expressions

---
 oblate/type_validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 740a19a..3a353c8 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -178,10 +178,17 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
+        if not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
-        cls._warnings_issued.add(tp)
+        try:
+            if tp in cls._warnings_issued:
+                return  # pragma: no cover
+            cls._warnings_issued.add(tp)
+        except TypeError:
+            # not hashable e.g. a list of types
+            pass
+
         warnings.warn(
             cls._warning_unsupported_type.format(type=getattr(tp, '__name__', tp)),
             UserWarning,
-- 
2.43.0


From 1b080059597b221f1d002769c882b7cd0e7ef2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 33/38] fix: report invalid values that have no representation

---
 oblate/fields/primitive.py |  9 +++++----
 oblate/type_validation.py  |  9 +++++----
 oblate/utils.py            | 10 ++++++++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 57300d4..190ef56 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -25,6 +25,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Any, Optional, Sequence, Union
 from oblate.fields.base import Field
 from oblate.exceptions import FieldError
+from oblate.utils import safe_repr
 
 if TYPE_CHECKING:
     from oblate.contexts import LoadContext, DumpContext, ErrorContext
@@ -78,7 +79,7 @@ class String(Field[str, str]):
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a string'
         if error_code == self.ERR_COERCION_FAILED:
-            return f'Failed to coerce {context._value!r} to string'
+            return f'Failed to coerce {safe_repr(context._value)} to string'
 
         return super()._get_default_error_message(error_code, context)
 
@@ -131,7 +132,7 @@ class Integer(Field[int, int]):
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be an integer'
         if error_code == self.ERR_COERCION_FAILED:
-            return f'Failed to coerce {context._value!r} to integer'
+            return f'Failed to coerce {safe_repr(context._value)} to integer'
 
         return super()._get_default_error_message(error_code, context)
 
@@ -222,7 +223,7 @@ class Boolean(Field[bool, bool]):
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a boolean'
         if error_code == self.ERR_COERCION_FAILED:
-            return f'Failed to coerce {context._value!r} to boolean'
+            return f'Failed to coerce {safe_repr(context._value)} to boolean'
 
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
@@ -275,7 +276,7 @@ class Float(Field[float, float]):
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a floating point number'
         if error_code == self.ERR_COERCION_FAILED:
-            return f'Failed to coerce {context._value!r} to float'
+            return f'Failed to coerce {safe_repr(context._value)} to float'
 
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 3a353c8..e713b0f 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -37,6 +37,7 @@ from typing import (
 )
 from typing_extensions import Required, NotRequired, is_typeddict, get_type_hints
 from oblate.exceptions import OblateException
+from oblate.utils import safe_repr
 
 import types
 import warnings
@@ -213,11 +214,11 @@ class TypeValidator:
             try:
                 attr_tp = typehints.pop(key)  # type: ignore
             except KeyError:
-                errors.append(f'Invalid key {key!r}')
+                errors.append(f'Invalid key {safe_repr(key)}')
             else:
                 validated, msg = cls._process_value(value, attr_tp)
                 if not validated:
-                    errors.append(f'Validation failed for {key!r}: {msg[0]}')
+                    errors.append(f'Validation failed for {safe_repr(key)}: {msg[0]}')
 
         for key, value in typehints.items():
             origin = get_origin(value)
@@ -253,7 +254,7 @@ class TypeValidator:
             validated, _ = cls._process_value(value, tp)
             if validated:
                 return True, []
-        return False, [f'Type of {value!r} ({type(value).__name__}) is not compatible with types ({", ".join(tp.__name__ for tp in args)})']
+        return False, [f'Type of {safe_repr(value)} ({type(value).__name__}) is not compatible with types ({", ".join(tp.__name__ for tp in args)})']
 
     @classmethod
     def __process_mapping(cls, value: Any, tp: Any, name: str, origin: Any) -> Tuple[bool, List[str]]:
@@ -275,7 +276,7 @@ class TypeValidator:
                 item_validated, fail_msg = cls._process_value(v, vtp)
                 if not item_validated:
                     validated = False
-                    errors.append(f'{name} value for key {k!r}: {fail_msg[0]}')
+                    errors.append(f'{name} value for key {safe_repr(k)}: {fail_msg[0]}')
 
         return validated, errors
 
diff --git a/oblate/utils.py b/oblate/utils.py
index d98ef03..d4d70eb 100644
--- a/oblate/utils.py
+++ b/oblate/utils.py
@@ -32,6 +32,7 @@ if TYPE_CHECKING:
 __all__ = (
     'MissingType',
     'MISSING',
+    'safe_repr',
     'current_context',
     'current_field_key',
     'current_schema',
@@ -54,6 +55,15 @@ class MissingType:
 MISSING: Any = MissingType()
 
 
+def safe_repr(obj: Any) -> str:
+    # The values shown in error messages are given by users, failing
+    # to represent them must not hide the actual error.
+    try:
+        return repr(obj)
+    except Exception:
+        return f'<{type(obj).__name__} object>'
+
+
 ### Context variables ###
 
 current_context: ContextVar[_BaseValueContext] = ContextVar('current_context')
-- 
2.43.0


From 8378f45584d2ad020a361044e4a0ffd2d47490b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 34/38] fix: validators of a subclass given a parent's field
 must not affect the parent

---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 514b000..b5c8d6e 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -164,6 +164,10 @@ class Schema(metaclass=_SchemaMeta):
                 cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
+                if isinstance(field, Field) and field._is_bound() and field._schema is not cls \
+                   and issubclass(cls, field._schema):
+                    # the parent's field, it must not be affected by this validator
+                    field = field._name
                 if isinstance(field, str):
                     try:
                         field = members[field]
-- 
2.43.0


From 64ebfa61cdebcb09f55024fed32daa7e0b42965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 35/38] fix: show the values of fields by their representation
 as documented

---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index b5c8d6e..4940ed2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -56,7 +56,7 @@ __all__ = (
 T = TypeVar('T')
 
 def _schema_repr(self: Schema) -> str:
-    attrs = ', '.join((f'{name}={value}' for name, value in self._field_values.items()))  # pragma: no cover
+    attrs = ', '.join((f'{name}={value!r}' for name, value in self._field_values.items()))  # pragma: no cover
     return f'{self.__class__.__name__}({attrs})'  # pragma: no cover
 
 
-- 
2.43.0


From 9547687f4e319621d88cf4d1e1e3963e93281ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 36/38] fix: validate_types must report keys that are not
 strings

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e713b0f..52594f3 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -65,7 +65,9 @@ class TypeValidationError(OblateException):
     """
     def __init__(self, errors: Dict[str, List[str]]) -> None:
         self.errors = errors
-        super().__init__(f'Type validation failed for following keys: {", ".join(errors)}')
+        # keys of validated data may be anything
+        keys = (key if isinstance(key, str) else safe_repr(key) for key in errors)
+        super().__init__(f'Type validation failed for following keys: {", ".join(keys)}')
 
 
 def validate_types(
-- 
2.43.0


From d1436ad034616ebb1b52d0bf336b71ae8bb0fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 37/38] fix: report keys and messages of errors that have no
 text

---
 oblate/exceptions.py | 12 ++++++------
 oblate/utils.py      |  9 +++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index a5a5aa4..e3e8e68 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Optional, List, Dict, Union, Literal, overload
-from oblate.utils import current_field_key, current_context, current_schema, MISSING
+from oblate.utils import current_field_key, current_context, current_schema, safe_str, MISSING
 
 if TYPE_CHECKING:
     from oblate.fields.base import Field
@@ -142,7 +142,7 @@ class FieldError(OblateException):
         field: Field[Any, Any],
         value: Any = MISSING,
     ) -> FieldError:
-        message = str(err)
+        message = safe_str(err)
         if not message:
             return field._call_format_error(field.ERR_VALIDATION_FAILED, schema, value)
         else:
@@ -220,11 +220,11 @@ class ValidationError(OblateException):
         indent = level*4
         for name, errors in field_errors.items():
             builder.append(f'{" "*indent}│')
-            message = f'{" "*indent}└── In field {name}:'
+            message = f'{" "*indent}└── In field {safe_str(name)}:'
             if errors:
                 field = errors[0].field
                 if field and name != field._name:
-                    message = f'{" "*indent}└── In field {name} ({field._name}):'
+                    message = f'{" "*indent}└── In field {safe_str(name)} ({field._name}):'
 
             builder.append(message)
             for idx, error in enumerate(errors):
@@ -233,7 +233,7 @@ class ValidationError(OblateException):
                     continue
 
                 prefix = '└──' if idx == len(errors) - 1 else '├──' 
-                builder.append(f'{" "*(indent+4)}{prefix} {error.message}')
+                builder.append(f'{" "*(indent+4)}{prefix} {safe_str(error.message)}')
 
         if level != 0:
             return '\n'.join(builder)
@@ -261,7 +261,7 @@ class ValidationError(OblateException):
             for item in obj:  # type: ignore
                 new_list.append(self._ensure_string(item))
             return new_list
-        return str(obj)
+        return safe_str(obj)
 
     @overload
     def _raw_std(
diff --git a/oblate/utils.py b/oblate/utils.py
index d4d70eb..756fdea 100644
--- a/oblate/utils.py
+++ b/oblate/utils.py
@@ -33,6 +33,7 @@ __all__ = (
     'MissingType',
     'MISSING',
     'safe_repr',
+    'safe_str',
     'current_context',
     'current_field_key',
     'current_schema',
@@ -64,6 +65,14 @@ def safe_repr(obj: Any) -> str:
         return f'<{type(obj).__name__} object>'
 
 
+def safe_str(obj: Any) -> str:
+    # Same as above, for the keys and messages of errors.
+    try:
+        return str(obj)
+    except Exception:
+        return f'<{type(obj).__name__} object>'
+
+
 ### Context variables ###
 
 current_context: ContextVar[_BaseValueContext] = ContextVar('current_context')
-- 
2.43.0


From 5074df65700bc48d56dbfecc3fba0f236762d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 38/38] fix: run and list all validators when they change while
 running or being listed

---
 oblate/fields/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index eeb62ab..95af8d8 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -213,7 +213,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         validators = self._raw_validators if raw else self._validators
         errors: List[FieldError] = []
 
-        for validator in validators:
+        for validator in validators.copy():
             try:
                 validator(context.schema, value, context)
             except (FieldError, AssertionError, ValueError) as err:
@@ -403,9 +403,9 @@ class Field(Generic[RawValueT, FinalValueT]):
             validators = self._validators.copy()
             validators.extend(self._raw_validators)
         elif raw:
-            validators = self._raw_validators
+            validators = self._raw_validators.copy()
         else:
-            validators = self._validators
+            validators = self._validators.copy()
 
         for validator in validators:
             yield validator
-- 
2.43.0

