From 63f884038f22c72664a5daa30cb9d1a3264a6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 01/27] fix: fields and links with different options no longer
 share results

---
 hiku/query.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..b2f52d5 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -52,13 +52,20 @@ from .utils import cached_property
 
 
 def _compute_hash(obj):
+    """Returns hashable value, which is equal only for the same options
+
+    Result of the `hash` function can't be used for this purpose: different
+    values can have the same hash, and some of them are equal: ``1 == True``.
+    """
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return dict, frozenset((_compute_hash(k), _compute_hash(v))
+                               for k, v in obj.items())
+    elif isinstance(obj, (list, tuple)):
+        return type(obj), tuple(_compute_hash(i) for i in obj)
+    elif isinstance(obj, (set, frozenset)):
+        return type(obj), frozenset(_compute_hash(i) for i in obj)
     else:
-        return hash(obj)
+        return type(obj), obj
 
 
 class Base:
@@ -103,7 +110,7 @@ class FieldBase(Base):
     @cached_property
     def index_key(self):
         if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+            return self.name, self.options_hash
         else:
             return self.name
 
-- 
2.43.0


From 7969e7bb1debc9c724fdb12f79e80f1f20aeccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 02/27] fix: preserve an order of selections when mutation
 queries are merged

Fields were moved in front of links, so mutations weren't executed in the
order they were written.
---
 hiku/query.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index b2f52d5..493a450 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -201,6 +201,16 @@ def _merge(nodes):
         yield link.copy(node=merge(values))
 
 
+def _merge_ordered(nodes):
+    """Same as `_merge`, but preserves an order of the requested fields"""
+    requested = OrderedDict()
+    for field in chain.from_iterable(e.fields for e in nodes):
+        key = (field.__class__, field.name, field.options_hash, field.alias)
+        requested.setdefault(key, []).append(field)
+    for fields in requested.values():
+        yield from _merge([Node(fields)])
+
+
 def merge(nodes):
     """Merges multiple queries into one query
 
@@ -209,7 +219,8 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    fields = _merge_ordered(nodes) if ordered else _merge(nodes)
+    return Node(list(fields), ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From a07df1b14f489f15c4eaa7836d1b3f4e6d1fc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 03/27] fix: support complex fields in ordered queries

---
 hiku/engine.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..6bf2636 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -118,11 +118,16 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
-        if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
-        self._groups.append((graph_obj, obj))
-        self._funcs.append(graph_obj.func)
-        self._current_func = None
+        if isinstance(graph_obj, Link):
+            if graph_obj.requires:
+                self.visit(hiku_query.Field(graph_obj.requires))
+            self._groups.append((graph_obj, obj))
+            self._funcs.append(graph_obj.func)
+            self._current_func = None
+        else:
+            assert isinstance(graph_obj, Field), type(graph_obj)
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
 
 
 def _check_store_fields(node, fields, ids, result):
-- 
2.43.0


From 4b65d3baee4ec2ab79c2d7079425ba58a307a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 04/27] fix: merge selections with the same result name

---
 hiku/query.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 493a450..3841d7d 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -185,7 +185,7 @@ def _merge(nodes):
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = (field.name, field.options_hash, field.result_key)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
@@ -205,7 +205,8 @@ def _merge_ordered(nodes):
     """Same as `_merge`, but preserves an order of the requested fields"""
     requested = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.__class__, field.name, field.options_hash, field.alias)
+        key = (field.__class__, field.name, field.options_hash,
+               field.result_key)
         requested.setdefault(key, []).append(field)
     for fields in requested.values():
         yield from _merge([Node(fields)])
-- 
2.43.0


From a35930a409f27f396a689ca7106cb2a3d53ac5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 05/27] fix: @include is not ignored when @skip is present

---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From 9892c100c761104813058deba6cc5ba95b3bd0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 06/27] fix: report usage of an undefined fragment as a reading
 error

---
 hiku/readers/graphql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..afe6820 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -223,7 +223,11 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
-        return self.visit(self.fragments_map[name])
+        try:
+            fragment = self.fragments_map[name]
+        except KeyError:
+            raise TypeError('Undefined fragment: "{}"'.format(name))
+        return self.visit(fragment)
 
     def visit_operation_definition(self, obj):
         pass  # not interested in operations here
-- 
2.43.0


From 12118926fd52fe99794f0ee4ccddc81a88225393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 07/27] fix: answer unreadable documents with errors in GraphQL
 endpoints

---
 hiku/endpoint/graphql.py | 5 ++++-
 hiku/readers/graphql.py  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..d52b995 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,8 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (GraphQLSyntaxError, NotImplementedError,
+            TypeError, ValueError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index afe6820..3deb75b 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -9,7 +9,7 @@ from ..query import Node, Field, Link, merge
 class NodeVisitor:
 
     def visit(self, obj):
-        visit_method = getattr(self, 'visit_{}'.format(obj.kind))
+        visit_method = getattr(self, 'visit_{}'.format(obj.kind), None)
         if visit_method is None:
             raise NotImplementedError('Not implemented node type: {!r}'
                                       .format(obj))
-- 
2.43.0


From 1a69da03e486dcbc44db95e8afcda6921303ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 08/27] fix: reject sub-selections of __typename in GraphQL
 endpoints

---
 hiku/endpoint/graphql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index d52b995..37ccfd0 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import Field, QueryTransformer
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -29,7 +29,8 @@ class _StripQuery(QueryTransformer):
 
     def visit_node(self, obj):
         return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if f.name != '__typename'])
+                                if not (isinstance(f, Field)
+                                        and f.name == '__typename')])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
-- 
2.43.0


From 06abbabcc9657c9d45971eb454f131b8bbf98ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 09/27] fix: denormalize aliases and nested types of complex
 fields

---
 hiku/denormalize/base.py    | 52 ++++++++++++++++++-------------------
 hiku/denormalize/graphql.py | 26 ++++++++++---------
 hiku/result.py              | 23 +++++++++-------
 3 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..657d541 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,7 +1,9 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
-from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
+from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, RecordMeta
+from ..types import get_type
+from ..result import Proxy
 
 
 class Denormalize(QueryVisitor):
@@ -19,40 +21,36 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _value(self, obj):
+        data = self._data[-1]
+        # values of complex fields are stored under original field names
+        return data[obj.result_key if isinstance(data, Proxy) else obj.name]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._value(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
+        self._res[-1][obj.result_key] = \
+            self._visit_value(type_, self._value(obj), obj)
+
+    def _visit_value(self, type_, value, obj: Link):
         if isinstance(type_, TypeRefMeta):
-            self._type.append(get_type(self._types, type_))
+            return self._visit_value(get_type(self._types, type_), value, obj)
+        elif isinstance(type_, SequenceMeta):
+            return [self._visit_value(type_.__item_type__, item, obj)
+                    for item in value]
+        elif isinstance(type_, OptionalMeta):
+            if value is None:
+                return None
+            return self._visit_value(type_.__type__, value, obj)
+        elif isinstance(type_, RecordMeta):
+            self._type.append(type_)
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(value)
             super().visit_link(obj)
             self._data.pop()
-            self._res[-1][obj.result_key] = self._res.pop()
             self._type.pop()
-        elif isinstance(type_, SequenceMeta):
-            self._type.append(get_type(self._types, type_.__item_type__))
-            items = []
-            for item in self._data[-1][obj.result_key]:
-                self._res.append({})
-                self._data.append(item)
-                super().visit_link(obj)
-                self._data.pop()
-                items.append(self._res.pop())
-            self._res[-1][obj.result_key] = items
-            self._type.pop()
-        elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
-                self._res[-1][obj.result_key] = None
-            else:
-                self._type.append(get_type(self._types, type_.__type__))
-                self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
-                super().visit_link(obj)
-                self._data.pop()
-                self._res[-1][obj.result_key] = self._res.pop()
-                self._type.pop()
+            return self._res.pop()
         else:
             raise AssertionError(repr(type_))
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index f3aedb5..ade849c 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -1,7 +1,8 @@
 from collections import deque
 
 from ..query import Field, Link
-from ..types import TypeRefMeta, SequenceMeta, OptionalMeta
+from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
+from ..types import get_type
 
 from .base import Denormalize
 
@@ -20,16 +21,17 @@ class DenormalizeGraphQL(Denormalize):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
-            type_ref = type_
-        elif isinstance(type_, SequenceMeta):
-            type_ref = type_.__item_type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
-        elif isinstance(type_, OptionalMeta):
-            type_ref = type_.__type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
-        else:
-            raise AssertionError(repr(type_))
-        self._type_name.append(type_ref.__type_name__)
+        type_name = None
+        while not isinstance(type_, RecordMeta):
+            if isinstance(type_, TypeRefMeta):
+                type_name = type_.__type_name__
+                type_ = get_type(self._types, type_)
+            elif isinstance(type_, SequenceMeta):
+                type_ = type_.__item_type__
+            elif isinstance(type_, OptionalMeta):
+                type_ = type_.__type__
+            else:
+                raise AssertionError(repr(type_))
+        self._type_name.append(type_name)
         super().visit_link(obj)
         self._type_name.pop()
diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..bcf674b 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -20,7 +20,8 @@
 """
 from collections import defaultdict
 
-from .types import RecordMeta, OptionalMeta, SequenceMeta, get_type
+from .types import RecordMeta, OptionalMeta, SequenceMeta, TypeRefMeta
+from .types import get_type
 from .query import Node, Field, Link
 from .graph import Link as GraphLink, Field as GraphField, Many, Maybe
 from .utils import cached_property
@@ -102,22 +103,26 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
-        if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+        if isinstance(type_, TypeRefMeta):
+            return _denormalize_type(types, get_type(types, type_), result,
+                                     query_obj)
+        elif isinstance(type_, SequenceMeta):
+            return [_denormalize_type(types, type_.__item_type__, item,
+                                      query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(types, type_.__type__, result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(types, field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
@@ -136,8 +141,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type, result,
+                                     query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From 38862cc6d3252b5c53c5dd41e108dda441fd6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 10/27] fix: report unknown links and options of links inside
 complex fields

---
 hiku/validate/query.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..db42aee 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -232,6 +232,11 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
+        if obj.options is not None:
+            self._errors.report('Options are not expected')
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From 52f2efbbe08cbdfebd0496a6d044ad1fff82a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 11/27] fix: report distinct selections under one result name

A field and a selection of its fields, selections which differ only in types
of their options, and distinct selections inside complex fields passed the
validation, but a result has a single value for both.
---
 hiku/validate/query.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index db42aee..52f9c7a 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -215,6 +215,19 @@ class _ValidateOptions(GraphVisitor):
         raise AssertionError('Root node is not expected here')
 
 
+def _field_eq(a, b):
+    return a.__class__ is b.__class__ and a.index_key == b.index_key
+
+
+def _validate_result_keys(fields, node, errors):
+    seen = {}
+    for field in fields:
+        if not _field_eq(field, seen.setdefault(field.result_key, field)):
+            errors.report('Found distinct fields with the same '
+                          'resulting name "{}" for the node "{}"'
+                          .format(field.result_key, node))
+
+
 class _RecordFieldsValidator(QueryVisitor):
 
     def __init__(self, data_types, field_types, errors):
@@ -243,6 +256,7 @@ class _RecordFieldsValidator(QueryVisitor):
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
+            _validate_result_keys(obj.node.fields, obj.name, self._errors)
             for field in obj.node.fields:
                 fields_validator.visit(field)
         else:
@@ -252,10 +266,6 @@ class _RecordFieldsValidator(QueryVisitor):
         raise AssertionError('Node is not expected here')
 
 
-def _field_eq(a, b):
-    return a.name == b.name and a.options == b.options
-
-
 class QueryValidator(QueryVisitor):
 
     def __init__(self, graph):
@@ -290,6 +300,7 @@ class QueryValidator(QueryVisitor):
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
+                _validate_result_keys(obj.node.fields, obj.name, self.errors)
                 for field in obj.node.fields:
                     fields_validator.visit(field)
             else:
@@ -316,17 +327,9 @@ class QueryValidator(QueryVisitor):
             raise TypeError(repr(graph_obj))
 
     def visit_node(self, obj):
-        fields = {}
+        _validate_result_keys(obj.fields, self.path[-1].name or 'root',
+                              self.errors)
         for field in obj.fields:
-            seen = fields.get(field.result_key)
-            if seen is not None:
-                if not _field_eq(field, seen):
-                    node = self.path[-1].name or 'root'
-                    self.errors.report('Found distinct fields with the same '
-                                       'resulting name "{}" for the node "{}"'
-                                       .format(field.result_key, node))
-            else:
-                fields[field.result_key] = field
             self.visit(field)
 
 
-- 
2.43.0


From 8bccde04bce90cdf5a2198625b50e4898909d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 12/27] fix: introspect options without a type

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..b91d452 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From 0e087378ac6a97a9f16afd3d874a94d48e72b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 13/27] fix: introspect references to data types which are not
 records

---
 hiku/introspection/graphql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index b91d452..8b3c1c8 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -73,9 +73,12 @@ class TypeIdent(AbstractTypeVisitor):
         return ident.of_type if isinstance(ident, NON_NULL) else ident
 
     def visit_typeref(self, obj):
-        if self._input_mode:
-            assert obj.__type_name__ in self._graph.data_types, \
-                obj.__type_name__
+        data_type = self._graph.data_types.get(obj.__type_name__)
+        if data_type is not None and not isinstance(data_type, RecordMeta):
+            # only records are exposed as types under their own names
+            return self.visit(data_type)
+        elif self._input_mode:
+            assert data_type is not None, obj.__type_name__
             return NON_NULL(INPUT_OBJECT(obj.__type_name__))
         else:
             return NON_NULL(OBJECT(obj.__type_name__))
-- 
2.43.0


From 83e652472a6932e1f6310ff7a8e5d078420333dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 14/27] fix: report options of a wrong kind of fields in graph
 definitions

They raised AttributeError or were accepted, unlike options of links.
---
 hiku/validate/graph.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index 1ed5f2b..f915691 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -38,6 +38,7 @@ class GraphValidator(GraphVisitor):
     _name_formatter = _NameFormatter()
     _graph_accept_types = (AbstractNode,)
     _node_accept_types = (AbstractField, AbstractLink)
+    _field_accept_types = (AbstractOption,)
     _link_accept_types = (AbstractOption,)
 
     def __init__(self, items):
@@ -82,6 +83,19 @@ class GraphValidator(GraphVisitor):
         # TODO: check option default value according to the option type
         pass
 
+    def visit_field(self, obj):
+        invalid = [f for f in obj.options
+                   if not isinstance(f, self._field_accept_types)]
+        if invalid:
+            self.errors.report(
+                'Invalid types provided as field "{}" options: {}'
+                .format(self._format_path(obj), self._format_types(invalid))
+            )
+            return
+
+        with self.push_ctx(obj):
+            super(GraphValidator, self).visit_field(obj)
+
     def visit_link(self, obj):
         invalid = [f for f in obj.options
                    if not isinstance(f, self._link_accept_types)]
-- 
2.43.0


From d49b54dc71fab2bd8fb1334f8d97ea871f5a804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:04 +0000
Subject: [PATCH 15/27] fix: check kinds of option values: booleans are not
 integers, strings are not sequences

---
 hiku/validate/query.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 52f9c7a..333a991 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -124,7 +124,7 @@ class _OptionTypeValidator:
             raise _OptionTypeError(self.value, type_)
 
     def visit_integer(self, type_):
-        if not isinstance(self.value, int):
+        if not isinstance(self.value, int) or isinstance(self.value, bool):
             raise _OptionTypeError(self.value, type_)
 
     def visit_float(self, type_):
@@ -136,7 +136,10 @@ class _OptionTypeValidator:
             self.visit(type_.__type__)
 
     def visit_sequence(self, type_):
-        if not isinstance(self.value, collections_abc.Sequence):
+        if (
+            not isinstance(self.value, collections_abc.Sequence)
+            or isinstance(self.value, (str, bytes))
+        ):
             raise _OptionTypeError(self.value, type_)
         for item in self.value:
             with self.push(item):
-- 
2.43.0


From 6dd4909659cdf899f947bbb960f8eaed4ce4c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 16/27] fix: await every outstanding task when asyncio
 execution is cancelled

---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From dd1645d0a8545f7061181f4efdedce8f5631dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 17/27] fix: introspect graphs with several root nodes

---
 hiku/introspection/graphql.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 8b3c1c8..2fea922 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -650,15 +650,12 @@ class GraphQLIntrospection(GraphTransformer):
         node.fields.append(self.__type_name__(obj.name))
         return node
 
-    def visit_root(self, obj):
-        root = super(GraphQLIntrospection, self).visit_root(obj)
-        root.fields.append(self.__type_name__(QUERY_ROOT_NAME))
-        return root
-
     def visit_graph(self, obj):
         ValidateGraph.validate(obj)
         introspection_graph = self.__introspection_graph__()
         items = [self.visit(node) for node in obj.items]
+        # graph can have several root nodes, all of them describe one type
+        items.append(Root([self.__type_name__(QUERY_ROOT_NAME)]))
         items.extend(introspection_graph.items)
         return Graph(items, data_types=obj.data_types)
 
-- 
2.43.0


From 5362bd0253fe7fc88615df2a2ef61a9f7dd40e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 18/27] fix: resolve names in compiled expressions as the
 checker does

Variables of compiled expressions could hide each other, the arguments of the
compiled function and names of finished bindings; the value and the else
branch of if_some were resolved inside of its binding.
---
 hiku/expr/compiler.py | 46 +++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..e591637 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -1,5 +1,4 @@
 from contextlib import contextmanager
-from collections import Counter
 
 from ..types import CallableMeta
 from ..compat import ast as py
@@ -9,26 +8,37 @@ from .nodes import Symbol, Keyword
 
 
 class Environ:
+    """Maps names of the bindings, visible at the moment, to the names of the
+    variables in the compiled code"""
 
-    def __init__(self):
-        self.vars = Counter()
+    def __init__(self, reserved=()):
+        self.vars = {}
+        self.used = set(reserved)
 
     def __getitem__(self, key):
-        i = self.vars[key]
-        return '{}_{}'.format(key, i) if i > 1 else key
+        return self.vars[key][-1]
 
     def __contains__(self, key):
-        return key in self.vars
+        return bool(self.vars.get(key))
+
+    def _add(self, name):
+        var, i = name, 1
+        while var in self.used:
+            i += 1
+            var = '{}_{}'.format(name, i)
+        self.used.add(var)
+        self.vars.setdefault(name, []).append(var)
+        return var
 
     @contextmanager
     def push(self, names):
-        for name in names:
-            self.vars[name] += 1
+        variables = [self._add(name) for name in names]
         try:
-            yield
+            yield variables
         finally:
-            for name in names:
-                self.vars[name] -= 1
+            for name, var in zip(names, variables):
+                self.vars[name].remove(var)
+                self.used.discard(var)
 
 
 class ExpressionCompiler:
@@ -36,7 +46,7 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.env_var, self.ctx_var, 'next'])
 
     @classmethod
     def compile_expr(cls, node):
@@ -46,14 +56,14 @@ class ExpressionCompiler:
     def compile_lambda_expr(cls, node, args=None):
         args = args or []
         compiler = cls()
-        with compiler.env.push([THIS] + args):
+        with compiler.env.push([THIS] + args) as (this_var, *arg_vars):
             body = compiler.visit(node)
         py_args = [
             py.arg(cls.env_var, None),
-            py.arg(THIS, None),
+            py.arg(this_var, None),
             py.arg(cls.ctx_var, None),
         ]
-        py_args.extend(py.arg(name, None) for name in args)
+        py_args.extend(py.arg(var, None) for var in arg_vars)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
@@ -104,6 +114,8 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        bind_expr = self.visit(bind_expr)
+        else_ = self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +123,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([bind_expr], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From 867c8e9bdd489cfe2fb6d7bf7d0c17593c2b101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 19/27] fix: evaluate sub-graph expressions which do not use
 this

A query of only such fields failed with KeyError: 'this'.
---
 hiku/sources/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..3316d87 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -107,7 +107,10 @@ class SubGraph:
         this_graph_link = Link(THIS, Sequence[TypeRef[self.node]], None,
                                requires=None)
 
-        reqs = merge([gf.func.reqs for gf, _ in fields])
+        # objects themselves are always requested: expressions are evaluated
+        # for every object, even if they do not depend on its data
+        reqs = merge([query.Node([query.Link(THIS, query.Node([]))])] +
+                     [gf.func.reqs for gf, _ in fields])
         procs = [gf.func.proc for gf, _ in fields]
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
-- 
2.43.0


From 4a824f8787b497256367eb7ca27448c9bbf92dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 20/27] fix: allow fields named obj in expressions

S.this.obj was an attribute of the expression object instead of the field.
---
 hiku/expr/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hiku/expr/core.py b/hiku/expr/core.py
index 3093ce0..8895c5c 100644
--- a/hiku/expr/core.py
+++ b/hiku/expr/core.py
@@ -25,13 +25,13 @@ _Func = namedtuple('__func__', 'expr, args')
 class _DotHandler:
 
     def __init__(self, obj):
-        self.obj = obj
+        self.__expr__ = obj
 
     def __repr__(self):
-        return repr(self.obj)
+        return repr(self.__expr__)
 
     def __getattr__(self, name):
-        return _DotHandler(Tuple([Symbol('get'), self.obj, Symbol(name)]))
+        return _DotHandler(Tuple([Symbol('get'), self.__expr__, Symbol(name)]))
 
 
 class _S:
@@ -47,7 +47,7 @@ S = _S()
 
 def _to_expr(obj, fn_reg):
     if isinstance(obj, _DotHandler):
-        return obj.obj
+        return obj.__expr__
     elif isinstance(obj, _Func):
         fn_reg.add(obj.expr)
         return Tuple([Symbol(obj.expr.__def_name__)] +
-- 
2.43.0


From d111843daffd02db519bc480c7387c9d1468c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 21/27] fix: read \uXXXX escapes in EDN strings

The writer encodes control and non-ASCII characters this way (astral ones as surrogate pairs), the reader returned the digits of the code instead of the character.
---
 hiku/edn.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..54bb398 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -238,7 +238,19 @@ def parser(target, tag_handlers, stop=None):
                 if char == '\\':
                     char = (yield)
                     char2 = _CHAR_MAP.get(char)
-                    if char2 is not None:
+                    if char == 'u':
+                        code = ''
+                        while len(code) < 4:
+                            code += (yield)
+                        code = int(code, 16)
+                        # the writer encodes astral characters as
+                        # surrogate pairs
+                        if (0xdc00 <= code <= 0xdfff and chars
+                                and '\ud800' <= chars[-1] <= '\udbff'):
+                            high = ord(chars.pop()) - 0xd800
+                            code = 0x10000 + (high << 10) + code - 0xdc00
+                        chars.append(chr(code))
+                    elif char2 is not None:
                         chars.append(char2)
                     else:
                         chars.append(char)
-- 
2.43.0


From 69f2f66c3b095f0c661a8307a5b8ee047b823935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 22/27] fix: read tagged EDN values at the end of a collection

'[#t nil]' failed: the bracket which ends a tagged symbol, keyword or number was treated as a part of the tagged value.
---
 hiku/edn.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 54bb398..ec4f687 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -145,15 +145,21 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
+    # end character of the outer collection ends the tagged value too
+    handler = parser(appender(elements), tag_handlers, stop='}])')
+    consumed = True
     handler.send(c)
     while not elements:
-        handler.send((yield))
+        try:
+            handler.send((yield))
+        except StopIteration:
+            if not elements:
+                raise ValueError("Tag without a value in edn", tag_name)
+            consumed = False
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        yield tag_handlers[tag_name](elements[0]), consumed
     else:
-        yield TaggedElement(tag_name, elements[0]), True
-        yield None, True
+        yield TaggedElement(tag_name, elements[0]), consumed
 
 
 @coroutine
@@ -224,7 +230,7 @@ def parser(target, tag_handlers, stop=None):
                         target.send(v)
                 if consumed:
                     continue
-        if c == stop:
+        if stop is not None and c in stop:
             return
         if c in STOP_CHARS:
             continue
-- 
2.43.0


From 05f02046a4a6e1f6dea25928978f7dec2f8cc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 23/27] fix: read EDN decimals as decimals

'1.5M', as a Decimal is written, was read as a float and '1M' as an integer.
---
 hiku/edn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ec4f687..c89b1b7 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -176,7 +176,9 @@ def character_handler():
 
 
 def parse_number(s):
-    s = s.rstrip('MN').upper()
+    if s.endswith('M'):
+        return Decimal(s[:-1])
+    s = s.rstrip('N').upper()
     if 'E' not in s and '.' not in s:
         return int(s)
     return float(s)
-- 
2.43.0


From 591c770bf1f5950225a3f7424e30d567801fe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:08 +0000
Subject: [PATCH 24/27] fix: observe metrics of a function used in several
 nodes under each node's name

---
 hiku/telemetry/prometheus.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..88cc056 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,16 +114,16 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        # one function can be used in several nodes, and each of them needs its
+        # own label, so wrappers are shared only within a node
+        wrapper_key = (node_name, func)
+        wrapper = self._wrappers.get(wrapper_key)
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
-                    node_name, func,
-                )
+                wrapper = self._wrap_subquery(node_name, func)
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
-                    node_name, func,
-                )
+                wrapper = self._wrap_field(node_name, func)
+            self._wrappers[wrapper_key] = wrapper
 
         if isinstance(obj.func, CheckedExpr):
             obj.func = CheckedExpr(
-- 
2.43.0


From 3521f5e5a2ea9f7884cd8d53da98fed4fcb7e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:47 +0000
Subject: [PATCH 25/27] fix: request low-level fields of mapping and nested
 container types in expressions

---
 hiku/expr/refs.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index 50fd0be..46f0fd8 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -1,19 +1,10 @@
 from ..query import Node, Link, Field, merge
-from ..types import GenericMeta, RecordMeta, SequenceMeta, MappingMeta
+from ..types import GenericMeta, RecordMeta, SequenceMeta
 from ..types import OptionalMeta, get_type
 
 from .nodes import NodeVisitor
 
 
-# TODO: revisit this
-_CONTAINER_TYPES = (
-    OptionalMeta,
-    SequenceMeta,
-    MappingMeta,
-    RecordMeta,
-)
-
-
 class Ref:
 
     def __init__(self, backref, to):
@@ -58,22 +49,17 @@ def ref_to_req(types, ref, add_req=None):
         else:
             return ref_to_req(types, ref.backref, add_req)
 
-    elif isinstance(ref_type, SequenceMeta):
-        item_type = get_type(types, ref_type.__item_type__)
-        if isinstance(item_type, RecordMeta):
-            assert isinstance(ref, NamedRef), type(ref)
-            node = Node([]) if add_req is None else add_req
-            return ref_to_req(types, ref.backref,
-                              Node([Link(ref.name, node)]))
-        else:
-            assert not isinstance(item_type, _CONTAINER_TYPES), ref_type
-            assert isinstance(ref, NamedRef), type(ref)
-            assert add_req is None, repr(add_req)
-            return ref_to_req(types, ref.backref,
-                              Node([Field(ref.name)]))
+    elif (
+        isinstance(ref_type, SequenceMeta)
+        and isinstance(get_type(types, ref_type.__item_type__), RecordMeta)
+    ):
+        assert isinstance(ref, NamedRef), type(ref)
+        node = Node([]) if add_req is None else add_req
+        return ref_to_req(types, ref.backref,
+                          Node([Link(ref.name, node)]))
 
     elif isinstance(ref_type, GenericMeta):
-        assert not isinstance(ref_type, _CONTAINER_TYPES), ref_type
+        # values of all other types are requested as a whole
         assert add_req is None, repr(add_req)
         if isinstance(ref, NamedRef):
             return ref_to_req(types, ref.backref,
-- 
2.43.0


From ae06f3ac348b17b5ab8517a85b1a1d078063c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:48 +0000
Subject: [PATCH 26/27] fix: resolve names of data types which are references
 to other data types

---
 hiku/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hiku/types.py b/hiku/types.py
index 47c63b0..34acc7e 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -292,7 +292,7 @@ class TypeVisitor(AbstractTypeVisitor):
 
 
 def get_type(types, t):
-    if isinstance(t, TypeRefMeta):
-        return types[t.__type_name__]
-    else:
-        return t
+    # a named type can be a reference to another named type
+    while isinstance(t, TypeRefMeta):
+        t = types[t.__type_name__]
+    return t
-- 
2.43.0


From c2c4e1d7e6da8b64ae47766be158bce4bb41e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:23 +0000
Subject: [PATCH 27/27] fix: keep __typename of a referenced data type the name
 of its own type

---
 hiku/denormalize/graphql.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index ade849c..cee761e 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -2,7 +2,6 @@ from collections import deque
 
 from ..query import Field, Link
 from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
-from ..types import get_type
 
 from .base import Denormalize
 
@@ -25,7 +24,7 @@ class DenormalizeGraphQL(Denormalize):
         while not isinstance(type_, RecordMeta):
             if isinstance(type_, TypeRefMeta):
                 type_name = type_.__type_name__
-                type_ = get_type(self._types, type_)
+                type_ = self._types[type_name]
             elif isinstance(type_, SequenceMeta):
                 type_ = type_.__item_type__
             elif isinstance(type_, OptionalMeta):
-- 
2.43.0

