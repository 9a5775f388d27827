From 20eb8435e66a54bcaee0eeff424bf2ea2e598434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:39 +0000
Subject: [PATCH 01/29] fix: skip reverse one-to-one relations when collecting
 tracked columns

A reverse one-to-one relation is not a column of the model it points to.
Building the triggers for a generic relation whose target has one failed with
an AttributeError, so no trigger was installed at all.
---
 denorm/db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9d1c7e4..54df1fd 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -57,9 +57,11 @@ def get_fields_with_model(model, meta):
         return [
             (f, f.model if f.model != model else None)
             for f in meta.get_fields()
-            if not f.is_relation
+            if f.concrete and (
+                not f.is_relation
                 or f.one_to_one
                 or (f.many_to_one and f.related_model)
+            )
         ]
     except AttributeError:
         return meta.get_fields_with_model()
-- 
2.43.0


From b3843c103abaa9540ac22c7363c851a26fa1564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:48 +0000
Subject: [PATCH 02/29] fix: compare columns, not attribute names, in trigger
 conditions

The columns that a trigger compares, and the content type and object id columns
of generic relations, were taken from the attribute names of the fields.
With db_column those are not columns of the table and the trigger fails.
---
 denorm/db/base.py      | 8 ++++----
 denorm/dependencies.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 54df1fd..9155e46 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -96,14 +96,14 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
-            self.content_type_field = subject.content_type_field_name + '_id'
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
             skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
             self.model = subject
@@ -121,7 +121,7 @@ class Trigger(object):
                     pass
                 else:
                     if not v and k.attname not in skip:
-                        self.fields.append((k.attname, k.db_type(connection=self.connection)))
+                        self.fields.append((k.column, k.db_type(connection=self.connection)))
 
         else:
             raise NotImplementedError
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7f4802e..5cf4750 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -174,7 +174,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = self.field.object_id_field_name
+                    column_name = remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column
                     reverse_column_name = self.field.remote_field.model._meta.pk.column
                 if "backward" in self.type:
                     column_name = self.field.remote_field.model._meta.pk.column
@@ -354,7 +354,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = qn(self.field.object_id_field_name)
+                    column_name = qn(remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column)
                     reverse_column_name = remote_field_model(self.field)._meta.pk.column
                 if "backward" in self.type:
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
-- 
2.43.0


From 27b3d592d73024db60abf596de6805f4cdb70b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:20 +0000
Subject: [PATCH 03/29] fix: use column names for aggregate and cache key
 fields in triggers

Count, sum and cache key triggers used the names of the field, of the foreign
key and of the summed field instead of their columns, which breaks as soon as
one of them has a db_column.
---
 denorm/db/base.py |  2 +-
 denorm/denorms.py | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9155e46..81bd884 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -38,7 +38,7 @@ class TriggerActionInsert(TriggerAction):
 class TriggerActionUpdate(TriggerAction):
     def __init__(self, model, columns, values, where):
         self.model = model
-        self.columns = columns
+        self.columns = [model._meta.get_field(name).column for name in columns]
         self.where = where
 
         self.values = []
diff --git a/denorm/denorms.py b/denorm/denorms.py
index f102a0f..8341338 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -89,6 +89,9 @@ class Denorm(object):
             cconnection = connection
         return cconnection.ops.quote_name
 
+    def get_column(self):
+        return self.model._meta.get_field(self.fieldname).column
+
     def setup(self, **kwargs):
         """
         Adds 'self' to the global denorm list
@@ -392,7 +395,7 @@ class AggregateDenorm(Denorm):
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
             pk_name = qn(self.model._meta.pk.get_attname_column()[1])
-            fk_name = qn(related_field.attname)
+            fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
 
@@ -466,15 +469,18 @@ class SumDenorm(AggregateDenorm):
         self.sum_field = field
         self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(Sum(self.sum_field)).values()[0] or 0)
 
+    def get_sum_column(self):
+        return self.manager.field.model._meta.get_field(self.sum_field).column
+
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + NEW.%s" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - OLD.%s" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -519,12 +525,12 @@ class CountDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + 1" % qn(self.fieldname)
+        return "%s + 1" % qn(self.get_column())
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - 1" % qn(self.fieldname)
+        return "%s - 1" % qn(self.get_column())
 
     def get_related_increment_value(self, using):
         return self.get_increment_value(using)
-- 
2.43.0


From 95c7663ce0fecb3df2189f448e563384675a7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:21 +0000
Subject: [PATCH 04/29] fix: count rows without a value as zero in sum fields

A NULL in the summed column made the whole sum NULL, which fails on the not
null sum column, so that rows without a value could not be stored at all.
---
 denorm/denorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 8341338..7945e7d 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -475,12 +475,12 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.get_column()), qn(self.get_sum_column()))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.get_column()), qn(self.get_sum_column()))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
-- 
2.43.0


From 456aecb5337135b5f81162f1bdbb1b3998e2653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 05/29] fix: honour denorm_always_skip also when skip is given

The columns that a model excludes for all of its triggers were ignored for
every field or dependency that has a skip argument of its own.
---
 denorm/db/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 81bd884..0ce6b2c 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -102,7 +102,7 @@ class Trigger(object):
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
@@ -110,7 +110,7 @@ class Trigger(object):
             self.db_table = self.model._meta.db_table
             # FIXME: need to check get_parent_list and add triggers to those
             # The below will only check the fields on *this* model, not parents
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = []
             try:
                 from django.db.models.fields.related import ForeignObjectRel
-- 
2.43.0


From 9c530ee984dc7a85a0dfa4a8b3346ee05165639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 06/29] fix: honour skip for dependencies through generic
 relations

The excluded columns were only taken into account for foreign keys and for the
far side of many-to-many relations.
---
 denorm/db/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 0ce6b2c..35a6812 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -96,7 +96,8 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            skip = tuple(skip or ()) + tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
             self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
-- 
2.43.0


From f4a76a11c914b31c9e6f34fb82befa56d30a327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 07/29] fix: recompute dirty instances that are false in a
 boolean context

A model with __len__ or __bool__ may have instances that are false. Flushing
removed their markers without saving them.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 7945e7d..ea6f7c6 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -632,7 +632,7 @@ def flush(verbose=False):
             if verbose:
                 i += 1
                 print("flushing %s of %s all dirty instances" % (i, size))
-            if dirty_instance.content_object:
+            if dirty_instance.content_object is not None:
                 dirty_instance.content_object.save()
 
             DirtyInstance.objects.filter(
-- 
2.43.0


From 85f7d43ddb39a6266990f5eeadd74a29884539a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 08/29] fix: allow saving new instances with an assigned
 primary key and an aggregate

Saving an instance whose primary key is already set first tries an update.
The aggregate field then failed with an IndexError because there is no row yet.
---
 denorm/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index b8acb2a..6064900 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -168,11 +168,14 @@ class AggregateField(models.PositiveIntegerField):
             value = 0
         else:
             # if we're updating, get the most recent value from the DB
-            value = self.denorm.model.objects.filter(
+            value = self.denorm.model._base_manager.filter(
                 pk=model_instance.pk,
             ).values_list(
                 self.attname, flat=True,
-            )[0]
+            ).first()
+            if value is None:
+                # the primary key was assigned, but nothing is stored yet
+                value = 0
 
         setattr(model_instance, self.attname, value)
         return value
-- 
2.43.0


From 110a169d6630833c92dcd8fc5b1c73c96e2c9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 09/29] fix: give every model its own state of inherited
 aggregate and cache key fields

Models inheriting a count, sum or cache key field from an abstract model shared
one denorm and one list of dependencies, so only the last one got triggers.
---
 denorm/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 6064900..f59b4a7 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+import copy
+
 from django.db import models, connection
 from . import denorms
 from django.conf import settings
@@ -142,6 +144,8 @@ class AggregateField(models.PositiveIntegerField):
         super(AggregateField, self).__init__(**kwargs)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # every model that inherits the field needs a denorm of its own
+        self.denorm = copy.copy(self.denorm)
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
@@ -274,6 +278,8 @@ class CacheKeyField(models.BigIntegerField):
         self.dependencies.append(CacheKeyDependOnRelated(*args, **kwargs))
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # every model that inherits the field needs dependencies of its own
+        self.dependencies = [copy.copy(depend) for depend in self.dependencies]
         for depend in self.dependencies:
             depend.fieldname = name
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
-- 
2.43.0


From a8d9ced9197b4c45cb7a421f6819c0632a1d816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 10/29] fix: renew nothing when a generic row was saved
 unchanged on PostgreSQL

The two alternatives of the content type condition were not in parentheses, so
that the trigger fired for every update of a row of that content type.
---
 denorm/db/postgresql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9159809..8c9206b 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
         if ct_field:
             ct_field = qn(ct_field)
             if event == "UPDATE":
-                conditions.append("(OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s)" % {'ctf': ct_field, 'ct': content_type})
+                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
             elif event == "INSERT":
                 conditions.append("(NEW.%s = %s)" % (ct_field, content_type))
             elif event == "DELETE":
-- 
2.43.0


From 75a164e9c8e601a14c4009c1fb866525f54fc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 11/29] fix: do not drop foreign triggers whose name merely
 starts with denorm

The underscore is a wildcard in LIKE patterns: dropping also removed triggers
like denormalize_totals. On SQLite the comparison ignored case as well.
---
 denorm/db/postgresql/triggers.py | 2 +-
 denorm/db/sqlite3/triggers.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8c9206b..c2135f5 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -136,7 +136,7 @@ class TriggerSet(base.TriggerSet):
     def drop_atomic(self):
         qn = self.connection.ops.quote_name
         cursor = self.cursor()
-        cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_trigger.tgname LIKE 'denorm_%%';")
+        cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE substr(pg_trigger.tgname, 1, 7) = 'denorm_';")
         for table_name, trigger_name in cursor.fetchall():
             cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 576e110..a60d59e 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -111,7 +111,7 @@ class TriggerSet(base.TriggerSet):
         qn = self.connection.ops.quote_name
         cursor = self.cursor()
 
-        cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND name LIKE 'denorm_%%';")
+        cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND substr(name, 1, 7) = 'denorm_';")
         for trigger_name, table_name in cursor.fetchall():
             cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
 
-- 
2.43.0


From c44b832d689597c5d09bfd874affda71af38e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 12/29] fix: install and drop triggers atomically on the
 selected database

The transaction was always opened on the default database.
---
 denorm/db/postgresql/triggers.py | 4 ++--
 denorm/db/sqlite3/triggers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index c2135f5..dc0848a 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -142,7 +142,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -159,7 +159,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index a60d59e..a2460b8 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -117,7 +117,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -132,7 +132,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
-- 
2.43.0


From 69595a8b790ace08abf253c5782f728019e454de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 13/29] fix: install the triggers of denormalized many-to-many
 fields

Only the other fields of a model were looked at, so that a denormalized
many-to-many field had triggers only if another field shared them, and was not
rebuilt.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index ea6f7c6..878e890 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -70,7 +70,7 @@ def get_alldenorms():
     alldenorms = []
     for model in gmodels.get_models(include_auto_created=True):
         if not model._meta.proxy:
-            for field in model._meta.fields:
+            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                 if hasattr(field, 'denorm'):
                     if not field.denorm.model._meta.swapped:
                         alldenorms.append(field.denorm)
-- 
2.43.0


From a63af87c3aa93c590af2ec2f3f19fdeba387d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 14/29] fix: rebuild instances that the default manager hides

Models whose manager filters its rows, or is not called objects, were not
rebuilt completely.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 878e890..f865f76 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -564,7 +564,7 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
-        for instance in model.objects.all():
+        for instance in model._base_manager.all():
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 20b891306049b6a4df9f6b7c51b92f772babc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 15/29] fix: let the daemon run its one cycle when told to run
 once

---
 denorm/management/commands/denorm_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 24b4d47..e81a7f0 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -82,7 +82,7 @@ class Command(BaseCommand):
             from denorm import daemon
             daemon.daemonize(noClose=True, pidfile=pidfile)
 
-        while not run_once:
+        while True:
             try:
                 denorms.flush()
                 sleep(interval)
-- 
2.43.0


From bb416cb91b00a14d23f5f61526f3cf7a567ad622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 16/29] fix: write the pid file of the daemon on Python 3

---
 denorm/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/daemon.py b/denorm/daemon.py
index a058937..0bda534 100644
--- a/denorm/daemon.py
+++ b/denorm/daemon.py
@@ -151,7 +151,8 @@ def daemonize(noClose=False, pidfile=None):
             # Original child. Exit.
             if pidfile:
                 print(pid)
-                file(pidfile, "w").write(str(pid))
+                with open(pidfile, "w") as f:
+                    f.write(str(pid))
             os._exit(0)
 
         # This is the second child. Set the umask.
-- 
2.43.0


From 8b1ef03bd18a85fb07b2fc08debd085016bed61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:48 +0000
Subject: [PATCH 17/29] fix: notice changes MySQL collations hold for equal

The update triggers compared text columns by their collation, so a
change of only the letter case of a value left dependent fields as they
were.
---
 denorm/db/mysql/triggers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7ad85b7..1aa11cc 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -83,7 +83,8 @@ class Trigger(base.Trigger):
             for field, native_type in self.fields:
                 field = qn(field)
                 # TODO: find out if we need to compare some fields as text like in postgres
-                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s))" % {'f': field})
+                # the collation of a text column may hold different values for equal
+                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s AND BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
 
         if conditions:
             cond = " OR ".join(conditions)
-- 
2.43.0


From 1f12ed842f260f4eab0cbf3e7b45d3375d236769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:19 +0000
Subject: [PATCH 18/29] fix: find the related manager of aggregates on the
 model loaded last

A project whose last model refers to one with a count or sum field could
not install its triggers, because no further class was prepared after
the related manager became available.
---
 denorm/denorms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f865f76..48093e9 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -380,6 +380,10 @@ class AggregateDenorm(Denorm):
 
         qn = self.get_quote_name(using)
 
+        if not self.manager:
+            # the model that was loaded last gets its managers after its class was prepared
+            self.manager = getattr(self.model, self.manager_name)
+
         try:  # Django>=1.9
             related_field = self.manager.field
         except AttributeError:
-- 
2.43.0


From 7fa3dd795c2fbacf32b2db8a5c1c667583b1829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:19 +0000
Subject: [PATCH 19/29] fix: use cached values that are false

They were computed again on every load, so an instance could show
another value than the one stored for its cache key.
---
 denorm/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index f59b4a7..26c3f07 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -310,7 +310,7 @@ class CacheWrapper(object):
     def __set__(self, obj, value):
         key = 'CachedField_%s' % value
         cached = self.field.cache.get(key)
-        if not cached:
+        if cached is None:
             cached = self.field.func(obj)
             self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
         obj.__dict__[self.field.name] = cached
-- 
2.43.0


From 58bc5ca5c6060f355da8563c9c589541e551ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:08 +0000
Subject: [PATCH 20/29] fix: find relations that name their model by a string
 that is not resolved yet

A dependency is resolved while models are still being loaded. A relation
declared as ForeignKey('Model') holds just that string until both models are
registered, so it was overlooked: the dependency was rejected, or another
relation was taken although two of them matched.
---
 denorm/helpers.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/denorm/helpers.py b/denorm/helpers.py
index 54d2be7..bfa342f 100644
--- a/denorm/helpers.py
+++ b/denorm/helpers.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from django.db import models
+from django.db.models.fields import related
 import six
 
 
@@ -12,6 +13,18 @@ def remote_field_model(field):
     if hasattr(field, 'rel') and field.rel:
         return field.rel.to
 
+
+def points_to(field, model):
+    """
+    Whether the relation 'field' points to 'model'.
+    """
+    to_model = remote_field_model(field)
+    if isinstance(to_model, six.string_types):
+        # the model is named by a string and not connected to the field yet
+        return related.resolve_relation(field.model, to_model).lower() == model._meta.label_lower
+    return repr(to_model).lower() == repr(model).lower()
+
+
 def find_fks(from_model, to_model, fk_name=None):
     """
     Finds all ForeignKeys on 'from_model' pointing to 'to_model'.
@@ -21,7 +34,7 @@ def find_fks(from_model, to_model, fk_name=None):
     fkeys = [x for x in from_model._meta.fields if isinstance(x, models.ForeignKey)]
 
     # filter out all FKs not pointing to 'to_model'
-    fkeys = [x for x in fkeys if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    fkeys = [x for x in fkeys if points_to(x, to_model)]
 
     # if 'fk_name' was given, filter out all FKs not matching that name, leaving
     # only one (or none)
@@ -45,7 +58,7 @@ def find_m2ms(from_model, to_model, m2m_name=None):
     m2ms = list(from_model._meta.many_to_many) + private_fields
 
     # filter out all M2Ms not pointing to 'to_model'
-    m2ms = [x for x in m2ms if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    m2ms = [x for x in m2ms if points_to(x, to_model)]
 
     # if 'm2m_name' was given, filter out all M2Ms not matching that name, leaving
     # only one (or none)
-- 
2.43.0


From cbcfd6451e203f7771e6d234cda591f36dac1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:55 +0000
Subject: [PATCH 21/29] fix: reject a dependency on a missing model also when
 its type was given

With an explicit type the check for a resolved dependency passed, and an
unknown type then produced no triggers at all instead of an error.
---
 denorm/dependencies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 5cf4750..b3b3946 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -40,6 +40,7 @@ class DependOnRelated(DenormDependency):
         self.fk_name = foreign_key
         self.type = type
         self.skip = skip or ()
+        self.field = None
 
     def setup(self, this_model):
         super(DependOnRelated, self).setup(this_model)
@@ -98,7 +99,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if self.field is None:
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
@@ -275,7 +276,7 @@ class CallbackDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if self.field is None:
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
-- 
2.43.0


From 3f319ef9e45b45b2f43480eee81cb251f4667250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:13 +0000
Subject: [PATCH 22/29] fix: let the daemon work on SQLite, which cannot save
 while autocommit is off

---
 denorm/management/commands/denorm_daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index e81a7f0..736dd13 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -5,7 +5,7 @@ from time import sleep
 from optparse import make_option
 
 from django.core.management.base import BaseCommand
-from django.db import transaction
+from django.db import connection, transaction
 
 from denorm import denorms
 
@@ -13,6 +13,9 @@ PID_FILE = "/tmp/django-denorm-daemon-pid"
 
 def commit_manually(fn):  # replacement of transaction.commit_manually decorator removed in Django 1.6
     def _commit_manually(*args, **kwargs):
+        if connection.features.autocommits_when_autocommit_is_off:
+            # SQLite cannot save anything while autocommit is switched off
+            return fn(*args, **kwargs)
         transaction.set_autocommit(False)
         res = fn(*args, **kwargs)
         transaction.commit()
-- 
2.43.0


From 8c5ec01cbdd9275260087f751221fb3def31e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 23/29] fix: do not write an aggregate read from another
 database or an instant earlier

AggregateField.pre_save read the current value from the default database,
also when the instance is stored in another one, and saving then wrote that
value.  A row added between the read and the write was forgotten in the same
way.  The value shown is now read from the database the instance belongs to,
and an update leaves the column at the value it has when it is executed.
---
 denorm/fields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 26c3f07..4560221 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 import copy
 
-from django.db import models, connection
+from django.db import models, connection, router
 from . import denorms
 from django.conf import settings
 import django.db.models
@@ -172,7 +172,8 @@ class AggregateField(models.PositiveIntegerField):
             value = 0
         else:
             # if we're updating, get the most recent value from the DB
-            value = self.denorm.model._base_manager.filter(
+            using = router.db_for_write(self.denorm.model, instance=model_instance)
+            value = self.denorm.model._base_manager.using(using).filter(
                 pk=model_instance.pk,
             ).values_list(
                 self.attname, flat=True,
@@ -182,6 +183,9 @@ class AggregateField(models.PositiveIntegerField):
                 value = 0
 
         setattr(model_instance, self.attname, value)
+        if not add:
+            # let the database keep whatever it holds when the row is written
+            return models.F(self.name)
         return value
 
     def deconstruct(self):
-- 
2.43.0


From 738d174a16f081d6e196de97fa85cf5f1114f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 24/29] fix: forget the related object when a denormalized
 foreign key is computed as a key

If the function of a denormalized foreign key returns a primary key or None,
the instance kept showing the object that was loaded before the save.
---
 denorm/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 4560221..f510c10 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -78,6 +78,10 @@ def denormalized(DBField, *args, **kwargs):
                 setattr(model_instance, self.name, value)
                 return getattr(model_instance, self.attname)
             else:
+                if related_field_model:
+                    # the object loaded for the previous value is not the one referred to any more
+                    loaded = getattr(model_instance._state, 'fields_cache', model_instance.__dict__)  # Django>=2.0
+                    loaded.pop(self.get_cache_name(), None)
                 setattr(model_instance, self.attname, value)
                 return value
 
-- 
2.43.0


From 3417269601b136bcf6055196f682099a2547a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 25/29] fix: fill denormalized many-to-many fields of instances
 with primary key 0

The primary key was tested for truth instead of being compared with None.
---
 denorm/denorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 48093e9..3834713 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -15,11 +15,11 @@ from django.db.models.sql.where import WhereNode
 import django
 from decimal import Decimal
 
-def many_to_many_pre_save(sender, instance, **kwargs):
+def many_to_many_pre_save(sender, instance, using=None, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
-    if instance.pk:
+    if instance.pk is not None:
         # Need a primary key to do m2m stuff
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
-- 
2.43.0


From 36c2c283e2df4feb32a1d8c19eabe9a4fb02f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 26/29] fix: save instances with an assigned primary key and a
 denormalized many-to-many field

The links were made before the row was inserted, which failed with ValueError
or IntegrityError.
---
 denorm/denorms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 3834713..aa1a650 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -24,6 +24,13 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
+                if instance._state.adding:
+                    # The primary key was assigned, there may be no row to link to yet.
+                    # If there is none, the links are made by the save after the insert.
+                    if not sender._base_manager.using(using).filter(pk=instance.pk).exists():
+                        return
+                    instance._state.db = using
+
                 # Does some extra jiggery-pokery for "through" m2m models.
                 # May not work under lots of conditions.
                 try:
-- 
2.43.0


From 39596966318b230eb2f8b8023c42ef5a41106053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 27/29] fix: fill denormalized many-to-many fields when saving
 through a proxy or child model

The handlers were connected for the declaring model only, but the signals
carry the class of the saved instance.  The links of instances saved through
a proxy model or a model inheriting from the declaring one stayed as they were.
---
 denorm/denorms.py | 4 ++--
 denorm/fields.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index aa1a650..26a11e7 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -21,7 +21,7 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
     """
     if instance.pk is not None:
         # Need a primary key to do m2m stuff
-        for m2m in sender._meta.local_many_to_many:
+        for m2m in sender._meta.many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
                 if instance._state.adding:
@@ -61,7 +61,7 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
 def many_to_many_post_save(sender, instance, created, **kwargs):
     if created:
         def check_resave():
-            for m2m in sender._meta.local_many_to_many:
+            for m2m in sender._meta.many_to_many:
                 if hasattr(m2m, 'denorm'):
                     return True
             return False
diff --git a/denorm/fields.py b/denorm/fields.py
index f510c10..4716767 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -51,8 +51,9 @@ def denormalized(DBField, *args, **kwargs):
             self.field_args = (args, kwargs)
             models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
             # Add The many to many signal for this class
-            models.signals.pre_save.connect(denorms.many_to_many_pre_save, sender=cls)
-            models.signals.post_save.connect(denorms.many_to_many_post_save, sender=cls)
+            # and for those inheriting from it, which send signals of their own
+            models.signals.pre_save.connect(denorms.many_to_many_pre_save)
+            models.signals.post_save.connect(denorms.many_to_many_post_save)
             DBField.contribute_to_class(self, cls, name, *args, **kwargs)
 
         def pre_save(self, model_instance, add):
-- 
2.43.0


From c785883aa25fd46d20eb957a92065496fd4b774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 28/29] fix: clone denormalized fields whose description has
 positional arguments

The first of them was taken for the function of the clone.
---
 denorm/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 4716767..37bf6cf 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -101,6 +101,10 @@ def denormalized(DBField, *args, **kwargs):
             super_name, super_path, super_args, super_kwargs = DBField(*args, **kwargs).deconstruct()
             return name, super_path, args, kwargs
 
+        def clone(self):
+            name, path, args, kwargs = self.deconstruct()
+            return self.__class__(None, *args, **kwargs)
+
     def deco(func):
         dbfield = DenormDBField(func, *args, **kwargs)
         return dbfield
-- 
2.43.0


From ad57e774cecff6eb1ad7a685f942102ae351ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:40 +0000
Subject: [PATCH 29/29] fix: load instances with a cached attribute in
 migrations

The models of migrations have no function and no cache, so loading or creating
an instance failed with AttributeError.
---
 denorm/fields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 37bf6cf..e769eb2 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -340,7 +340,9 @@ class CachedField(CacheKeyField):
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
-        setattr(cls, self.name, CacheWrapper(self))
+        if self.func and self.cache:
+            # the models of migrations have neither
+            setattr(cls, self.name, CacheWrapper(self))
 
 
 def cached(cache, *args, **kwargs):
-- 
2.43.0

