"""Changes that break a property; only the checks of that property are run with them."""
from refac1 import DEN, DEP, FLD, BASE, SQLITE, PG, MYSQL, HELP, MID, DAEMON, BG

REFAC = [
    dict(id='s01', only=['C15'], edits=[(FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''', '''            value = self.denorm.func(model_instance)
            if value is None and self.has_default():
                value = self.get_default()

            if hasattr(self, "remote_field")''')]),
    dict(id='s02', only=['C16'], edits=[(DEN, '''    if instance.pk is not None:
        # Need a primary key''', '''    if instance.pk is not None and not kwargs.get('update_fields'):
        # Need a primary key''')]),
    dict(id='s03', only=['C11'], edits=[(FLD, '''        key = 'CachedField_%s' % value''', '''        key = 'CachedField_%s' % abs(value)''')]),
    dict(id='s04', only=['C06'], edits=[(DEN, '''        for instance in model._base_manager.all():
''', '''        for instance in model._base_manager.all()[:10000]:
''')]),
    dict(id='s05', only=['C10'], edits=[(FLD, '''        value = self.denorm.func(model_instance)
        setattr(model_instance, self.attname, value)
        return value

    def south_field_triple(self):
        return (
            '.'.join(('django', 'db', 'models', models.BigInt''', '''        value = self.denorm.func(model_instance)
        if add:
            setattr(model_instance, self.attname, value)
        return value

    def south_field_triple(self):
        return (
            '.'.join(('django', 'db', 'models', models.BigInt''')]),
    dict(id='s06', only=['C04', 'C05'], edits=[(DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()
''', '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save(force_update=True)
''')]),
    dict(id='s07', only=['C12'], edits=[(DEN, '''    for model in gmodels.get_models(include_auto_created=True):
''', '''    for model in gmodels.get_models():
''')]),
    dict(id='s08', only=['C08', 'C07'], edits=[(DEN, '''        return "%s - COALESCE(OLD.%s, 0)" % (''', '''        return "%s - ABS(COALESCE(OLD.%s, 0))" % (''')]),
    dict(id='s09', only=['C09'], edits=[(FLD, '''            if value is None:
                # the primary key''', '''            if value is None or value < 0:
                # the primary key''')]),
    dict(id='s10', only=['C19'], edits=[(FLD, '''            return name, super_path, args, kwargs
''', '''            kwargs.pop('db_column', None)
            return name, super_path, args, kwargs
''')]),
    dict(id='s11', only=['C14'], edits=[(DEP, '''        candidates = [x for x in candidates if not self.type or self.type == x[0]]
''', '''        candidates = [x for x in candidates if not self.type or x[0].startswith(self.type)]
''')]),
    dict(id='s12', only=['C01', 'C10'], edits=[(DEP, '''        if isinstance(self.other_model, six.string_types):
            # if''', '''        if isinstance(self.other_model, six.string_types) and '.' not in self.other_model:
            self.other_model = '%s.%s' % (this_model._meta.app_label, self.other_model)
        if isinstance(self.other_model, six.string_types):
            # if''')]),
    dict(id='s13', only=['C06', 'C04', 'C16'], edits=[(DEN, '''                if instance._state.adding:
                    # The primary key''', '''                if instance._state.adding and instance.pk:
                    # The primary key''')]),
    dict(id='s14', only=['C05'], edits=[(DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''', '''            try:
                if dirty_instance.content_object is not None:
                    dirty_instance.content_object.save()
            finally:
                DirtyInstance.objects.filter(
                    content_type_id=dirty_instance.content_type_id,
                    object_id=dirty_instance.object_id
                ).delete()
''')]),
    dict(id='s20', only=['C01'], edits=[(SQLITE, '''FROM %(table)s WHERE %(where)s' % locals()''', '''FROM %(table)s WHERE %(where)s LIMIT 100' % locals()''')]),
    dict(id='s21', only=['C01'], edits=[(SQLITE, '''"(OLD.%s IS NOT NEW.%s)"''', '''"(TRIM(OLD.%s) IS NOT TRIM(NEW.%s))"''')]),
    dict(id='s22', only=['C01'], edits=[(PG, '''"(OLD.%(f)s IS DISTINCT FROM NEW.%(f)s)"''', '''"(LOWER(OLD.%(f)s::text) IS DISTINCT FROM LOWER(NEW.%(f)s::text))"''')]),
    dict(id='s23', only=['C01', 'C02'], edits=[(SQLITE, '''            values = "VALUES(" + ", ".join(self.values) + ")"
''', '''            values = "SELECT %s WHERE NOT EXISTS (SELECT 1 FROM %s WHERE object_id = %s)" % (", ".join(self.values), table, self.values[1])
''')]),
    dict(id='s24', only=['C01', 'C02'], edits=[(PG, '''            cond = " AND ".join(conditions)
''', '''            conditions.append("(pg_trigger_depth() < 2)")
            cond = " AND ".join(conditions)
''')]),
    dict(id='s25', only=['C01'], edits=[(SQLITE, '''"(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f))''', '''"(LENGTH(OLD.%s) IS NOT LENGTH(NEW.%s))" % (qn(f), qn(f))''')]),
    dict(id='s26', only=['C01'], edits=[(PG, '''FROM %(table)s WHERE %(where)s' % locals()''', '''FROM %(table)s WHERE %(where)s LIMIT 1000' % locals()''')]),
    dict(id='s27', only=['C01'], edits=[(MYSQL, '''INSERT IGNORE INTO %(table)s %(columns)s %(values)s''', '''INSERT DELAYED IGNORE INTO %(table)s %(columns)s %(values)s''')]),
    # the behaviour is kept
    dict(id='s40', only=['C01', 'C03', 'C12'], edits=[(SQLITE, '''"(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f))''', '''"(OLD.%(f)s != NEW.%(f)s OR (OLD.%(f)s IS NULL) != (NEW.%(f)s IS NULL))" % {'f': qn(f)}''')]),
    dict(id='s41', only=['C01', 'C03', 'C07', 'C12'], edits=[(PG, '''            conditions = ["(%s)" % " OR ".join(conditions)]
''', '''            conditions = ["(NOT (%s))" % " AND ".join(c.replace('IS DISTINCT', 'IS NOT DISTINCT') for c in conditions)]
''')]),
    dict(id='s42', only=['C01', 'C02', 'C03', 'C07', 'C12', 'C13'], edits=[(PG, '''            actions = "\\n            ".join(action_list)
            actions = \"\"\"IF %(cond)s THEN
            %(actions)s
        END IF;\"\"\" % locals()
        else:
            actions = "\\n        ".join(action_list)
''', '''            when = "WHEN (%s) " % cond
        else:
            when = ""
        actions = "\\n        ".join(action_list)
'''), (PG, '''    FOR EACH ROW EXECUTE''', '''    FOR EACH ROW %(when)sEXECUTE''')]),
    dict(id='s43', only=['C01', 'C02', 'C03', 'C12'], edits=[(PG, '''            'BEGIN\\n'
            '    INSERT INTO %(table)s %(columns)s %(values)s;\\n'
            'EXCEPTION WHEN unique_violation THEN\\n'
            '    -- do nothing\\n'
            'END'
''', '''            'INSERT INTO %(table)s %(columns)s %(values)s ON CONFLICT DO NOTHING'
''')]),
    dict(id='s44', only=['C01', 'C02', 'C03', 'C12'], edits=[(MYSQL, '''INSERT IGNORE INTO %(table)s %(columns)s %(values)s''', '''INSERT INTO %(table)s %(columns)s %(values)s ON DUPLICATE KEY UPDATE object_id = VALUES(object_id)''')]),
    dict(id='s45', only=['C01', 'C03', 'C10', 'C12'], edits=[(x, '''"%s = %s" % (k, v) for k, v in self.kwargs''', '''"%s IN (%s)" % (k, v) for k, v in self.kwargs''') for x in (SQLITE, PG, MYSQL)]),
    dict(id='s46', only=['C08'], edits=[(DEN, '''COALESCE(NEW.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))''', '''CASE WHEN NEW.%s IS NULL THEN 0 ELSE NEW.%s END" % (qn(self.get_column()), qn(self.get_sum_column()), qn(self.get_sum_column()))''')]),
    dict(id='s47', only=['C01', 'C12'], edits=[(PG, '''        RETURN NULL;''', '''        RETURN NEW;''')]),
    dict(id='s48', only=['C01', 'C07', 'C12', 'C13'], edits=[(PG, '''
CREATE TRIGGER %(name)s
''', '''
CREATE OR REPLACE TRIGGER %(name)s
''')]),
    dict(id='s49', only=['C07', 'C03', 'C12'], edits=[(DEN, '''        return "%s - 1" % qn(self.get_column())''', '''        return "CASE WHEN %s > 0 THEN %s - 1 ELSE 0 END" % ((qn(self.get_column()),) * 2)''')]),
    dict(id='s50', only=['C01', 'C03', 'C12'], edits=[(MYSQL, '''                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s AND BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
''', '''                conditions.append("(OLD.%(f)s <=> NEW.%(f)s AND BINARY OLD.%(f)s <=> BINARY NEW.%(f)s)" % {'f': field})
'''), (MYSQL, '''            cond = " OR ".join(conditions)
''', '''            cond = "NOT (%s)" % " AND ".join(conditions)
''')]),
    dict(id='s51', only=['C01', 'C02', 'C03', 'C12'], edits=[(SQLITE, '''INSERT OR REPLACE INTO''', '''INSERT OR IGNORE INTO''')]),
    dict(id='s52', only=['C07', 'C08', 'C12'], edits=[(x, '''        return 'UPDATE %(table)s SET %(updates)s WHERE %(where)s' % locals()''', '''        return 'UPDATE %(table)s SET %(updates)s WHERE (%(where)s)' % locals()''') for x in (SQLITE, PG, MYSQL)]),
]
