"""Changes that break a property, second batch."""
from refac1 import DEN, DEP, FLD, BASE, SQLITE, PG, MYSQL, HELP, MID, DAEMON, BG

SAVE = '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
'''
REFAC = [
    dict(id='q02', only=['C01', 'C10', 'C12'], edits=[(BASE, '''                self.triggers[name].append(trigger.actions)
''', '''                self.triggers[name].append(trigger.actions[:1])
''')]),
    dict(id='q08', only=['C02'], edits=[(FLD, '''if hasattr(settings, 'DENORM_BULK_UNSAFE_TRIGGERS') and settings.DENORM_BULK_UNSAFE_TRIGGERS:''',
                                        '''if hasattr(settings, 'DENORM_BULK_UNSAFE_TRIGGERS'):''')]),
    dict(id='q09', only=['C02'], edits=[(DEN, '''            values=(content_type, "NEW.%s" % qn(self.model._meta.pk.get_attname_column()[1]))
        )
''', '''            values=(content_type, "NEW.%s" % qn(self.model._meta.pk.get_attname_column()[1]))
        )
        if not self.depend:
            # a new row is saved by the ORM, which computes the value
            return [triggers.Trigger(self.model, "after", "update", [action], content_type, using, self.skip)]
''')]),
    dict(id='q10', only=['C03'], edits=[(BASE, '''            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
            self.fields = []
''', '''            skip = tuple(skip or ()) + tuple(vars(self.model).get('denorm_always_skip', ()))
            self.fields = []
''')]),
    dict(id='q11', only=['C03'], edits=[(BASE, '''                    if not v and k.attname not in skip:
''', '''                    if not v and k.name not in skip:
''')]),
    dict(id='q12', only=['C03'], edits=[(PG, '''            elif event == "DELETE":
                conditions.append("(OLD.%s = %s)" % (ct_field, content_type))
''', '')]),
    dict(id='q17', only=['C05'], edits=[(DEN, SAVE, '''            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
            try:
                if dirty_instance.content_object is not None:
                    dirty_instance.content_object.save()
            except Exception:
                DirtyInstance.objects.create(content_type_id=dirty_instance.content_type_id, object_id=dirty_instance.object_id)
                raise
''')]),
    dict(id='q18', only=['C06'], edits=[(DEN, '''                msg = 'making dirty instances', '%s/%s' % (i + 1, len(alldenorms)), denorm''',
                                        '''                msg = 'making dirty instances', '%d%%' % (100 * i // (len(denorms) - 1)), denorm''')]),
    dict(id='q19', only=['C06'], edits=[(DEN, '''field_name == denorm.fieldname:''', '''denorm.fieldname.startswith(field_name):''')]),
    dict(id='q20', only=['C06'], edits=[(DEN, '''        if model_name is None or model_name in (current_app_label, current_model_name, current_app_model):
''', '''        if model_name is None or model_name.lower() in (current_app_label, current_model_name.lower(), current_app_model.lower()):
''')]),
    dict(id='q22', only=['C08'], edits=[(DEN, '''return "%s - COALESCE(OLD.%s, 0)" % (''', '''return "%s - OLD.%s" % (''')]),
    dict(id='q23', only=['C08'], edits=[(DEN, '''        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
''', '''        less = "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
        return "CASE WHEN %s < 0 THEN 0 ELSE %s END" % (less, less)
''')]),
    dict(id='q24', only=['C07', 'C08'], edits=[(DEN, '''        inc_query.add_q(Q(**self.filter))
        inc_query.add_q(~Q(**self.exclude))
''', '''        inc_query.add_q(Q(**self.filter))
        if self.exclude:
            inc_query.add_q(~Q(**self.exclude))
'''), (DEN, '''        dec_query.add_q(Q(**self.filter))
        dec_query.add_q(~Q(**self.exclude))
''', '''        dec_query.add_q(~Q(**self.exclude))
        dec_query.add_q(Q(**self.filter))
''')]),
    dict(id='q26', only=['C09'], edits=[(FLD, '''        if not add:
            # let''', '''        if value:
            # let''')]),
    dict(id='q27', only=['C09'], edits=[(FLD, '''        setattr(model_instance, self.attname, value)
        if not add:
''', '''        if add:
            setattr(model_instance, self.attname, value)
        if not add:
''')]),
    dict(id='q28', only=['C10'], edits=[(MYSQL, '''((RAND()-0.5)*2.0) )''', '''RAND())''')]),
    dict(id='q29', only=['C10'], edits=[(FLD, '''        value = self.denorm.func(model_instance)
        setattr(model_instance, self.attname, value)
        return value
''', '''        value = getattr(model_instance, self.attname)
        if add or not value:
            value = self.denorm.func(model_instance)
            setattr(model_instance, self.attname, value)
        return value
''')]),
    dict(id='q32', only=['C11'], edits=[(FLD, '''        if cached is None:
            cached = self.field.func(obj)''', '''        if not cached:
            cached = self.field.func(obj)''')]),
    dict(id='q33', only=['C11'], edits=[(FLD, '''        key = 'CachedField_%s' % value
''', '''        key = 'CachedField_%s' % abs(value)
''')]),
    dict(id='q34', only=['C11'], edits=[(FLD, '''        obj.__dict__[self.field.name] = cached
''', '''        obj.__dict__.setdefault(self.field.name, cached)
''')]),
    dict(id='q35', only=['C12'], edits=[(DEN, '''    for denorm in alldenorms:
        triggerset.append(denorm.get_triggers(using=using))
''', '''    seen = set()
    for denorm in alldenorms:
        key = (denorm.model.__name__, denorm.fieldname)
        if key not in seen:
            seen.add(key)
            triggerset.append(denorm.get_triggers(using=using))
''')]),
    dict(id='q40', only=['C12', 'C13'], edits=[(SQLITE, '''CREATE TRIGGER %(name)s
''', '''CREATE TRIGGER IF NOT EXISTS %(name)s
''')]),
    dict(id='q41', only=['C14'], edits=[(HELP, '''        m2ms = [x for x in m2ms if x.attname == m2m_name]
''', '''        m2ms = [x for x in m2ms if m2m_name in x.attname]
''')]),
    dict(id='q42', only=['C14'], edits=[(DEP, '''if not self.type or self.type == x[0]]
''', '''if not self.type or self.type in x[0]]
''')]),
    dict(id='q43', only=['C14'], edits=[(DEP, '''        if self.other_model != self.this_model or self.type:
            candidates += [('backward_m2m', ''', '''        if self.other_model != self.this_model:
            candidates += [('backward_m2m', ''')]),
    dict(id='q44', only=['C15'], edits=[(FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''', '''            value = self.denorm.func(model_instance)
            if value is None and not self.null:
                value = self.get_default()

            if hasattr(self, "remote_field")''')]),
    dict(id='q45', only=['C15'], edits=[(FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''', '''            value = self.denorm.func(model_instance) or self.get_default()

            if hasattr(self, "remote_field")''')]),
    dict(id='q46', only=['C16'], edits=[(DEN, '''                    values = m2m.denorm.func(instance)
                    try:
                        getattr(instance, m2m.attname).set(values)
''', '''                    values = m2m.denorm.func(instance)
                    try:
                        if values:
                            getattr(instance, m2m.attname).set(values)
''')]),
    dict(id='q47', only=['C16'], edits=[(DEN, '''                    values = m2m.denorm.func(instance)
                    try:
                        getattr(instance, m2m.attname).set(values)
''', '''                    values = list(m2m.denorm.func(instance))
                    try:
                        if getattr(instance, m2m.attname).count() != len(values):
                            getattr(instance, m2m.attname).set(values)
''')]),
    dict(id='q48', only=['C16'], edits=[(DEN, '''        for m2m in sender._meta.many_to_many:
            # This''', '''        for m2m in sender._meta.local_many_to_many:
            # This''')]),
    dict(id='q49', only=['C17'], edits=[(MID, '''            flush()
        except''', '''            if request.method not in ('GET', 'HEAD', 'OPTIONS', 'TRACE') or response.status_code != 304:
                flush()
        except''')]),
    dict(id='q50', only=['C17'], edits=[(MID, '''        except DatabaseError as e:
            logger.error(e)
''', '''        except DatabaseError as e:
            logger.error(e.args[0])
''')]),
    dict(id='q51', only=['C18'], edits=[(DAEMON, '''            return err.errno == os.errno.EPERM
''', '''            return err.errno in (os.errno.EPERM, os.errno.ENOENT)
''')]),
    dict(id='q52', only=['C18'], edits=[(DAEMON, '''                sleep(interval)
''', '''                sleep(interval or 1)
''')]),
    dict(id='q53', only=['C19'], edits=[(FLD, '''        args = [self.denorm.manager_name] + args
''', '''        if self.denorm.manager_name != 'item_set':
            args = [self.denorm.manager_name] + args
''')]),
    dict(id='q54', only=['C19'], edits=[(FLD, '''        del kwargs['editable']
        args''', '''        del kwargs['editable']
        kwargs.pop('db_index', None)
        args''')]),
    dict(id='q55', only=['C19'], edits=[(FLD, '''            return name, super_path, args, kwargs
''', '''            return name, super_path, super_args, dict(super_kwargs, **({'default': kwargs['default']} if 'default' in kwargs else {}))
''')]),
    dict(id='q56', only=['C20', 'C05'], edits=[(DEN, '''        for dirty_instance in qs.iterator():
''', '''        done = []
        for dirty_instance in qs.iterator():
'''), (DEN, '''            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''', '''            done.append((dirty_instance.content_type_id, dirty_instance.object_id))
        for content_type_id, object_id in done:
            DirtyInstance.objects.filter(content_type_id=content_type_id, object_id=object_id).delete()
''')]),
    dict(id='q57', only=['C01', 'C12'], edits=[(PG, '''        name = base.Trigger.name(self)
        if self.content_type_field:
''', '''        name = base.Trigger.name(self)
        if self.content_type_field and self.event != 'delete':
''')]),
    dict(id='q58', only=['C01'], edits=[(MYSQL, '''            for field, native_type in self.fields:
''', '''            for field, native_type in self.fields[:30]:
''')]),
    dict(id='q59', only=['C01', 'C10'], edits=[(SQLITE, '''for f, t in self.fields]) + ")")
''', '''for f, t in self.fields if t != 'text' or f != 'data']) + ")")
''')]),
    dict(id='q60', only=['C04', 'C05'], edits=[(DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()
''', '''            if dirty_instance.content_object is not None:
                try:
                    dirty_instance.content_object.save()
                except ValueError:
                    # cannot be computed
                    pass
''')]),
    dict(id='q61', only=['C04'], edits=[(DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()
''', '''            if dirty_instance.content_object:
                dirty_instance.content_object.save()
''')]),
    dict(id='q62', only=['C04'], edits=[(DEN, '''                dirty_instance.content_object.save()
''', '''                dirty_instance.content_object.save(force_update=True)
''')]),
]
