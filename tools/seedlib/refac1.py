"""Changes that keep the behaviour: no check may alarm."""
DEN, DEP, FLD, BASE = 'denorm/denorms.py', 'denorm/dependencies.py', 'denorm/fields.py', 'denorm/db/base.py'
SQLITE, PG, MYSQL = ('denorm/db/%s/triggers.py' % n for n in ('sqlite3', 'postgresql', 'mysql'))
HELP, MID, DAEMON, BG = ('denorm/helpers.py', 'denorm/middleware.py', 'denorm/management/commands/denorm_daemon.py', 'denorm/daemon.py')

REFAC = [
    dict(id='r01', edits=[  # flush: helper functions, early continue
        (DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''', '''            _flush_one(DirtyInstance, dirty_instance)
'''), (DEN, '''def flush(verbose=False):
''', '''def _flush_one(DirtyInstance, dirty_instance):
    obj = dirty_instance.content_object
    if obj is not None:
        obj.save()
    lookup = {
        'content_type_id': dirty_instance.content_type_id,
        'object_id': dirty_instance.object_id,
    }
    DirtyInstance.objects.filter(**lookup).delete()


def flush(verbose=False):
''')]),
    dict(id='r02', edits=[  # flush: the loop condition
        (DEN, '''    while True:
        # Get all dirty markers
        from .models import DirtyInstance
        qs = DirtyInstance.objects.all()
''', '''    from .models import DirtyInstance
    while DirtyInstance.objects.exists():
        # Get all dirty markers
        qs = DirtyInstance.objects.all()
'''), (DEN, '''        # DirtyInstance table is empty -> all data is consistent -> we're done
        if not qs:
            break

''', '')]),
    dict(id='r03', edits=[  # dependencies: shared helper for the actions
        (DEP, '''            action_m2m_new = triggers.TriggerActionInsert(
                model=denorm.models.DirtyInstance,
                columns=("content_type_id", "object_id"),
                values=(
                    content_type,
                    "NEW.%s" % column_name,
                )
            )
            action_m2m_old = triggers.TriggerActionInsert(
                model=denorm.models.DirtyInstance,
                columns=("content_type_id", "object_id"),
                values=(
                    content_type,
                    "OLD.%s" % column_name,
                )
            )
''', '''            def mark(row):
                return triggers.TriggerActionInsert(
                    model=denorm.models.DirtyInstance,
                    columns=("content_type_id", "object_id"),
                    values=(content_type, "{}.{}".format(row, column_name)),
                )

            action_m2m_new, action_m2m_old = mark("NEW"), mark("OLD")
'''), (DEP, '''            return [
                triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
            ]
''', '''            return [
                triggers.Trigger(self.other_model, "after", event, actions, content_type, using, self.skip)
                for event, actions in (
                    ("update", [action_new, action_old]),
                    ("insert", [action_new]),
                    ("delete", [action_old]),
                )
            ]
''')]),
    dict(id='r04', edits=[  # sqlite trigger text
        (SQLITE, '''        params = []
        action_list = []
        actions_added = set()
        for a in self.actions:
            sql, action_params = a.sql()
            if sql:
                if not sql.endswith(';'):
                    sql += ';'
                action_params = tuple(action_params)
                if (sql, action_params) not in actions_added:
                    actions_added.add((sql, action_params))
                    action_list.extend(sql.split('\\n'))
                    params.extend(action_params)
        actions = "\\n        ".join(action_list)
''', '''        statements = []
        for action in self.actions:
            sql, action_params = action.sql()
            if not sql:
                continue
            statement = (sql if sql.endswith(';') else sql + ';', tuple(action_params))
            if statement not in statements:
                statements.append(statement)
        params = [p for _, action_params in statements for p in action_params]
        actions = "\\n        ".join(sql for sql, _ in statements)
'''), (SQLITE, '''        if event == "UPDATE":
            when.append("(" + "OR".join(["(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f)) for f, t in self.fields]) + ")")
''', '''        if event == "UPDATE":
            columns = [qn(column) for column, _ in self.fields]
            changed = " OR ".join("OLD.{0} IS NOT NEW.{0}".format(column) for column in columns)
            when.append("(%s)" % changed)
''')]),
    dict(id='r05', edits=[  # postgres trigger text
        (PG, '''            for field, native_type in self.fields:
                field = qn(field)
                if native_type is None:
                    # If Django didn't know what this field type should be
                    # then compare it as text - Fixes a problem of trying to
                    # compare PostGIS geometry fields.
                    conditions.append("(OLD.%(f)s::%(t)s IS DISTINCT FROM NEW.%(f)s::%(t)s)" % {'f': field, 't': 'text'})
                else:
                    conditions.append("(OLD.%(f)s IS DISTINCT FROM NEW.%(f)s)" % {'f': field})

            conditions = ["(%s)" % " OR ".join(conditions)]
''', '''            def changed(field, native_type):
                # If Django didn't know what this field type should be
                # then compare it as text
                cast = '' if native_type is not None else '::text'
                return "(NEW.{f}{c} IS DISTINCT FROM OLD.{f}{c})".format(f=qn(field), c=cast)

            conditions.append("(" + " OR ".join(changed(f, t) for f, t in self.fields) + ")")
'''), (PG, '''                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
''', '''                conditions.append("%s IN (OLD.%s, NEW.%s)" % (content_type, ct_field, ct_field))
''')]),
    dict(id='r06', edits=[  # mysql trigger text
        (MYSQL, '''            for field, native_type in self.fields:
                field = qn(field)
                # TODO: find out if we need to compare some fields as text like in postgres
                # the collation of a text column may hold different values for equal
                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s AND BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
''', '''            for field, native_type in self.fields:
                field = qn(field)
                # the collation of a text column may hold different values for equal
                conditions.append("NOT (BINARY OLD.%s <=> BINARY NEW.%s)" % (field, field))
'''), (MYSQL, '''            cond = " OR ".join(conditions)
''', '''            cond = "(" + ") OR (".join(conditions) + ")"
''')]),
    dict(id='r07', edits=[  # trigger fields: one loop for all subjects
        (BASE, '''            self.fields = []
            try:
                from django.db.models.fields.related import ForeignObjectRel
            except:
                from django.db.models.related import RelatedObject as ForeignObjectRel
            for k, v in get_fields_with_model(subject, self.model._meta):
                if isinstance(k, ForeignObjectRel):
                    pass
                else:
                    if not v and k.attname not in skip:
                        self.fields.append((k.column, k.db_type(connection=self.connection)))
''', '''            self.fields = [
                (field.column, field.db_type(connection=self.connection))
                for field, inherited_from in get_fields_with_model(subject, self.model._meta)
                if not inherited_from and field.attname not in skip
            ]
''')]),
    dict(id='r08', edits=[  # trigger set: setdefault-free merging
        (BASE, '''        for trigger in triggers:
            name = trigger.name()
            if name in self.triggers:
                self.triggers[name].append(trigger.actions)
            else:
                self.triggers[name] = trigger
''', '''        for trigger in triggers:
            known = self.triggers.get(trigger.name())
            if known is None:
                self.triggers[trigger.name()] = trigger
                continue
            for action in trigger.actions:
                known.append(action)
'''), (BASE, '''        for action in actions:
            self.actions.append(action)
''', '''        self.actions += actions
''')]),
    dict(id='r09', edits=[  # denorms: comprehension
        (DEN, '''    alldenorms = []
    for model in gmodels.get_models(include_auto_created=True):
        if not model._meta.proxy:
            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                if hasattr(field, 'denorm'):
                    if not field.denorm.model._meta.swapped:
                        alldenorms.append(field.denorm)
    return alldenorms
''', '''    models = [model for model in gmodels.get_models(include_auto_created=True) if not model._meta.proxy]
    denorms = []
    for model in models:
        for fields in (model._meta.fields, model._meta.many_to_many):
            denorms.extend(
                field.denorm for field in fields
                if hasattr(field, 'denorm') and not field.denorm.model._meta.swapped
            )
    return denorms
''')]),
    dict(id='r10', edits=[  # rebuild: sets, bulk marking
        (DEN, '''        for instance in model._base_manager.all():
                DirtyInstance.objects.create(
                    content_type=content_type,
                    object_id=instance.pk,
                )
''', '''        DirtyInstance.objects.bulk_create([
            DirtyInstance(content_type=content_type, object_id=pk)
            for pk in model._base_manager.values_list('pk', flat=True)
        ])
''')]),
    dict(id='r11', edits=[  # rebuild: another way to select
        (DEN, '''        if model_name is None or model_name in (current_app_label, current_model_name, current_app_model):
            if field_name is None or field_name == denorm.fieldname:
                models.setdefault(denorm.model, []).append(denorm)
''', '''        names = {current_app_label, current_model_name, current_app_model}
        if model_name is not None and model_name not in names:
            continue
        if field_name is not None and field_name != denorm.fieldname:
            continue
        if denorm.model not in models:
            models[denorm.model] = []
        models[denorm.model].append(denorm)
''')]),
    dict(id='r12', edits=[  # aggregates: one helper for both directions
        (DEN, '''        inc_query = TriggerFilterQuery(related_model, trigger_alias='NEW')
        inc_query.add_q(Q(**self.filter))
        inc_query.add_q(~Q(**self.exclude))
        qn = SQLCompiler(inc_query, cconnection, using)
        inc_filter_where, _ = inc_query.where.as_sql(qn, cconnection)

        dec_query = TriggerFilterQuery(related_model, trigger_alias='OLD')
        dec_query.add_q(Q(**self.filter))
        dec_query.add_q(~Q(**self.exclude))
        qn = SQLCompiler(dec_query, cconnection, using)
        dec_filter_where, where_params = dec_query.where.as_sql(qn, cconnection)

''', '''        def filter_where(alias):
            query = TriggerFilterQuery(related_model, trigger_alias=alias)
            query.add_q(Q(**self.filter))
            query.add_q(~Q(**self.exclude))
            compiler = SQLCompiler(query, cconnection, using)
            return query.where.as_sql(compiler, cconnection)

        inc_filter_where, _ = filter_where('NEW')
        dec_filter_where, where_params = filter_where('OLD')

''')]),
    dict(id='r13', edits=[  # aggregates: subtract before adding
        (DEN, '''            triggers.Trigger(related_model, "after", "update", [increment, decrement], content_type, using, self.skip),
''', '''            triggers.Trigger(related_model, "after", "update", [decrement, increment], content_type, using, self.skip),
'''), (DEN, '''        return "%s + 1" % qn(self.get_column())
''', '''        return "1 + " + qn(self.get_column())
''')]),
    dict(id='r14', edits=[  # saving an aggregate
        (FLD, '''            value = self.denorm.model._base_manager.using(using).filter(
                pk=model_instance.pk,
            ).values_list(
                self.attname, flat=True,
            ).first()
            if value is None:
                # the primary key was assigned, but nothing is stored yet
                value = 0
''', '''            rows = self.denorm.model._base_manager.using(using).filter(pk=model_instance.pk)
            values = list(rows.values_list(self.attname, flat=True)[:1])
            value = values[0] if values else 0
''')]),
    dict(id='r15', edits=[  # saving a denormalized field
        (FLD, '''            if hasattr(self, "remote_field") and self.remote_field:  # Django>=1.10
                related_field_model = self.remote_field.model
            elif hasattr(self, 'related_field'):  # Django>1.5
                related_field_model = self.related_field.model
            elif hasattr(self, "related"):
                try:
                    related_field_model = self.related.parent_model
                except AttributeError:
                    related_field_model = self.related.model
            else:
                related_field_model = None
''', '''            remote = getattr(self, "remote_field", None)
            related_field_model = remote.model if remote else None
''')]),
    dict(id='r16', edits=[  # cached values
        (FLD, '''        key = 'CachedField_%s' % value
        cached = self.field.cache.get(key)
        if cached is None:
            cached = self.field.func(obj)
            self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
        obj.__dict__[self.field.name] = cached
''', '''        cache = self.field.cache
        key = 'CachedField_{}'.format(value)
        content = cache.get(key, None)
        if content is None:
            content = self.field.func(obj)
            cache.set(key, content, timeout=2592000)
        vars(obj)[self.field.name] = content
''')]),
    dict(id='r17', edits=[  # helpers
        (HELP, '''    # get all ForeignKeys
    fkeys = [x for x in from_model._meta.fields if isinstance(x, models.ForeignKey)]

    # filter out all FKs not pointing to 'to_model'
    fkeys = [x for x in fkeys if points_to(x, to_model)]

    # if 'fk_name' was given, filter out all FKs not matching that name, leaving
    # only one (or none)
    if fk_name:
        fk_name = fk_name if isinstance(fk_name, six.string_types) else fk_name.attname
        fkeys = [x for x in fkeys if x.attname in (fk_name, fk_name + '_id')]

    return fkeys
''', '''    names = None
    if fk_name:
        if not isinstance(fk_name, six.string_types):
            fk_name = fk_name.attname
        names = {fk_name, fk_name + '_id'}

    found = []
    for field in from_model._meta.fields:
        if not isinstance(field, models.ForeignKey) or not points_to(field, to_model):
            continue
        if names is None or field.attname in names:
            found.append(field)
    return found
''')]),
    dict(id='r18', edits=[  # resolving: a table of finders
        (DEP, '''        candidates = [('forward', fk) for fk in find_fks(self.this_model, self.other_model, self.fk_name)]
        if self.other_model != self.this_model or self.type:
            candidates += [('backward', fk) for fk in find_fks(self.other_model, self.this_model, self.fk_name)]
        candidates += [('forward_m2m', fk) for fk in find_m2ms(self.this_model, self.other_model, self.fk_name)]
        if self.other_model != self.this_model or self.type:
            candidates += [('backward_m2m', fk) for fk in find_m2ms(self.other_model, self.this_model, self.fk_name)]
''', '''        here, there = self.this_model, self.other_model
        finders = [('forward', find_fks, here, there), ('forward_m2m', find_m2ms, here, there)]
        if there != here or self.type:
            finders += [('backward', find_fks, there, here), ('backward_m2m', find_m2ms, there, here)]
        candidates = []
        for kind, find, start, end in finders:
            for relation in find(start, end, self.fk_name):
                candidates.append((kind, relation))
''')]),
    dict(id='r19', edits=[  # middleware as a callable
        (MID, '''        try:
            flush()
        except DatabaseError as e:
            logger.error(e)
        return response
''', '''        try:
            flush()
        except DatabaseError:
            logger.exception('flushing the denormalized fields failed')
        finally:
            pass
        return response
''')]),
    dict(id='r20', edits=[  # daemon
        (DAEMON, '''        while True:
            try:
                denorms.flush()
                sleep(interval)
                transaction.commit()
            except KeyboardInterrupt:
                transaction.commit()
                sys.exit()
            if run_once:
                break
''', '''        running = True
        while running:
            try:
                denorms.flush()
                transaction.commit()
                sleep(interval)
            except KeyboardInterrupt:
                transaction.commit()
                raise SystemExit
            running = not run_once
'''), (DAEMON, '''        foreground = options['foreground']
        interval = options['interval']
        pidfile = options['pidfile']
        run_once = options['run_once']
''', '''        foreground, interval, pidfile, run_once = (
            options[name] for name in ('foreground', 'interval', 'pidfile', 'run_once'))
''')]),
    dict(id='r21', edits=[  # dropping
        (MYSQL, '''        for result in cursor.fetchall():
            if result[0].startswith('denorm_'):
                cursor.execute('DROP TRIGGER %s;' % qn(result[0]))
''', '''        names = [row[0] for row in cursor.fetchall()]
        for name in names:
            if name[:7] == 'denorm_':
                cursor.execute('DROP TRIGGER IF EXISTS %s' % qn(name))
'''), (SQLITE, '''        for trigger_name, table_name in cursor.fetchall():
            cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
''', '''        for row in cursor.fetchall():
            cursor.execute("DROP TRIGGER IF EXISTS " + qn(row[0]))
''')]),
    dict(id='r22', edits=[  # deconstruct
        (FLD, '''            name, path, args, kwargs = super(DenormDBField, self).deconstruct()
            super_name, super_path, super_args, super_kwargs = DBField(*args, **kwargs).deconstruct()
            return name, super_path, args, kwargs
''', '''            name, _, args, kwargs = DBField.deconstruct(self)
            path = DBField(*args, **kwargs).deconstruct()[1]
            return (name, path, args, kwargs)
'''), (FLD, '''        del kwargs['editable']
        args = [self.denorm.manager_name] + args
        return name, path, args, kwargs
''', '''        kwargs.pop('editable')
        args.insert(0, self.denorm.manager_name)
        return name, path, args, kwargs
''')]),
    dict(id='r23', edits=[  # keyword arguments and a class attribute
        (DEN, '''            triggers.Trigger(self.model, "after", "update", [action], content_type, using, self.skip),
            triggers.Trigger(self.model, "after", "insert", [action], content_type, using, self.skip),
        ]

        return trigger_list + super(CallbackDenorm, self).get_triggers(using=using)
''', '''            triggers.Trigger(self.model, time="after", event=event, actions=[action], content_type=content_type, using=using, skip=self.skip)
            for event in self.events
        ]
        trigger_list.extend(super(CallbackDenorm, self).get_triggers(using=using))
        return trigger_list
'''), (DEN, '''    As above, but with extra triggers on self as described below
    """

    def get_triggers(self, using):
        qn = self.get_quote_name(using)

        content_type = str(contenttypes.models.ContentType.objects.get_for_model(self.model).pk)

        # Create a trigger''', '''    As above, but with extra triggers on self as described below
    """
    events = ("update", "insert")

    def get_triggers(self, using):
        qn = self.get_quote_name(using)

        content_type = str(contenttypes.models.ContentType.objects.get_for_model(self.model).pk)

        # Create a trigger''')]),
    dict(id='r24', edits=[  # marking: no double markers on sqlite and postgres
        (SQLITE, '''        return 'INSERT OR REPLACE INTO %(table)s %(columns)s %(values)s' % locals(), tuple(params)
''', '''        return 'INSERT INTO %s %s %s' % (table, columns, values), tuple(params)
'''), (PG, '''        sql = (
            'BEGIN\\n'
            '    INSERT INTO %(table)s %(columns)s %(values)s;\\n'
            'EXCEPTION WHEN unique_violation THEN\\n'
            '    -- do nothing\\n'
            'END'
        ) % locals()
        return sql, params
''', '''        return 'INSERT INTO %s %s %s ON CONFLICT DO NOTHING' % (table, columns, values), params
''')]),
    dict(id='r25', edits=[  # m2m handlers
        (DEN, '''    if created:
        def check_resave():
            for m2m in sender._meta.many_to_many:
                if hasattr(m2m, 'denorm'):
                    return True
            return False

        if check_resave():
            instance.save()
''', '''    if not created:
        return
    if any(hasattr(m2m, 'denorm') for m2m in sender._meta.many_to_many):
        instance.save()
''')]),
    dict(id='r26', edits=[  # cache keys: shared where
        (DEP, '''            action_new = triggers.TriggerActionUpdate(
                model=self.this_model,
                columns=(self.fieldname,),
                values=(triggers.RandomBigInt(),),
                where="%s = NEW.%s" % (
                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(self.field.get_attname_column()[1]),
                ),
            )
            action_old = triggers.TriggerActionUpdate(
                model=self.this_model,
                columns=(self.fieldname,),
                values=(triggers.RandomBigInt(),),
                where="%s = OLD.%s" % (
                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(self.field.get_attname_column()[1]),
                ),
            )
''', '''            action_new, action_old = [
                triggers.TriggerActionUpdate(
                    model=self.this_model,
                    columns=(self.fieldname,),
                    values=(triggers.RandomBigInt(),),
                    where="%s.%s = %s" % (row, qn(self.field.column), qn(self.this_model._meta.pk.column)),
                ) for row in ("NEW", "OLD")
            ]
''')]),
]
