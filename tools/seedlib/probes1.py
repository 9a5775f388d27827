"""Changes that break a property; only the checks of that property are run with them."""
from refac1 import DEN, DEP, FLD, BASE, SQLITE, PG, MYSQL, HELP, MID, DAEMON, BG

REFAC = [
    dict(id='p05', only=['C04'], edits=[(DEN, '''    while True:
        # Get all dirty markers
''', '''    done = set()
    while True:
        # Get all dirty markers
'''), (DEN, '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()
''', '''            key = (dirty_instance.content_type_id, dirty_instance.object_id)
            if dirty_instance.content_object is not None and key not in done:
                dirty_instance.content_object.save()
                done.add(key)
''')]),
    dict(id='p09', only=['C06'], edits=[(DEN, '''                models.setdefault(denorm.model, []).append(denorm)
''', '''                models.setdefault(current_model_name, []).append(denorm)
'''), (DEN, '''    for model, denorms in models.items():
        if verbose:
''', '''    for name, denorms in models.items():
        model = denorms[0].model
        if verbose:
''')]),
    dict(id='p10', only=['C07', 'C12'], edits=[(PG, '''                    params.extend(action_params)
''', '''                    params = list(action_params)
''')]),
    dict(id='p13', only=['C10'], edits=[(PG, '''((RANDOM()-0.5)*2.0) )''', '''RANDOM() )''')]),
    dict(id='p21', only=['C15'], edits=[(FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''', '''            if not add and not self.denorm.depend and model_instance._state.fields_cache:
                return getattr(model_instance, self.attname)
            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''')]),
    dict(id='p33', only=['C01', 'C02', 'C07', 'C10'], edits=[(BASE, '''                or f.one_to_one
''', '')]),
    dict(id='p39', only=['C06'], edits=[(DEN, '''    for denorm in alldenorms:
        current_app_label''', '''    for denorm in alldenorms:
        if isinstance(denorm, AggregateDenorm):
            # kept up to date by its triggers
            continue
        current_app_label''')]),
    dict(id='p43', only=['C13', 'C12'], edits=[(SQLITE, '''            sql, args = trigger.sql()
            cursor.execute(sql, args)
''', '''            sql, args = trigger.sql()
            try:
                cursor.execute(sql, args)
            except Exception as e:
                logger.error('%s: %s', name, e)
''')]),
    dict(id='p48', only=['C12', 'C13'], edits=[(MYSQL, '''            name = name[:45] + ''.join(
                random.choice(string.ascii_uppercase + string.digits)
                for x in range(5)
            )
''', '''            name = name[:50]
''')]),
    dict(id='p49', only=['C01', 'C02'], edits=[(PG, '''                    conditions.append("(OLD.%(f)s::%(t)s IS DISTINCT FROM NEW.%(f)s::%(t)s)" % {'f': field, 't': 'text'})
''', '''                    continue
''')]),
    dict(id='p60', only=['C04'], edits=[(DEN, '''    while True:
        # Get all dirty markers
''', '''    last = None
    while True:
        # Get all dirty markers
'''), (DEN, '''        if not qs:
            break

''', '''        if not qs or qs.count() == last:
            # (or no progress is made)
            break
        last = qs.count()

''')]),
    dict(id='p63', only=['C14'], edits=[(HELP, '''    return repr(to_model).lower() == repr(model).lower()
''', '''    return to_model.__name__ == model.__name__
''')]),
    dict(id='p65', only=['C16'], edits=[(DEN, '''    if created:
        def check''', '''    if created and not sender._meta.proxy:
        def check''')]),
    dict(id='p66', only=['C18'], edits=[(DAEMON, '''            except KeyboardInterrupt:
                transaction.commit()
                sys.exit()
''', '''            except KeyboardInterrupt:
                sys.exit()
''')]),
    dict(id='p70', only=['C18'], edits=[(DAEMON, '''                sleep(interval)
''', '''                sleep(min(interval, 3600))
''')]),
    dict(id='p71', only=['C03'], edits=[(BASE, '''            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model''', '''            skip = tuple(skip or ())
            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model''')]),
    dict(id='p72', only=['C08', 'C07'], edits=[(DEN, '''        if inc_filter_where:
            inc_where.append(inc_filter_where)
        if dec_filter_where:
            dec_where.append(dec_filter_where)
''', '''        if self.filter:
            inc_where.append(inc_filter_where)
            dec_where.append(dec_filter_where)
''')]),
    dict(id='p73', only=['C11'], edits=[(FLD, '''        key = 'CachedField_%s' % value
''', '''        key = 'CachedField_%s' % (value or obj.pk)
''')]),
    dict(id='p74', only=['C19'], edits=[(FLD, '''            name, path, args, kwargs = self.deconstruct()
            return self.__class__(None, *args, **kwargs)
''', '''            name, path, args, kwargs = self.deconstruct()
            kwargs.pop('db_column', None)
            return self.__class__(None, *args, **kwargs)
''')]),
    dict(id='p75', only=['C13'], edits=[(PG, '''LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE ''', '''LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_class.relnamespace = 2200 AND pg_trigger.tgenabled = 'O' AND ''')]),
    dict(id='p76', only=['C17'], edits=[(MID, '''            flush()
        except''', '''            if not getattr(response, 'streaming', False):
                flush()
        except''')]),
    dict(id='p77', only=['C16'], edits=[(DEN, '''                    values = m2m.denorm.func(instance)
                    try:
''', '''                    values = [v for v in m2m.denorm.func(instance) if v.pk != instance.pk]
                    try:
''')]),
    dict(id='p78', only=['C15'], edits=[(FLD, '''                setattr(model_instance, self.attname, None)
                setattr(model_instance, self.name, value)
                return getattr(model_instance, self.attname)
''', '''                setattr(model_instance, self.name, value)
                return value.pk or None
''')]),
    dict(id='p79', only=['C09'], edits=[(FLD, '''        if add:
            # if this is a new''', '''        if add or model_instance._state.adding:
            # if this is a new''')]),
    dict(id='p80', only=['C10'], edits=[(DEP, '''                triggers.Trigger(self.field, "after", "delete", [action_m2m_old], content_type, using, self.skip),
            ]

            if isinstance(self.field, models.ManyToManyField):
                # Additionally to the dependency on the intermediate table
                # ``this_model`` is dependant on updates to the ``other_model``-
                # There is no need to track insert or delete events here,
                # because a relation can only be created or deleted by
                # by modifying the intermediate table.
                #
                # Generic relations are excluded because they have the
                # same m2m_table and model table.
                sql, params''', '''                triggers.Trigger(self.field, "after", "delete", [action_m2m_old], content_type, using, self.skip),
            ]

            if isinstance(self.field, models.ManyToManyField) and self.other_model is not self.this_model:
                # Additionally to the dependency on the intermediate table
                # ``this_model`` is dependant on updates to the ``other_model``-
                # There is no need to track insert or delete events here,
                # because a relation can only be created or deleted by
                # by modifying the intermediate table.
                #
                # Generic relations are excluded because they have the
                # same m2m_table and model table.
                sql, params''')]),
]
