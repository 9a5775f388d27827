"""More changes that keep the behaviour, with other means of the language."""
from refac1 import DEN, DEP, FLD, BASE, SQLITE, PG, MYSQL, HELP, MID, DAEMON, BG

REFAC = [
    dict(id='r27', edits=[  # flush: a generator of passes
        (DEN, '''    # Loop until break.
    # We may need multiple passes, because an update on one instance
    # may cause an other instance to be marked dirty (dependency chains)
    while True:
        # Get all dirty markers
        from .models import DirtyInstance
        qs = DirtyInstance.objects.all()

        try:  # If possible, dont flush the same object twice
            qs_unified = qs.distinct('content_type', 'object_id')
            '%s' % qs_unified   # Triggers SQL evaluation: NotImplementedError if not supported
            qs = qs_unified
        except NotImplementedError:  # SQLite does not suport DISTINCT ON
            pass

        # DirtyInstance table is empty -> all data is consistent -> we're done
        if not qs:
            break

        # Call save() on all dirty instances, causing the self_save_handler()
        # getting called by the pre_save signal.
        if verbose:
            size = qs.count()
            i = 0
        for dirty_instance in qs.iterator():
            if verbose:
                i += 1
                print("flushing %s of %s all dirty instances" % (i, size))
            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''', '''    from .models import DirtyInstance
    for qs in dirty_passes():
        # Call save() on all dirty instances, causing the self_save_handler()
        # getting called by the pre_save signal.
        size = qs.count() if verbose else 0
        for i, dirty_instance in enumerate(qs.iterator(), 1):
            if verbose:
                print("flushing {} of {} all dirty instances".format(i, size))
            instance = dirty_instance.content_object
            if instance is not None:
                instance.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
'''), (DEN, '''def flush(verbose=False):
''', '''def dirty_passes():
    """
    Yields the dirty markers as long as there are any.
    We may need multiple passes, because an update on one instance
    may cause an other instance to be marked dirty (dependency chains)
    """
    from .models import DirtyInstance
    while True:
        qs = DirtyInstance.objects.all()
        try:  # If possible, dont flush the same object twice
            qs_unified = qs.distinct('content_type', 'object_id')
            str(qs_unified)   # Triggers SQL evaluation: NotImplementedError if not supported
            qs = qs_unified
        except NotImplementedError:  # SQLite does not suport DISTINCT ON
            pass
        if not qs:
            # DirtyInstance table is empty -> all data is consistent -> we're done
            return
        yield qs


def flush(verbose=False):
''')]),
    dict(id='r28', edits=[  # collecting denorms: generator and chain
        (DEN, '''    alldenorms = []
    for model in gmodels.get_models(include_auto_created=True):
        if not model._meta.proxy:
            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                if hasattr(field, 'denorm'):
                    if not field.denorm.model._meta.swapped:
                        alldenorms.append(field.denorm)
    return alldenorms
''', '''    return list(iter_denorms())


def iter_denorms():
    for model in gmodels.get_models(include_auto_created=True):
        if model._meta.proxy:
            continue
        for field in chain(model._meta.fields, model._meta.many_to_many):
            denorm = getattr(field, 'denorm', None)
            if denorm is not None and not denorm.model._meta.swapped:
                yield denorm
'''), (DEN, '''import abc
''', '''import abc
from itertools import chain
''')]),
    dict(id='r29', edits=[  # saving: early returns and a helper method
        (FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field") and self.remote_field:  # Django>=1.10
                related_field_model = self.remote_field.model
            elif hasattr(self, 'related_field'):  # Django>1.5
                related_field_model = self.related_field.model
            elif hasattr(self, "related"):
                try:
                    related_field_model = self.related.parent_model
                except AttributeError:
                    related_field_model = self.related.model
            else:
                related_field_model = None

            if related_field_model and isinstance(value, related_field_model):
                setattr(model_instance, self.attname, None)
                setattr(model_instance, self.name, value)
                return getattr(model_instance, self.attname)
            else:
                if related_field_model:
                    # the object loaded for the previous value is not the one referred to any more
                    loaded = getattr(model_instance._state, 'fields_cache', model_instance.__dict__)  # Django>=2.0
                    loaded.pop(self.get_cache_name(), None)
                setattr(model_instance, self.attname, value)
                return value
''', '''            value = self.denorm.func(model_instance)
            target = self.get_related_model()

            if not target:
                setattr(model_instance, self.attname, value)
                return value

            if isinstance(value, target):
                setattr(model_instance, self.attname, None)
                setattr(model_instance, self.name, value)
                return getattr(model_instance, self.attname)

            # the object loaded for the previous value is not the one referred to any more
            loaded = getattr(model_instance._state, 'fields_cache', model_instance.__dict__)  # Django>=2.0
            if self.get_cache_name() in loaded:
                del loaded[self.get_cache_name()]
            setattr(model_instance, self.attname, value)
            return value

        def get_related_model(self):
            remote = getattr(self, 'remote_field', None)
            return remote.model if remote else None
''')]),
    dict(id='r30', edits=[  # tracked columns: one helper, a set
        (BASE, '''            skip = tuple(skip or ()) + tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
''', '''            self.fields = self.tracked_columns(remote_field_model(subject), skip)
'''), (BASE, '''            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
''', '''            self.fields = self.tracked_columns(self.model, skip)
'''), (BASE, '''            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
            self.fields = []
            try:
                from django.db.models.fields.related import ForeignObjectRel
            except:
                from django.db.models.related import RelatedObject as ForeignObjectRel
            for k, v in get_fields_with_model(subject, self.model._meta):
                if isinstance(k, ForeignObjectRel):
                    pass
                else:
                    if not v and k.attname not in skip:
                        self.fields.append((k.column, k.db_type(connection=self.connection)))
''', '''            self.fields = self.tracked_columns(self.model, skip)
'''), (BASE, '''    def append(self, actions):
        if not isinstance(actions, list):
            actions = [actions]

        for action in actions:
            self.actions.append(action)
''', '''    def tracked_columns(self, model, skip):
        """
        Columns (and their types) whose change counts.
        """
        skipped = set(skip or ())
        skipped.update(getattr(model, 'denorm_always_skip', ()))
        columns = []
        for field, parent in get_fields_with_model(model, model._meta):
            if parent or field.attname in skipped:
                continue
            columns.append((field.column, field.db_type(connection=self.connection)))
        return columns

    def append(self, actions):
        self.actions.extend(actions if isinstance(actions, list) else [actions])
''')]),
    dict(id='r31', edits=[  # trigger text: the actions are collected in the base class
        (BASE, '''    def sql(self):
        raise NotImplementedError


class TriggerSet(object):
''', '''    def unique_actions(self):
        """
        Statements of all actions, each one once, and their parameters.
        """
        lines, params, seen = [], [], []
        for action in self.actions:
            sql, action_params = action.sql()
            if not sql:
                continue
            statement = (sql if sql.endswith(';') else sql + ';', tuple(action_params))
            if statement in seen:
                continue
            seen.append(statement)
            lines += statement[0].split('\\n')
            params += statement[1]
        return lines, params

    def sql(self):
        raise NotImplementedError


class TriggerSet(object):
''')] + [(f, '''        params = []
        action_list = []
        actions_added = set()
        for a in self.actions:
            sql, action_params = a.sql()
            if sql:
                if not sql.endswith(';'):
                    sql += ';'
                action_params = tuple(action_params)
                if (sql, action_params) not in actions_added:
                    actions_added.add((sql, action_params))
                    action_list.extend(sql.split('\\n'))
                    params.extend(action_params)
''', '''        action_list, params = self.unique_actions()
''') for f in (SQLITE, PG, MYSQL)]),
    dict(id='r32', edits=[  # denorms with dependencies share a mixin
        (DEN, '''class BaseCallbackDenorm(Denorm):
    """
    Handles the denormalization of one field, using a python function
    as a callback.
    """

    def setup(self, **kwargs):
        """
        Calls setup() on all DenormDependency resolvers
        """
        super(BaseCallbackDenorm, self).setup(**kwargs)

        for dependency in self.depend:
            dependency.setup(self.model)

    def get_triggers(self, using):
        """
        Creates a list of all triggers needed to keep track of changes
        to fields this denorm depends on.
        """
        trigger_list = list()

        # Get the triggers of all DenormDependency instances attached
        # to our callback.
        for dependency in self.depend:
            trigger_list += dependency.get_triggers(using=using)

        return trigger_list + super(BaseCallbackDenorm, self).get_triggers(using=using)
''', '''class DependentMixin(object):
    def setup(self, **kwargs):
        """
        Calls setup() on all DenormDependency resolvers
        """
        super(DependentMixin, self).setup(**kwargs)

        for dependency in self.depend:
            dependency.setup(self.model)

    def get_triggers(self, using):
        """
        Creates a list of all triggers needed to keep track of changes
        to fields this denorm depends on.
        """
        # Get the triggers of all DenormDependency instances attached
        # to our callback.
        own = [trigger for dependency in self.depend for trigger in dependency.get_triggers(using=using)]
        return own + super(DependentMixin, self).get_triggers(using=using)


class BaseCallbackDenorm(DependentMixin, Denorm):
    """
    Handles the denormalization of one field, using a python function
    as a callback.
    """
'''), (DEN, '''class BaseCacheKeyDenorm(Denorm):
''', '''class BaseCacheKeyDenorm(DependentMixin, Denorm):
'''), (DEN, '''        self.func = lambda o: random.randint(-9223372036854775808, 9223372036854775807)

    def setup(self, **kwargs):
        """
        Calls setup() on all DenormDependency resolvers
        """
        super(BaseCacheKeyDenorm, self).setup(**kwargs)

        for dependency in self.depend:
            dependency.setup(self.model)

    def get_triggers(self, using):
        """
        Creates a list of all triggers needed to keep track of changes
        to fields this denorm depends on.
        """
        trigger_list = list()

        # Get the triggers of all DenormDependency instances attached
        # to our callback.
        for dependency in self.depend:
            trigger_list += dependency.get_triggers(using=using)

        return trigger_list + super(BaseCacheKeyDenorm, self).get_triggers(using=using)
''', '''        self.func = lambda o: random.randrange(-2 ** 63, 2 ** 63)
''')]),
    dict(id='r33', edits=[  # values of aggregates by one method
        (DEN, '''        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
''', '''        return self.change_by('+', 'NEW', qn)
'''), (DEN, '''        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
''', '''        return self.change_by('-', 'OLD', qn)

    def change_by(self, sign, row, qn):
        value = 'COALESCE({row}.{column}, 0)'.format(row=row, column=qn(self.get_sum_column()))
        return ' '.join((qn(self.get_column()), sign, value))
'''), (DEN, '''        return "%s + 1" % qn(self.get_column())
''', '''        return "1 + {0}".format(qn(self.get_column()))
''')]),
    dict(id='r34', edits=[  # many-to-many handlers share a generator
        (DEN, '''        def check_resave():
            for m2m in sender._meta.many_to_many:
                if hasattr(m2m, 'denorm'):
                    return True
            return False

        if check_resave():
            instance.save()
''', '''        if any(True for m2m in denormalized_relations(sender)):
            instance.save()
'''), (DEN, '''        for m2m in sender._meta.many_to_many:
            # This gets us all m2m fields, so limit it to just those that are denormed
            if hasattr(m2m, 'denorm'):
                if instance._state.adding:
''', '''        for m2m in denormalized_relations(sender):
            if m2m is not None:
                if instance._state.adding:
'''), (DEN, '''def many_to_many_pre_save(sender''', '''def denormalized_relations(model):
    return (m2m for m2m in model._meta.many_to_many if hasattr(m2m, 'denorm'))


def many_to_many_pre_save(sender''')]),
    dict(id='r35', edits=[  # the middleware: suppress, one class
        (MID, '''        try:
            flush()
        except DatabaseError as e:
            logger.error(e)
        return response
''', '''        with contextlib.ExitStack() as stack:
            stack.callback(lambda: None)
            try:
                flush()
            except DatabaseError:
                logger.exception('flushing failed')
        return response
'''), (MID, '''import logging
''', '''import contextlib
import logging
''')]),
    dict(id='r36', edits=[  # the middleware: finally-free else branch
        (MID, '''        try:
            flush()
        except DatabaseError as e:
            logger.error(e)
        return response
''', '''        failure = None
        try:
            flush()
        except DatabaseError as e:
            failure = e
        else:
            logger.debug('flushed')
        if failure is not None:
            logger.error(failure)
        return response
''')]),
    dict(id='r37', edits=[  # the daemon: read the pid file with a context manager, errors by class
        (DAEMON, '''        try:
            pid = int(open(pidfile, 'r').read())
            os.kill(pid, 0)
            self.stderr.write(self.style.ERROR("daemon already running as pid: %s\\n" % (pid,)))
            return True
        except OSError as err:
            return err.errno == os.errno.EPERM
        except IOError as err:
            if err.errno == 2:
                return False
            else:
                raise
''', '''        try:
            with open(pidfile) as f:
                pid = int(f.read().strip())
            os.kill(pid, 0)
        except PermissionError:
            return True
        except OSError:
            return False
        self.stderr.write(self.style.ERROR("daemon already running as pid: {}\\n".format(pid)))
        return True
''')]),
    dict(id='r38', edits=[  # cache keys: f-strings and an inner function
        (DEP, '''            action_new = triggers.TriggerActionUpdate(
                model=self.this_model,
                columns=(self.fieldname,),
                values=(triggers.RandomBigInt(),),
                where="%s = NEW.%s" % (
                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(self.field.get_attname_column()[1]),
                ),
            )
            action_old = triggers.TriggerActionUpdate(
                model=self.this_model,
                columns=(self.fieldname,),
                values=(triggers.RandomBigInt(),),
                where="%s = OLD.%s" % (
                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(self.field.get_attname_column()[1]),
                ),
            )
''', '''            def renew(row):
                pk = qn(self.this_model._meta.pk.column)
                return triggers.TriggerActionUpdate(
                    model=self.this_model,
                    columns=[self.fieldname],
                    values=[triggers.RandomBigInt()],
                    where=f"{row}.{qn(self.field.column)} = {pk}",
                )
            action_new, action_old = map(renew, ('NEW', 'OLD'))
''')]),
    dict(id='r39', edits=[  # markers: a comprehension over the events
        (DEP, '''                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
            ]

        if self.type == "backward":
            # With backward relations a change in ``other_model`` can affect
            # only one or two instances of ``this_model``.
            # If the ``other_model`` instance changes the value its ForeignKey
            # pointing to ``this_model`` both the old and the new related instance
            # are affected, otherwise only the one it is pointing to is affected.
            action_new = triggers.TriggerActionInsert(
''', '''                triggers.Trigger(self.other_model, "after", event, [action], content_type, using, self.skip)
                for event, action in zip(("update", "insert", "delete"), (action_new, action_new, action_old))
            ]

        if self.type == "backward":
            # With backward relations a change in ``other_model`` can affect
            # only one or two instances of ``this_model``.
            # If the ``other_model`` instance changes the value its ForeignKey
            # pointing to ``this_model`` both the old and the new related instance
            # are affected, otherwise only the one it is pointing to is affected.
            action_new = triggers.TriggerActionInsert(
''')]),
    dict(id='r40', edits=[  # mysql: dropping with a list, conditions by a comprehension
        (MYSQL, '''        for result in cursor.fetchall():
            if result[0].startswith('denorm_'):
                cursor.execute('DROP TRIGGER %s;' % qn(result[0]))
''', '''        names = [row[0] for row in cursor.fetchall()]
        for name in filter(lambda n: n.startswith('denorm_'), names):
            cursor.execute('DROP TRIGGER IF EXISTS {};'.format(qn(name)))
'''), (MYSQL, '''            for field, native_type in self.fields:
                field = qn(field)
                # TODO: find out if we need to compare some fields as text like in postgres
                # the collation of a text column may hold different values for equal
                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s AND BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
''', '''            # the collation of a text column may hold different values for equal
            template = "(NOT (OLD.{0} <=> NEW.{0}) OR NOT (BINARY OLD.{0} <=> BINARY NEW.{0}))"
            conditions.extend(template.format(qn(column)) for column, _ in self.fields)
''')]),
    dict(id='r41', edits=[  # cached attributes: a sentinel and get_or_set-like code
        (FLD, '''        key = 'CachedField_%s' % value
        cached = self.field.cache.get(key)
        if cached is None:
            cached = self.field.func(obj)
            self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
        obj.__dict__[self.field.name] = cached
''', '''        vars(obj)[self.field.name] = self.lookup(obj, f'CachedField_{value}')

    def lookup(self, obj, key):
        cached = self.field.cache.get(key)
        if cached is not None:
            return cached
        computed = self.field.func(obj)
        self.field.cache.set(key, computed, 30 * 24 * 3600)
        return computed
''')]),
    dict(id='r42', edits=[  # resolving: loops with continue, names in a set
        (DEP, '''        candidates = [x for x in candidates if not self.type or self.type == x[0]]

        if len(candidates) > 1:
            raise ValueError("%s has more''', '''        if self.type:
            candidates = list(filter(lambda candidate: candidate[0] == self.type, candidates))

        if len(candidates) >= 2:
            raise ValueError("%s has more'''), (DEP, '''        self.type, self.field = candidates[0]
''', '''        (self.type, self.field), = candidates
'''), (HELP, '''        fkeys = [x for x in fkeys if x.attname in (fk_name, fk_name + '_id')]
''', '''        names = {fk_name, '%s_id' % fk_name}
        fkeys = [x for x in fkeys if x.attname in names]
''')]),
    dict(id='r43', edits=[  # aggregates: saving by another query
        (FLD, '''            value = self.denorm.model._base_manager.using(using).filter(
                pk=model_instance.pk,
            ).values_list(
                self.attname, flat=True,
            ).first()
            if value is None:
                # the primary key was assigned, but nothing is stored yet
                value = 0
''', '''            stored = self.denorm.model._base_manager.using(using).filter(pk=model_instance.pk)
            values = list(stored.values_list(self.attname, flat=True)[:1])
            # the primary key may have been assigned, and nothing is stored yet
            value = values[0] if values else 0
''')]),
    dict(id='r44', edits=[  # rebuild: sets of names, bulk marking
        (DEN, '''        current_app_label = denorm.model._meta.app_label
        current_model_name = denorm.model._meta.model.__name__
        current_app_model = '%s.%s' % (current_app_label, current_model_name)
        if model_name is None or model_name in (current_app_label, current_model_name, current_app_model):
            if field_name is None or field_name == denorm.fieldname:
                models.setdefault(denorm.model, []).append(denorm)
''', '''        app_label, name = denorm.model._meta.app_label, denorm.model.__name__
        names = {app_label, name, f'{app_label}.{name}'}
        if model_name is not None and model_name not in names:
            continue
        if field_name in (None, denorm.fieldname):
            models.setdefault(denorm.model, []).append(denorm)
'''), (DEN, '''        for instance in model._base_manager.all():
                DirtyInstance.objects.create(
                    content_type=content_type,
                    object_id=instance.pk,
                )
''', '''        DirtyInstance.objects.bulk_create(
            DirtyInstance(content_type=content_type, object_id=pk)
            for pk in model._base_manager.values_list('pk', flat=True)
        )
''')]),
]
