"""Refactorings that move code about: new modules, mixins, logging, annotations (the behaviour is kept)."""
DEN, FLD, BASE, PG, MYSQL, SQLITE, DAEMON, HELP, DEP = ('denorm/denorms.py', 'denorm/fields.py', 'denorm/db/base.py', 'denorm/db/postgresql/triggers.py',
    'denorm/db/mysql/triggers.py', 'denorm/db/sqlite3/triggers.py', 'denorm/management/commands/denorm_daemon.py', 'denorm/helpers.py',
    'denorm/dependencies.py')

SRC = {}


def source(path):
    if path not in SRC:
        SRC[path] = open('/repo/' + path).read()
    return SRC[path]


def tail(path, start):
    s = source(path)
    return s[s.index(start):]


def between(path, start, end):
    s = source(path)
    a = s.index(start)
    return s[a:s.index(end, a)]


FLUSH = tail(DEN, 'def flush(verbose=False):')
SAVE = '''            if dirty_instance.content_object is not None:
                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
'''
FIELD = between(FLD, '    class DenormDBField(DBField):', '    def deco(func):')
LOOP = tail(DAEMON, '        while True:\n')

REFAC = [
    dict(id='r45', only=['C04', 'C05', 'C06', 'C16', 'C17', 'C18', 'C20'], edits=[  # flush in a module of its own
        (DEN, FLUSH, 'from .flushing import flush  # noqa\n'),
        ('denorm/flushing.py', None, '# -*- coding: utf-8 -*-\n"""Recomputing what is marked dirty."""\n\n\n' + FLUSH)]),
    dict(id='r46', only=['C04', 'C05', 'C16', 'C20'], edits=[  # flush: saving and clearing in one transaction
        (DEN, SAVE, '''            with transaction.atomic():
                if dirty_instance.content_object is not None:
                    dirty_instance.content_object.save()

                DirtyInstance.objects.filter(
                    content_type_id=dirty_instance.content_type_id,
                    object_id=dirty_instance.object_id
                ).delete()
'''), (DEN, '''        # Get all dirty markers
''', '''        # Get all dirty markers
        from django.db import transaction
''')]),
    dict(id='r47', only=['C01', 'C02', 'C12', 'C15', 'C16', 'C19'], edits=[  # the field methods in a mixin
        (FLD, FIELD, '''    class DenormDBField(DenormFieldMixin, DBField):

        """
        Special subclass of the given DBField type, with a few extra additions.
        """
        db_field = DBField

'''), (FLD, 'def denormalized(DBField, *args, **kwargs):\n', 'class DenormFieldMixin(object):\n\n' + FIELD[FIELD.index('        def __init__'):].replace('\n    ', '\n')[4:]
            .replace('super(DenormDBField, self)', 'super(DenormFieldMixin, self)')
            .replace('DBField.__init__(self, *args, **kwargs)', 'super(DenormFieldMixin, self).__init__(*args, **kwargs)')
            .replace('DBField.contribute_to_class(self, cls, name, *args, **kwargs)', 'super(DenormFieldMixin, self).contribute_to_class(cls, name, *args, **kwargs)')
            .replace('DBField.__module__ + "." + DBField.__name__', 'self.db_field.__module__ + "." + self.db_field.__name__')
            .replace('= DBField(*args', '= self.db_field(*args') + '\ndef denormalized(DBField, *args, **kwargs):\n')]),
    dict(id='r48', only=['C18'], edits=[  # daemon: the loop in a method, the pid file read by a function
        (DAEMON, LOOP, '''        self.run(interval, run_once)

    def run(self, interval, run_once):
        done = False
        while not done:
            self.cycle(interval)
            done = run_once

    def cycle(self, interval):
        try:
            denorms.flush()
            sleep(interval)
        except KeyboardInterrupt:
            transaction.commit()
            sys.exit()
        try:
            transaction.commit()
        except KeyboardInterrupt:
            transaction.commit()
            sys.exit()
'''), (DAEMON, '''            pid = int(open(pidfile, 'r').read())
''', '''            pid = read_pid(pidfile)
'''), (DAEMON, '''class Command(BaseCommand):
''', '''def read_pid(path):
    with open(path, 'r') as f:
        return int(f.read())


class Command(BaseCommand):
''')]),
    dict(id='r49', only=['C06'], edits=[  # rebuild: iterator, save of a new object
        (DEN, '''        for instance in model._base_manager.all():
                DirtyInstance.objects.create(
                    content_type=content_type,
                    object_id=instance.pk,
                )
''', '''        for pk in model._base_manager.values_list('pk', flat=True):
            DirtyInstance.objects.create(content_type=content_type, object_id=pk)
''')]),
    dict(id='r50', only=['C04', 'C05', 'C12', 'C13', 'C20'], edits=[  # logging
        (DEN, '''def drop_triggers(using=None):
''', '''import logging
logger = logging.getLogger(__name__)


def drop_triggers(using=None):
'''), (DEN, SAVE, '''            logger.debug('flushing %s', dirty_instance.object_id)
''' + SAVE + '''            logger.debug('flushed %s of %s', dirty_instance.object_id, dirty_instance.content_type_id)
'''), (DEN, '''        triggerset.append(denorm.get_triggers(using=using))
    return triggerset
''', '''        logger.info('collecting the triggers of %s', denorm.fieldname)
        triggerset.append(denorm.get_triggers(using=using))
    logger.info('collected')
    return triggerset
'''), (DEN, '''    build_triggerset(using=using).install()
''', '''    triggerset = build_triggerset(using=using)
    logger.info('installing %d triggers', len(triggerset.triggers))
    triggerset.install()
''')]),
    dict(id='r51', only=['C01', 'C04', 'C12', 'C13'], edits=[  # annotations, a repr and a property
        (BASE, '''    def append(self, actions):
        if not isinstance(actions, list):
''', '''    def __repr__(self) -> str:
        return '<%s %s>' % (self.__class__.__name__, self.name())

    @property
    def described(self) -> str:
        return '%s %s on %s' % (self.time, self.event, self.db_table)

    def append(self, actions) -> None:
        if not isinstance(actions, list):
'''), (DEN, 'def flush(verbose=False):\n', 'def flush(verbose: bool = False) -> None:\n'),
        (DEN, 'def build_triggerset(using=None):\n', '''def build_triggerset(using: Optional[str] = None):
'''), (DEN, 'def drop_triggers(using=None):\n', '''from typing import Optional


def drop_triggers(using: Optional[str] = None) -> None:
''')]),
    dict(id='r52', only=['C01', 'C02', 'C03', 'C10', 'C12'], edits=[  # trigger conditions in methods of their own
        (PG, '''        conditions = []

        if event == "UPDATE":
''', '''        conditions = self.column_conditions(qn) if event == "UPDATE" else []

        if False:
'''), (PG, '''    def sql(self):
        qn = self.connection.ops.quote_name

        name = truncate''', '''    def column_conditions(self, qn):
        tests = []
        for column, native_type in self.fields:
            cast = '::text' if native_type is None else ''
            old, new = ('%s.%s%s' % (row, qn(column), cast) for row in ('OLD', 'NEW'))
            tests.append('(%s IS DISTINCT FROM %s)' % (old, new))
        return ['(' + ' OR '.join(tests) + ')']

    def sql(self):
        qn = self.connection.ops.quote_name

        name = truncate''')]),
    dict(id='r53', edits=[], rename={  # functions and methods
        'build_triggerset': 'collect_triggers', 'many_to_many_pre_save': 'compute_many_to_many', 'many_to_many_post_save': 'store_many_to_many',
        'find_fks': 'foreign_keys_between', 'find_m2ms': 'links_between', 'remote_field_model': 'target_of', 'points_to': 'refers_to',
        'make_depend_decorator': 'dependency_decorator', 'commit_manually': 'one_transaction', 'drop_atomic': 'do_drop',
        'install_atomic': 'do_install', 'resolved_model': 'when_resolved', 'get_column': 'column_name', 'get_quote_name': 'quoting',
        'pid_exists': 'already_running', 'get_increment_value': 'increased', 'get_decrement_value': 'decreased'}),
    dict(id='r54', edits=[], rename={  # classes
        'CallbackDependOnRelated': 'RelatedRows', 'CacheKeyDependOnRelated': 'KeyOfRelatedRows', 'DependOnRelated': 'Related',
        'BaseCallbackDenorm': 'PlainCallback', 'CallbackDenorm': 'TrackedCallback', 'AggregateDenorm': 'Aggregate', 'SumDenorm': 'Total',
        'CountDenorm': 'Number', 'BaseCacheKeyDenorm': 'PlainKey', 'TriggerFilterQuery': 'FilterQuery', 'TriggerWhereNode': 'FilterNode',
        'TriggerActionInsert': 'InsertAction', 'TriggerActionUpdate': 'UpdateAction', 'TriggerNestedSelect': 'Selection',
        'RandomBigInt': 'RandomNumber', 'CacheWrapper': 'CachedValue', 'DenormDBField': 'ComputedField'}),
    dict(id='r55', edits=[], rename={  # attributes
        'fieldname': 'attribute', 'self.fields': 'self.compared', 'depend': 'needs', 'actions': 'steps',
        'content_type_field': 'type_column', 'manager_name': 'manager_attr'}),
]
