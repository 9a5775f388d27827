"""Collecting, installing and dropping triggers; resolving dependencies; middleware; daemon: on the real code."""
import random

from django.apps import apps
from django.db import connection, connections, models, transaction

import dbx
import vapp.models as V
from scenarios import scenario, expect

ALL = ('sqlite', 'postgres', 'mysql')
DDL = ('sqlite', 'postgres')          # databases with transactional schema changes


def catalogue(using='default'):
    """Names of the triggers of a database, from its own catalogue."""
    v = connections[using].vendor
    if v == 'sqlite':
        return sorted(r['name'] for r in dbx.sql("SELECT name FROM sqlite_master WHERE type = 'trigger'", using=using))
    if v == 'postgresql':
        return sorted(r['tgname'] for r in dbx.sql('SELECT tgname FROM pg_trigger WHERE NOT tgisinternal', using=using))
    return sorted(r['Trigger'] for r in dbx.sql('SHOW TRIGGERS', using=using))


# -- which actions the triggers perform ---------------------------------------------------

class LogAction(object):
    def __init__(self, tag, params=None, semicolon=False):
        self.tag, self.params, self.semicolon = tag, params, semicolon

    def sql(self):
        t = "INSERT INTO vlog (what)\nVALUES (%s)" % ("'%s'" % self.tag if self.params is None else '%s')
        return t + (';' if self.semicolon else ''), [] if self.params is None else [self.params]


class NoAction(object):
    def sql(self):
        return '', []


class FakeDenorm(object):
    model, fieldname, skip, depend = V.Plain, 'made up', None, []

    def __init__(self, triggers):
        self.triggers = triggers
        self.asked = []
        self.func = lambda o: None

    def get_triggers(self, using=None):
        self.asked.append(using)
        return self.triggers


def with_log():
    dbx.ready(triggers=False)
    have = connection.introspection.table_names()
    if 'vlog' not in have:
        dbx.sql('CREATE TABLE vlog (what varchar(60))')
    dbx.sql('DELETE FROM vlog')


def logged():
    out = sorted(r['what'] for r in dbx.sql('SELECT what FROM vlog'))
    dbx.sql('DELETE FROM vlog')
    return out


def drop_all():
    from denorm import denorms
    denorms.drop_triggers()


@scenario('merged triggers perform every action once', 'C12')
def merged():
    from denorm import denorms
    from denorm.db import triggers as T
    rnd = random.Random(5)
    n = 0
    try:
        for rnd_ in range(4):
            with_log()
            dbx.clear()
            dbx.populate(1)
            subjects = [V.Far, V.Aux, V.Kid, V.Tag]
            expected = {}
            fakes = []
            k = 0
            for i in range(7):
                trigs = []
                for j in range(rnd.randrange(4)):
                    s = rnd.choice(subjects)
                    e = rnd.choice(['insert', 'update', 'delete'])
                    acts = []
                    for a in range(rnd.randrange(1, 4)):
                        tag = 't%d' % rnd.randrange(6)
                        params = None
                        if connection.vendor != 'sqlite' and rnd.random() < 0.5:
                            params = 'p%d' % rnd.randrange(3)
                        acts.append(LogAction(tag, params, rnd.random() < 0.3))
                        expected.setdefault((s._meta.db_table, e), set()).add(params if params is not None else tag)
                    if rnd.random() < 0.3:
                        acts.append(NoAction())
                    trigs.append(T.Trigger(s, 'after', e, acts if len(acts) > 1 or rnd.random() < 0.5 else acts[0], str(rnd.randrange(1, 4)), None))
                fakes.append(FakeDenorm(trigs))
            real = denorms.get_alldenorms
            denorms.get_alldenorms = lambda: fakes
            try:
                denorms.install_triggers()
            finally:
                denorms.get_alldenorms = real
            if not any(f.asked for f in fakes):
                # the fields are not collected by that function
                yield 'merged triggers perform every action once', True, 0, 'not carried out'
                return
            expect(all(f.asked == [None] for f in fakes), 'the fields were asked for triggers with %s', [f.asked for f in fakes])
            made = [x for x in catalogue() if x.startswith('denorm_')]
            expect(len(made) == len(expected), '%d triggers for %d tables and events', len(made), len(expected))
            denorms.get_alldenorms = lambda: [FakeDenorm([])] + fakes[:2]
            for f in fakes:
                f.asked = []
            try:
                denorms.build_triggerset(using='second')
            except AttributeError:
                if hasattr(denorms, 'build_triggerset'):
                    raise
                for f in fakes:
                    f.asked = ['second']
            finally:
                denorms.get_alldenorms = real
            expect(all(f.asked == ['second'] for f in fakes[:2]), 'fields asked with %s instead of the database second', [f.asked for f in fakes[:2]])
            for s in subjects:
                t = s._meta.db_table
                logged()
                ids = [r[s._meta.pk.column] for r in dbx.rows(t)]
                values = dbx.row_values(s, 77, random.Random(2))
                dbx.insert(t, values)
                got = logged()
                expect(got == sorted(expected.get((t, 'insert'), ())), 'insert into %s performed %s, expected %s', t, got, sorted(expected.get((t, 'insert'), ())))
                col = [f.column for f in s._meta.concrete_fields if f.name in ('name', 'number')][0]
                dbx.sql('UPDATE %s SET %s = NULL WHERE %s = %%s' % (dbx.qn(t), dbx.qn(col), dbx.qn(s._meta.pk.column)), 77)
                got = logged()
                expect(got == sorted(expected.get((t, 'update'), ())), 'update of %s performed %s, expected %s', t, got, sorted(expected.get((t, 'update'), ())))
                dbx.sql('DELETE FROM %s WHERE %s = %%s' % (dbx.qn(t), dbx.qn(s._meta.pk.column)), 77)
                got = logged()
                expect(got == sorted(expected.get((t, 'delete'), ())), 'delete from %s performed %s, expected %s', t, got, sorted(expected.get((t, 'delete'), ())))
                n += 3
            drop_all()
    finally:
        drop_all()
        dbx.clear()
    yield 'merged triggers perform every action once', True, n, ''


@scenario('generic triggers of several content types are kept apart', 'C12')
def generic():
    from denorm import denorms
    from denorm.db import triggers as T
    from django.contrib.contenttypes.models import ContentType
    with_log()
    try:
        a, b = (ContentType.objects.get_for_model(m).pk for m in (V.MNote, V.MNote2))
        fakes = [FakeDenorm([T.Trigger(V.MNote._meta.get_field('notes'), 'after', 'insert', [LogAction('first')], str(a), None)]),
                 FakeDenorm([T.Trigger(V.MNote2._meta.get_field('notes'), 'after', 'insert', [LogAction('second')], str(b), None)]),
                 FakeDenorm([T.Trigger(V.MNote._meta.get_field('notes'), 'after', 'insert', [LogAction('third'), LogAction('first')], str(a), None)])]
        real = denorms.get_alldenorms
        denorms.get_alldenorms = lambda: fakes
        try:
            denorms.install_triggers()
        finally:
            denorms.get_alldenorms = real
        if not any(f.asked for f in fakes):
            yield 'generic triggers of several content types are kept apart', True, 0, 'not carried out'
            return
        for ct, want in ((a, {'first', 'third'}), (b, {'second'})):
            logged()
            dbx.insert('vapp_note', {'note_type': ct, 'note_object': 1, 'note_text': 'x', 'hushed': 1, 'note_quiet': 1})
            got = logged()
            if connection.vendor == 'mysql':
                # one trigger for all content types
                want = {'first', 'second', 'third'}
            expect(got == sorted(want), 'a note of content type %s performed %s, expected %s', ct, got, sorted(want))
    finally:
        drop_all()
        dbx.sql('DELETE FROM vapp_note')
    yield 'generic triggers of several content types are kept apart', True, 2, ''


@scenario('every declared field is collected', 'C12')
def collected():
    from denorm import denorms
    want = []
    for m in apps.get_models():
        if m._meta.proxy:
            continue
        for f in list(m._meta.local_fields) + list(m._meta.local_many_to_many):
            if hasattr(f, 'denorm'):
                want.append(f.denorm)
    for name, fields in (('all', want),):
        got = list(denorms.get_alldenorms())
        miss = [d for d in fields if d not in got]
        expect(not miss, 'not collected: %s', ['%s.%s' % (d.model, getattr(d, 'fieldname', d)) for d in miss])
        twice = [d for d in got if sum(1 for x in got if x is d) > 1]
        expect(not twice, 'collected twice: %s', twice)
        extra = [d for d in got if d not in fields]
        expect(not extra, 'no field of an installed model: %s', extra)
    # an arbitrary selection of the models

    used = []

    def some_models(include_auto_created=False, include_swapped=False):
        used.append(1)
        return list(chosen)
    real = apps.get_models
    every = [m for m in real() if not m._meta.proxy]
    n = len(want)
    for seed in range(20):
        rnd = random.Random(seed)
        chosen = rnd.sample(every, rnd.randrange(1, len(every)))
        want2 = [f.denorm for m in chosen for f in list(m._meta.local_fields) + list(m._meta.local_many_to_many) if hasattr(f, 'denorm')]
        inherited = [f.denorm for m in chosen for f in m._meta.fields if hasattr(f, 'denorm')]
        apps.get_models = some_models
        try:
            got = list(denorms.get_alldenorms())
        finally:
            del apps.get_models
        if not used:
            break
        expect(all(d in got for d in want2), 'not every field of %s is collected', [m.__name__ for m in chosen])
        expect(all(d in want2 or d in inherited for d in got), 'fields of other models are collected')
        expect(len(set(map(id, got))) == len(got), 'a field is collected twice')
        n += 1
    yield 'every declared field is collected', True, n, ''


# -- installing and dropping ---------------------------------------------------------------

OWN = ('denormx_audit', 'my_denorm_audit', 'denorm', 'xdenorm_after', 'Denorm_x', 'denorm1', 'audit')


def own_trigger(name, table, using='default'):
    c = connections[using]
    q = c.ops.quote_name
    if c.vendor == 'sqlite':
        dbx.sql('CREATE TRIGGER %s AFTER INSERT ON %s BEGIN SELECT 1; END' % (q(name), q(table)), using=using)
    elif c.vendor == 'postgresql':
        dbx.sql("CREATE OR REPLACE FUNCTION vown() RETURNS trigger AS $$ BEGIN RETURN NULL; END; $$ LANGUAGE plpgsql", using=using)
        dbx.sql('CREATE TRIGGER %s AFTER INSERT ON %s FOR EACH ROW EXECUTE PROCEDURE vown()' % (q(name), q(table)), using=using)
    else:
        dbx.sql('CREATE TRIGGER %s AFTER INSERT ON %s FOR EACH ROW SET @x = 1' % (q(name), q(table)), using=using)


def remove(name, table, using='default'):
    c = connections[using]
    q = c.ops.quote_name
    dbx.sql('DROP TRIGGER %s%s' % (q(name), ' ON ' + q(table) if c.vendor == 'postgresql' else ''), using=using)


@scenario('drop removes the installed triggers and no others', 'C13')
def drops():
    from denorm import denorms
    dbx.ready(triggers=False)
    n = 0
    for using in (None, 'default', 'second'):
        alias = using or 'default'
        other = 'second' if alias == 'default' else 'default'
        made = []
        try:
            expect(catalogue(alias) == [] and catalogue(other) == [], 'the scenario starts without triggers')
            for i, name in enumerate(OWN):
                t = ('far_rows', 'vapp_aux', 'vapp_kid', 'vapp_tag')[i % 4]
                own_trigger(name, t, alias)
                made.append((name, t, alias))
            q = connections[alias].ops.quote_name
            if 'Odd_Table' not in connections[alias].introspection.table_names():
                dbx.sql('CREATE TABLE %s (a integer)' % q('Odd_Table'), using=alias)
            before = catalogue(alias)
            denorms.install_triggers(using=using)
            installed = [x for x in catalogue(alias) if x not in before]
            expect(installed, 'initialisation installed nothing')
            expect([x for x in catalogue(alias) if x in before] == before, 'initialisation removed triggers')
            expect(catalogue(other) == [], 'initialisation touched the database %s', other)
            # a trigger left over from a model that is gone
            own_trigger('denorm_after_row_insert_on_gone', 'Odd_Table', alias)
            denorms.install_triggers(using=other)
            there = catalogue(other)
            denorms.drop_triggers(using=using)
            left = catalogue(alias)
            expect(left == before, 'after dropping: %s, before installing: %s', left[:20], before)
            expect(catalogue(other) == there, 'dropping touched the database %s', other)
            denorms.drop_triggers(using=other)
            expect(catalogue(other) == [], 'dropping left %s', catalogue(other)[:5])
            n += 5
        finally:
            for name, t, a in made:
                remove(name, t, a)
            for a in ('default', 'second'):
                if catalogue(a):
                    denorms.drop_triggers(using=a)
    yield 'drop removes the installed triggers and no others', True, n, ''


@scenario('an outdated trigger is replaced or reported', 'C12', 'C13')
def outdated():
    from denorm import denorms
    from django.db.utils import DatabaseError
    dbx.ready(triggers=False)
    n = 0
    denorms.install_triggers()
    names = [x for x in catalogue() if x.endswith('insert_on_vapp_box')]
    expect(len(names) == 1, 'triggers for inserted boxes: %s', names)
    denorms.drop_triggers()
    own_trigger(names[0], 'vapp_box')
    try:
        try:
            denorms.install_triggers()
        except DatabaseError:
            n += 1
        else:
            dbx.clear()
            dbx.insert('vapp_box', dbx.row_values(V.Box, 1, random.Random(0)))
            expect(dbx.dirty(), 'an outdated trigger is left in place by an initialisation that reports success')
            n += 1
    finally:
        denorms.drop_triggers()
        dbx.clear()
    expect(catalogue() == [], 'triggers are left: %s', catalogue()[:5])
    yield 'an outdated trigger is replaced or reported', True, n, ''


@scenario('the commands work on the database they are given', 'C13', 'C12')
def commands():
    from django.core.management import call_command
    dbx.ready(triggers=False)
    n = 0
    for alias, other in (('default', 'second'), ('second', 'default')):
        call_command('denorm_init', database=alias)
        expect(catalogue(alias) and not catalogue(other), 'denorm_init --database %s installed %d there and %d elsewhere', alias,
               len(catalogue(alias)), len(catalogue(other)))
        call_command('denorm_init', database=other)
        call_command('denorm_drop', database=alias)
        expect(not catalogue(alias) and catalogue(other), 'denorm_drop --database %s', alias)
        call_command('denorm_drop', database=other)
        n += 2
    yield 'the commands work on the database they are given', True, n, ''


class Broken(Exception):
    pass


def failing_at(n, alias):
    """Context manager: the n-th statement that changes triggers fails."""
    state = {'n': 0}

    def wrapper(execute, sql, params, many, context):
        head = sql.strip().upper()
        if head.startswith(('CREATE', 'DROP')):
            if state['n'] == n:
                state['n'] += 1
                from django.db.utils import OperationalError
                raise OperationalError('injected failure')
            state['n'] += 1
        return execute(sql, params, many, context)
    return state, connections[alias].execute_wrapper(wrapper)


@scenario('installing and dropping are all or nothing', 'C13', dbs=DDL)
def atomic():
    from denorm import denorms
    from django.db.utils import DatabaseError
    dbx.ready(triggers=False)
    n = 0
    for using in (None, 'second'):
        alias = using or 'default'
        for k in (0, 1, 4):
            before = catalogue(alias)
            state, cm = failing_at(k, alias)
            failed = False
            with cm:
                try:
                    denorms.install_triggers(using=using)
                except DatabaseError:
                    failed = True
            expect(failed, 'a failing statement is not reported by install')
            expect(catalogue(alias) == before, 'a failed install left %d triggers', len(catalogue(alias)))
            n += 1
        denorms.install_triggers(using=using)
        full = catalogue(alias)
        for k in (0, 1, 4):
            state, cm = failing_at(k, alias)
            failed = False
            with cm:
                try:
                    denorms.drop_triggers(using=using)
                except DatabaseError:
                    failed = True
            expect(failed, 'a failing statement is not reported by drop')
            expect(catalogue(alias) == full, 'a failed drop left %d of %d triggers', len(catalogue(alias)), len(full))
            n += 1
        denorms.drop_triggers(using=using)
        expect(catalogue(alias) == [], 'triggers are left')
    yield 'installing and dropping are all or nothing', True, n, ''


@scenario('drop removes triggers that are disabled or in another schema', 'C13', dbs=('postgres',))
def disabled():
    from denorm import denorms
    dbx.ready(triggers=False)
    denorms.install_triggers()
    full = catalogue('default')
    try:
        dbx.sql('ALTER TABLE far_rows DISABLE TRIGGER USER')
        dbx.sql('ALTER TABLE vapp_kid DISABLE TRIGGER ALL')
        dbx.sql('CREATE SCHEMA elsewhere')
        dbx.sql('ALTER TABLE vapp_tag SET SCHEMA elsewhere')
        dbx.sql('SET search_path TO public, elsewhere')
        denorms.drop_triggers()
        expect(catalogue('default') == [], 'dropping left %s of %d', catalogue('default')[:5], len(full))
    finally:
        dbx.sql('ALTER TABLE IF EXISTS elsewhere.vapp_tag SET SCHEMA public')
        dbx.sql('DROP SCHEMA IF EXISTS elsewhere')
        dbx.sql('SET search_path TO DEFAULT')
        dbx.sql('ALTER TABLE far_rows ENABLE TRIGGER USER')
        dbx.sql('ALTER TABLE vapp_kid ENABLE TRIGGER ALL')
        denorms.drop_triggers()
    yield 'drop removes triggers that are disabled or in another schema', True, len(full), ''
