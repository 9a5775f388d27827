"""Saving and loading instances, and the descriptions of fields: on the real code."""
import datetime
import decimal
import random

from django.apps import apps
from django.contrib.contenttypes.models import ContentType
from django.core.cache import cache
from django.db import IntegrityError, connection, connections, models, transaction
from django.db.models.signals import class_prepared, post_save, pre_save

import dbx
import vapp.models as V
from scenarios import scenario, expect

SQLITE = ('sqlite',)
TWO = ('sqlite', 'postgres')


class made(object):
    """Models declared inside a `with` block, with their tables; gone afterwards."""

    def __enter__(self):
        dbx.ready(triggers=False)
        self.signals = [(s, list(s.receivers)) for s in (class_prepared, pre_save, post_save)]
        self.models = dict(apps.all_models['vapp'])
        self.tables = []
        return self

    def tables_for(self, *ms):
        if connection.vendor == 'sqlite':
            dbx.sql('PRAGMA foreign_keys = OFF')
        for alias in ('default', 'second'):
            if alias == 'second' and connection.vendor == 'sqlite':
                dbx.sql('PRAGMA foreign_keys = OFF', using='second')
            with connections[alias].schema_editor() as ed:
                for m in ms:
                    ed.create_model(m)
                    self.tables.append((alias, m))
        if connection.vendor == 'sqlite':
            dbx.sql('PRAGMA foreign_keys = ON')
            dbx.sql('PRAGMA foreign_keys = ON', using='second')

    def __exit__(self, *a):
        for alias, m in reversed(self.tables):
            if connection.vendor == 'sqlite':
                dbx.sql('PRAGMA foreign_keys = OFF', using=alias)
            with connections[alias].schema_editor() as ed:
                ed.delete_model(m)
            if connection.vendor == 'sqlite':
                dbx.sql('PRAGMA foreign_keys = ON', using=alias)
        for s, r in self.signals:
            s.receivers[:] = r
            s._dead_receivers = True
            s.sender_receivers_cache.clear()
        apps.all_models['vapp'].clear()
        apps.all_models['vapp'].update(self.models)
        apps.clear_cache()


def one(table, pk, column='id', using='default'):
    rows = dbx.sql('SELECT * FROM %s WHERE %s = %%s' % (dbx.qn(table), dbx.qn(column)), pk, using=using)
    return rows[0] if rows else None


# -- C15 ----------------------------------------------------------------------------------

VALUES = [
    (models.CharField, dict(max_length=20, null=True), ['', 'a', None, '0', 'None', ' x ']),
    (models.TextField, dict(null=True), ['', 'long ' * 50, None]),
    (models.IntegerField, dict(null=True), [0, 1, -7, None, 10 ** 6]),
    (models.BigIntegerField, dict(null=True), [0, 2 ** 62, None]),
    (models.NullBooleanField, dict(), [False, True, None]),
    (models.FloatField, dict(null=True), [0.0, 2.5, None]),
    (models.DateField, dict(null=True), [datetime.date(2001, 2, 3), None]),
    (models.DecimalField, dict(max_digits=9, decimal_places=2, null=True), [decimal.Decimal('0.00'), decimal.Decimal('3.25'), None]),
    (models.CharField, dict(max_length=20, default='usual'), ['', 'a', 'usual']),
    (models.IntegerField, dict(default=3), [0, 3, 5]),
    (models.IntegerField, dict(default=3, null=True), [0, 3, None]),
    (models.BooleanField, dict(default=True), [True, False]),
]


@scenario('every saved value is the one computed at that moment, for plain fields', 'C15', dbs=SQLITE)
def plain_values():
    from denorm import denormalized
    checks = 0
    for number, (cls, options, values) in enumerate(VALUES):
        with made() as m:
            box = {}

            class Holder15(models.Model):
                first = models.IntegerField(null=True)

                @denormalized(cls, db_column='held_value', **options)
                def value(self):
                    return box['value']

                @denormalized(models.IntegerField, null=True)
                def again(self):
                    return None if self.first is None else self.first + 1

                class Meta:
                    app_label = 'vapp'
            m.tables_for(Holder15)
            for v in values:
                for before in values:
                    for how in ('new', 'loaded', 'same object', 'assigned'):
                        box['value'] = before
                        o = Holder15(first=1)
                        if how in ('assigned', 'new'):
                            o.value, o.again = before, 77
                        if how != 'new':
                            o.save()
                        if how == 'loaded':
                            o = Holder15.objects.get(pk=o.pk)
                        if how == 'assigned':
                            o.value, o.again = before, 77
                        o.first = 5
                        box['value'] = v
                        o.save()
                        shown = o.value
                        stored = Holder15.objects.filter(pk=o.pk).values_list('value', 'again')[0]
                        d = '%s, %r before, %r computed, %s' % (cls.__name__, before, v, how)
                        expect(stored[0] == v and type(stored[0]) is type(v), '%s: %r stored', d, stored[0])
                        expect(shown == v and type(shown) is type(v), '%s: the instance shows %r', d, shown)
                        expect(stored[1] == 6 and o.again == 6, '%s: second field %r stored, %r shown', d, stored[1], o.again)
                        checks += 1
            if not Holder15._meta.get_field('value').null:
                box['value'] = None
                try:
                    with transaction.atomic():
                        Holder15(first=1).save()
                except IntegrityError:
                    checks += 1
                else:
                    expect(False, '%s without null: another value is stored in place of None', cls.__name__)
    yield ('every saved value is the one computed at that moment, for plain fields', True, checks, None)


@scenario('denormalized foreign keys: an object, a key or nothing', 'C15', dbs=SQLITE)
def foreign_keys():
    from denorm import denormalized
    checks = 0
    with made() as m:
        class Aux15(V.Aux):
            class Meta:
                app_label = 'vapp'
                proxy = True

        class Key15(models.Model):
            first = models.IntegerField(null=True)

            @denormalized(models.ForeignKey, V.Aux, null=True, related_name='+', on_delete=models.CASCADE, db_column='aux_of_key')
            def aux(self):
                return box['value']

            class Meta:
                app_label = 'vapp'

        class Only15(models.Model):
            first = models.IntegerField(null=True)

            @denormalized(models.OneToOneField, V.Aux, null=True, related_name='+', on_delete=models.CASCADE)
            def aux(self):
                return box['value']

            class Meta:
                app_label = 'vapp'
        m.tables_for(Key15, Only15)
        box = {}
        dbx.clear()
        a, b = V.Aux.objects.create(name='a'), V.Aux.objects.create(name='b')
        zero = V.Aux(pk=0, name='zero')
        zero.save()
        kinds = [None]
        for x in (a, b, zero):
            kinds += [x, x.pk, Aux15.objects.get(pk=x.pk)]
        for M in (Key15, Only15):
            for v in kinds:
                for before in kinds:
                    for how in ('new', 'loaded', 'looked at', 'assigned object', 'assigned key', 'select_related', 'only the key assigned'):
                        M.objects.all().delete()
                        box['value'] = before
                        o = M(first=1)
                        if how != 'new':
                            o.save()
                            o = M.objects.select_related('aux').get(pk=o.pk) if how == 'select_related' else M.objects.get(pk=o.pk)
                        if how == 'looked at':
                            o.aux
                        if how == 'assigned object':
                            o.aux = b
                        if how == 'assigned key':
                            o.aux
                            o.aux_id = b.pk
                        if how == 'only the key assigned':
                            o.aux = a
                            o.aux_id = getattr(v, 'pk', v)
                        box['value'] = v
                        o.save()
                        want = v.pk if isinstance(v, models.Model) else v
                        stored = M.objects.filter(pk=o.pk).values_list('aux', flat=True)[0]
                        d = '%s, %r before, %r computed, %s' % (M.__name__, before, v, how)
                        expect(stored == want, '%s: %r stored', d, stored)
                        expect(o.aux_id == want, '%s: the instance shows the key %r', d, o.aux_id)
                        got = o.aux
                        expect((None if got is None else got.pk) == want, '%s: the instance shows the object %r', d, got)
                        checks += 1
        dbx.clear()
    yield ('denormalized foreign keys: an object, a key or nothing', True, checks, None)


@scenario('fields inherited from an abstract model compute on their own model', 'C15', dbs=SQLITE)
def inherited_values():
    from denorm import denormalized
    with made() as m:
        class Base15(models.Model):
            first = models.CharField(max_length=9)

            @denormalized(models.CharField, max_length=30)
            def value(self):
                return '%s of %s' % (self.first, type(self).__name__)

            class Meta:
                abstract = True
                app_label = 'vapp'

        class One15(Base15):
            class Meta:
                app_label = 'vapp'

        class Two15(Base15):
            class Meta:
                app_label = 'vapp'
        m.tables_for(One15, Two15)
        n = 0
        for M in (One15, Two15, One15):
            o = M.objects.create(first='x')
            o = M.objects.get(pk=o.pk)
            expect(o.value == 'x of %s' % M.__name__, 'created: %r', o.value)
            o.first = 'y'
            o.save()
            expect(M.objects.get(pk=o.pk).value == o.value == 'y of %s' % M.__name__, 'saved: %r', o.value)
            n += 2
    yield ('fields inherited from an abstract model compute on their own model', True, n, None)


# -- C16 ----------------------------------------------------------------------------------

@scenario('many-to-many relations after saving', 'C16', dbs=TWO)
def relations_saved():
    from denorm import denormalized
    checks = 0
    with made() as m:
        class Team16(models.Model):
            name = models.CharField(max_length=9, default='')
            chosen = models.ManyToManyField(V.Aux, related_name='+')

            @denormalized(models.ManyToManyField, V.Aux, related_name='+')
            def first(self):
                return box['first'](self)

            @denormalized(models.ManyToManyField, V.Aux, related_name='+')
            def second(self):
                return box['second'](self)

            @denormalized(models.IntegerField, default=-1)
            def many(self):
                return self.first.count() if self.pk is not None else -1
            liked = models.ManyToManyField(V.Aux, related_name='+')

            class Meta:
                app_label = 'vapp'

        class Proxy16(Team16):
            class Meta:
                app_label = 'vapp'
                proxy = True

        class Child16(Team16):
            extra = models.IntegerField(default=3)

            @denormalized(models.ManyToManyField, V.Aux, related_name='+')
            def third(self):
                return box['third'](self)

            class Meta:
                app_label = 'vapp'

        class Coded16(models.Model):
            code = models.CharField(max_length=9, primary_key=True)
            name = models.CharField(max_length=9, default='')
            chosen = models.ManyToManyField(V.Aux, related_name='+')
            liked = models.ManyToManyField(V.Aux, related_name='+')

            @denormalized(models.ManyToManyField, V.Aux, related_name='+')
            def first(self):
                return box['first'](self)

            @denormalized(models.ManyToManyField, V.Aux, related_name='+')
            def second(self):
                return box['second'](self)

            class Meta:
                app_label = 'vapp'
        box = {}
        m.tables_for(Team16, Child16, Coded16)
        dbx.clear()
        auxes = [V.Aux.objects.create(name=n) for n in 'abcd']
        rnd = random.Random(16)
        contents = [auxes[i:j] for i in range(4) for j in range(i, 5)] + [[auxes[3], auxes[0]]]

        def pks(l):
            return sorted(getattr(x, 'pk', x) for x in l)

        def form(l):
            """The function may return a list, keys or a query set."""
            k = rnd.choice(('list', 'keys', 'query', 'tuple'))
            if k == 'keys':
                return [x.pk for x in l]
            if k == 'query':
                return V.Aux.objects.filter(pk__in=[x.pk for x in l])
            return tuple(l) if k == 'tuple' else list(l)

        def give(names):
            want = dict((n, rnd.choice(contents)) for n in names)
            for n in names:
                v = form(want[n])
                # what it computes may depend on the instance having been stored
                box[n] = lambda o, v=v: v if o.pk is not None else []
            return want

        def judge(o, names, want, d):
            again = type(o).objects.get(pk=o.pk)
            for n in names:
                for x in (o, again):
                    got = sorted(getattr(x, n).values_list('pk', flat=True))
                    expect(got == pks(want[n]), '%s: %s holds %s instead of %s', d, n, got, pks(want[n]))
            if hasattr(o, 'many'):
                expect(again.many == len(want['first']), '%s: the number computed from the links is %s instead of %s', d, again.many, len(want['first']))
        for M in (Team16, Proxy16, Child16, Coded16):
            names = ['first', 'second'] + (['third'] if M is Child16 else [])
            for how in ('new', 'assigned', 'assigned zero', 'loaded', 'same object', 'assigned over a row', 'create', 'get_or_create', 'only the name'):
                for i in range(6):
                    M.objects.all().delete()
                    want = give(names)
                    keys = {'code': 'k%d' % i} if M is Coded16 else {}
                    d = '%s, %s' % (M.__name__, how)
                    if how == 'assigned' and not keys:
                        keys = {'pk': 1000 + i}
                    if how == 'assigned zero':
                        keys = {'code': ''} if M is Coded16 else {'id': 0}
                        if M is Child16:
                            keys = {'team16_ptr_id': 0, 'id': 0}
                    if how == 'create':
                        o = M.objects.create(name='n', **keys)
                    elif how == 'get_or_create':
                        o, _ = M.objects.get_or_create(name='n', **keys)
                    else:
                        o = M(name='n', **keys)
                        o.save()
                    judge(o, names, want, d + ', created')
                    liked, chosen = rnd.choice(contents), rnd.choice(contents)
                    o.liked.set(liked)
                    o.chosen.set(chosen)
                    want = give(names)
                    if how == 'loaded':
                        o = M.objects.get(pk=o.pk)
                    if how == 'assigned over a row':
                        o = M(pk=o.pk, name='m', **(dict(id=o.pk) if M is Child16 else {}))
                    o.name = 'new name'
                    if how == 'only the name' and M is Coded16:
                        o.save(update_fields=['name'])
                    else:
                        o.save()
                    judge(o, names, want, d + ', saved again')
                    for n, l in (('liked', liked), ('chosen', chosen)):
                        got = sorted(getattr(o, n).values_list('pk', flat=True))
                        expect(got == pks(l), '%s: the plain relation %s holds %s instead of %s', d, n, got, pks(l))
                    checks += 2
        M = Team16
        for i in range(3):
            want = give(['first', 'second'])
            x, y = M.objects.create(name='x'), M.objects.create(name='y')
            other = give(['first', 'second'])
            y.save()
            judge(x, ['first', 'second'], dict(want, first=want['first']), 'another instance was saved')
            judge(y, ['first', 'second'], other, 'saved after another instance')
            checks += 2
        dbx.clear()
    yield ('many-to-many relations after saving', True, checks, None)


# -- C09 ----------------------------------------------------------------------------------

@scenario('saving leaves aggregates as the database has them', 'C09', dbs=TWO)
def aggregates_saved():
    from denorm import CountField, denormalized
    from denorm.fields import SumField
    checks = 0
    with made() as m:
        class Unhidden(models.Manager):
            def get_queryset(self):
                return super(Unhidden, self).get_queryset().filter(hidden=False)

        class Base09(models.Model):
            name = models.CharField(max_length=20, default='')
            hidden = models.BooleanField(default=False)
            total = CountField('part09s', db_column='total_parts')
            worth = SumField('part09s', field='number')

            @denormalized(models.IntegerField, default=0)
            def later(self):
                return 1 if during is None else during(self)
            objects = Unhidden()

            class Meta:
                abstract = True
                app_label = 'vapp'

        class Auto09(Base09):
            class Meta:
                app_label = 'vapp'

        class Coded09(Base09):
            code = models.CharField(max_length=9, primary_key=True)

            class Meta:
                app_label = 'vapp'

        class AutoPart09(models.Model):
            owner = models.ForeignKey(Auto09, related_name='part09s', on_delete=models.CASCADE)
            number = models.IntegerField(null=True)

            class Meta:
                app_label = 'vapp'

        class CodedPart09(models.Model):
            owner = models.ForeignKey(Coded09, related_name='part09s', on_delete=models.CASCADE)
            number = models.IntegerField(null=True)

            class Meta:
                app_label = 'vapp'
        m.tables_for(Auto09, Coded09, AutoPart09, CodedPart09)
        during = None
        rnd = random.Random(9)

        def put(o, total, worth, using='default'):
            M = type(o)
            dbx.sql('UPDATE %s SET total_parts = %%s, worth = %%s WHERE %s = %%s' % (
                dbx.qn(M._meta.db_table), dbx.qn(M._meta.pk.column)), total, worth, o.pk, using=using)

        def stored(o, using='default'):
            r = one(o._meta.db_table, o.pk, o._meta.pk.column, using)
            return None if r is None else (r['total_parts'], r['worth'])
        for M in (Auto09, Coded09):
            for using in ('default', 'second'):
                other = 'second' if using == 'default' else 'default'
                for i in range(30):
                    for alias in ('default', 'second'):
                        M._base_manager.using(alias).all().delete()
                    keys = {'code': 'c%d' % i} if M is Coded09 else rnd.choice([{}, {}, {'id': 5000 + i}, {'id': 0}])
                    o = M(name='n', hidden=rnd.random() < .3, total=rnd.choice([0, 5, 9]), worth=rnd.choice([0, 8]), **keys)
                    o.save(using=using)
                    d = '%s%s on %s' % (M.__name__, keys, using)
                    expect(stored(o, using) == (0, 0), '%s: a new row starts at %s', d, stored(o, using))
                    expect((o.total, o.worth) == (0, 0), '%s: a new instance shows %s', d, (o.total, o.worth))
                    clone = M(name='elsewhere', **({'code': o.pk} if M is Coded09 else {'id': o.pk}))
                    clone.save(using=other)
                    put(clone, 111, 222, other)
                    for step in range(4):
                        now = (rnd.choice([0, 1, 2, 100, 10 ** 6]), rnd.choice([0, 1, 50, 10 ** 6]))
                        put(o, now[0], now[1], using)
                        how = rnd.choice(['same', 'assigned', 'loaded', 'fields', 'overwrite'])
                        if how == 'loaded':
                            o = M._base_manager.using(using).get(pk=o.pk)
                            now = (now[0] + 3, now[1] + 7)
                            put(o, now[0], now[1], using)
                        if how == 'overwrite' and using == 'default':
                            o = M(hidden=o.hidden, **({'code': o.pk} if M is Coded09 else {'id': o.pk}))
                        if how in ('assigned', 'overwrite'):
                            o.total, o.worth = rnd.choice([0, 77, 5]), rnd.choice([3, None, 0])
                        o.name = 'n%d' % step
                        if how == 'fields':
                            o.save(update_fields=['name', 'total', 'worth'])
                        else:
                            o.save()
                        dd = '%s, %s, database value %s' % (d, how, now)
                        expect(stored(o, using) == now, '%s: stored %s', dd, stored(o, using))
                        expect((o.total, o.worth) == now, '%s: the instance shows %s', dd, (o.total, o.worth))
                        expect(stored(clone, other) == (111, 222), '%s: the row of the other database became %s', dd, stored(clone, other))
                        checks += 3
                    # values that the triggers change while the instance is being saved
                    now = (4, 40)
                    put(o, 3, 30, using)
                    during = lambda x: put(o, 4, 40, using) or 1
                    o.save()
                    during = None
                    expect(stored(o, using) == now, '%s: changed to %s while being saved, stored %s', d, now, stored(o, using))
                    # a row deleted meanwhile is created again
                    M._base_manager.using(using).filter(pk=o.pk).delete()
                    o.save()
                    expect(stored(o, using) == (0, 0) and (o.total, o.worth) == (0, 0), '%s: recreated with %s, showing %s', d, stored(o, using), (o.total, o.worth))
                    # written to the other database, where another row has this key
                    o.save(using=other)
                    expect(stored(o, other) == (111, 222), '%s: saved to the other database, which then has %s', d, stored(o, other))
                    checks += 3
    yield ('saving leaves aggregates as the database has them', True, checks, None)


@scenario('saving to a database the instance does not come from shows its aggregate', 'C09', dbs=SQLITE)
def aggregates_elsewhere():
    name = 'saving to a database the instance does not come from shows its aggregate'
    dbx.ready(triggers=False)
    dbx.clear()
    a, b = V.Car(name='a'), V.Car(name='b')
    a.save()
    b.pk = a.pk
    b.save(using='second')
    dbx.sql('UPDATE vapp_car SET parts = 5, worth = 6')
    dbx.sql('UPDATE vapp_car SET parts = 7, worth = 8', using='second')
    a = V.Car.objects.get(pk=a.pk)
    a.save(using='second')
    ok = (a.parts, a.worth) == (7, 8)
    dbx.sql('DELETE FROM vapp_car', using='second')
    dbx.clear()
    yield (name, ok, 1, 'shows %s instead of (7, 8)' % ((a.parts, a.worth),))


# -- C11 ----------------------------------------------------------------------------------

KEYS = [0, 1, -1, 10, 11, 100, 101, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 12345678901234567, 12345678901234568, 7, 70, 700]
KEYS += [77 + n * s for n in (10 ** 3, 10 ** 6, 10 ** 9, 10 ** 12, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 48, 2 ** 62) for s in (1, -1)] + [77, -77]


@scenario('cached attributes follow the key in the database', 'C11', dbs=TWO)
def cached_values():
    dbx.ready(triggers=False)
    dbx.clear()
    cache.clear()
    rnd = random.Random(11)
    calls = []
    compute = V.Quote.compute
    V.Quote.compute = staticmethod(lambda q: calls.append(q.pk) or box['value'])
    box = {'value': 'start'}
    checks = 0
    try:
        qs = [V.Quote.objects.create() for i in range(3)]
        values = ['text', '', 0, False, [], {}, 5, {'a': 1}, ('t',), None]
        cache.clear()
        known = {}
        for i in range(900):
            k = rnd.choice(KEYS)
            q = rnd.choice(qs)
            dbx.sql('UPDATE vapp_quote SET shown = %s WHERE id = %s', k, q.pk)
            ev = rnd.random()
            if ev < .08:
                cache.clear()
                known.clear()
            box['value'] = (rnd.choice(values), i) if rnd.random() < .5 else rnd.choice(values)
            del calls[:]
            how = rnd.choice(['get', 'filter', 'iterator', 'related', 'raw'])
            if how == 'get':
                o = V.Quote.objects.get(pk=q.pk)
            elif how == 'filter':
                o = list(V.Quote.objects.filter(pk=q.pk))[0]
            elif how == 'iterator':
                o = list(V.Quote.objects.filter(pk=q.pk).iterator())[0]
            elif how == 'raw':
                o = list(V.Quote.objects.raw('SELECT * FROM vapp_quote WHERE id = %s', [q.pk]))[0]
            else:
                o = V.Quote.objects.select_related('source').get(pk=q.pk)
            if known.get(k, 1) is None and not calls:
                # that the function gave nothing may be remembered, too
                expect(o.shown is None, 'key %s, nothing cached: shows %r', k, o.shown)
                continue
            want = known.get(k)
            d = 'key %s, %s' % (k, 'cached %r' % (want,) if want is not None else 'not cached, %r computed' % (box['value'],))
            if want is None:
                want = box['value']
                expect(calls == [q.pk], '%s: computed %s times', d, len(calls))
            else:
                expect(not calls, '%s: computed again', d)
            expect(o.shown == want and type(o.shown) is type(want), '%s: shows %r', d, o.shown)
            known[k] = want
            checks += 2
        # saving draws a new key, computes, stores and shows
        for i in range(10):
            q = V.Quote.objects.get(pk=qs[0].pk)
            box['value'] = 'saved %d' % i
            q.save()
            expect(q.shown == 'saved %d' % i, 'after saving: %r', q.shown)
            key = one('vapp_quote', q.pk)['shown']
            box['value'] = 'other'
            expect(V.Quote.objects.get(pk=q.pk).shown == 'saved %d' % i, 'loading after saving: %r', V.Quote.objects.get(pk=q.pk).shown)
            cache.clear()
            expect(V.Quote.objects.get(pk=q.pk).shown == 'other', 'evicted after saving')
            checks += 3
    finally:
        V.Quote.compute = compute
        dbx.clear()
    yield ('cached attributes follow the key in the database', True, checks, None)


@scenario('cached attributes in migrations', 'C11', 'C19', dbs=SQLITE)
def cached_historical():
    from django.db.migrations.state import ModelState, ProjectState
    dbx.ready(triggers=False)
    dbx.clear()
    V.Quote.objects.create()
    state = ProjectState()
    state.add_model(ModelState.from_model(V.Origin))
    state.add_model(ModelState.from_model(V.Quote))
    Q = state.apps.get_model('vapp', 'Quote')
    n = len(list(Q.objects.all()))
    expect(n == 1, '%s instances loaded', n)
    dbx.clear()


@scenario('refreshing an instance keeps its cached attribute right', 'C11', dbs=SQLITE)
def cached_refresh():
    name = 'refreshing an instance keeps its cached attribute right'
    dbx.ready(triggers=False)
    dbx.clear()
    cache.clear()
    compute = V.Quote.compute
    V.Quote.compute = staticmethod(lambda q: box['value'])
    try:
        box = {'value': 'old'}
        q = V.Quote.objects.create()
        q = V.Quote.objects.get(pk=q.pk)
        box['value'] = 'new'
        dbx.sql('UPDATE vapp_quote SET shown = 42')
        q.refresh_from_db()
        V.Quote.compute = staticmethod(lambda q: 'third')
        dbx.sql('UPDATE vapp_quote SET shown = 43')
        q.refresh_from_db()
        dbx.sql('UPDATE vapp_quote SET shown = 42')
        r = V.Quote.objects.get(pk=q.pk)
        r.refresh_from_db()
        shown, entries = r.shown, [k for k in cache._cache if k.endswith('_new') or k.endswith('_third')]
    finally:
        V.Quote.compute = compute
        dbx.clear()
    yield (name, shown == 'new' and not entries, 1, 'shows %r, and the cache has %s' % (shown, entries))


@scenario('a cached attribute loaded later than the rest of its instance', 'C11', dbs=SQLITE)
def cached_deferred():
    name = 'a cached attribute loaded later than the rest of its instance'
    dbx.ready(triggers=False)
    dbx.clear()
    cache.clear()
    q = V.Quote.objects.create()
    got = V.Quote.objects.defer('shown').get(pk=q.pk).shown
    want = V.Quote.objects.get(pk=q.pk).shown
    dbx.clear()
    yield (name, got == want, 1, 'shows %s instead of %r' % (type(got).__name__, want))


# -- C19 ----------------------------------------------------------------------------------

class Positional(models.CharField):
    """A field whose description has positional arguments."""

    def __init__(self, max_length, suffix='', **kw):
        self.suffix = suffix
        super(Positional, self).__init__(max_length=max_length, **kw)

    def deconstruct(self):
        name, path, args, kwargs = super(Positional, self).deconstruct()
        return name, path, [kwargs.pop('max_length')] + args + [self.suffix], kwargs


class Optioned(models.IntegerField):
    """A field with an option of its own."""

    def __init__(self, *a, **kw):
        self.unit = kw.pop('unit', None)
        super(Optioned, self).__init__(*a, **kw)

    def deconstruct(self):
        name, path, args, kwargs = super(Optioned, self).deconstruct()
        if self.unit is not None:
            kwargs['unit'] = self.unit
        return name, path, args, kwargs

    def db_type(self, connection):
        return 'integer' if self.unit is None else 'bigint'


def declarations():
    both = [dict(), dict(null=True), dict(db_column='other_column'), dict(db_index=True), dict(unique=True), dict(blank=True, null=True, help_text='help'),
            dict(verbose_name='a name'), dict(db_tablespace='space'), dict(validators=[validator]), dict(error_messages={'null': 'x'})]
    for o in both:
        yield models.CharField, (), dict(o, max_length=33)
        yield models.IntegerField, (), dict(o, default=4)
        yield models.TextField, (), dict(o, default='')
        yield models.DecimalField, (), dict(o, max_digits=7, decimal_places=3)
        yield models.DateTimeField, (), dict(o)
        yield models.BooleanField, (), dict((k, v) for k, v in o.items() if k != 'null')
        yield models.SlugField, (), dict(o)
        yield models.ForeignKey, (), dict(o, to='vapp.Aux', on_delete=models.PROTECT, related_name='+')
        yield models.OneToOneField, (), dict(o, to='vapp.Aux', on_delete=models.CASCADE)
        yield Positional, (12,), dict(o)
        yield Positional, (12, 'end'), dict(o)
        yield Optioned, (), dict(o, unit='m')
    yield models.CharField, ('a name',), dict(max_length=3, choices=[('a', 'A')], default='a')
    yield models.ForeignKey, ('vapp.Aux', models.CASCADE), dict(null=True, db_constraint=False, to_field='id')
    yield models.ManyToManyField, ('vapp.Aux',), dict(related_name='+', db_table='links_of_it')
    yield models.ManyToManyField, (), dict(to='vapp.Aux', blank=True)
    yield models.DateField, (), dict(auto_now=True)
    yield models.DateField, (), dict(auto_now_add=True)
    yield models.FileField, (), dict(upload_to='x')
    yield models.FilePathField, (), dict(path='/', match='x', recursive=True)
    yield models.UUIDField, (), dict()
    yield models.GenericIPAddressField, (), dict(protocol='IPv4')
    yield models.PositiveSmallIntegerField, (), dict(default=1)


def validator(v):
    pass


def column(f):
    f.set_attributes_from_name('it')
    return (f.column, f.db_type(connection), f.null, f.unique, f.db_index, f.get_default() if f.has_default() else None)


def same(a, b, what):
    expect(set(a) == set(b), '%s: options %s instead of %s', what, sorted(a), sorted(b))
    for k in a:
        expect(a[k] == b[k] and type(a[k]) is type(b[k]), '%s: option %s is %r instead of %r', what, k, a[k], b[k])


@scenario('descriptions of denormalized fields', 'C19', dbs=SQLITE)
def descriptions():
    from denorm import denormalized
    from django.utils.module_loading import import_string
    dbx.ready(triggers=False)
    checks = 0
    for cls, args, options in declarations():
        for skip in (None, ('x',)):
            def func(o):
                return None
            kw = dict(options)
            if skip is not None:
                kw['skip'] = skip
            f = denormalized(cls, *args, **kw)(func)
            f.name = 'it'
            plain = cls(*args, **dict(options, editable=False))
            plain.name = 'it'
            what = '%s%r %r' % (cls.__name__, args, options)
            for turn in range(2):
                name, path, a, k = f.deconstruct()
                n2, p2, a2, k2 = plain.deconstruct()
                expect(name == n2, '%s: name %r', what, name)
                expect(path == p2, '%s: class %r instead of %r', what, path, p2)
                expect(list(a) == list(a2), '%s: arguments %r instead of %r', what, a, a2)
                same(dict(k, editable=False), dict(k2, editable=False), what)
                again = import_string(path)(*a, **k)
                expect(not hasattr(again, 'denorm') and type(again) is cls, '%s: rebuilt as %r', what, type(again))
                if not f.many_to_many:
                    if not f.is_relation:
                        expect(column(again) == column(plain) == column(f), '%s: column %s instead of %s', what, column(again), column(plain))
                c = f.clone()
                c.name = 'it'
                n3, p3, a3, k3 = c.deconstruct()
                expect((n3, p3, list(a3)) == (name, path, list(a)), '%s: the clone is described as %r', what, (n3, p3, a3))
                same(k3, k, what + ', cloned')
                checks += 6
    yield ('descriptions of denormalized fields', True, checks, None)


@scenario('descriptions of aggregates and keys', 'C19', dbs=SQLITE)
def aggregate_descriptions():
    from denorm import CacheKeyField, CountField
    from denorm.fields import CachedField, SumField
    from django.utils.module_loading import import_string
    dbx.ready(triggers=False)
    checks = 0
    for o in (dict(), dict(db_column='other'), dict(null=True), dict(verbose_name='a name', help_text='h'), dict(db_index=True), dict(unique=True, blank=True)):
        for cls, args, extra in ((CountField, ('items',), {}), (CountField, (), {'manager_name': 'things'}), (CountField, ('items',), {'skip': ('x',)}),
                                 (SumField, ('items',), {'field': 'number'}), (SumField, ('items', 'number'), {}),
                                 (CacheKeyField, (), {}), (CachedField, (), {})):
            f = cls(*args, **dict(o, **extra))
            f.set_attributes_from_name('it')
            what = '%s%r %r' % (cls.__name__, args, dict(o, **extra))
            for turn in range(2):
                name, path, a, k = f.deconstruct()
                expect(name == 'it' and import_string(path) is cls, '%s: described as %s %s', what, name, path)
                g = import_string(path)(*a, **k)
                expect(type(g) is cls, '%s: rebuilt as %r', what, type(g))
                if hasattr(f, 'denorm'):
                    want = args[0] if args else 'things'
                    expect(g.denorm.manager_name == f.denorm.manager_name == want, '%s: manager %r', what, g.denorm.manager_name)
                    expect(type(g.denorm) is type(f.denorm), '%s: %r', what, type(g.denorm))
                for n, v in o.items():
                    got = getattr(g, n)
                    expect(got == v, '%s: rebuilt with %s=%r', what, n, got)
                expect(column(g) == column(f), '%s: column %s instead of %s', what, column(g), column(f))
                expect(column(f.clone()) == column(f), '%s: clone', what)
                expect(g.editable is False and g.get_default() == 0, '%s: editable or default', what)
                same(g.deconstruct()[3], k, what)
                checks += 5
    yield ('descriptions of aggregates and keys', True, checks, None)


@scenario('migrations of the project create the same columns', 'C19', dbs=TWO)
def project_state():
    from django.db.migrations.operations import CreateModel
    from django.db.migrations.state import ModelState, ProjectState
    from django.db.migrations.writer import OperationWriter
    dbx.ready(triggers=False)
    state = ProjectState.from_apps(apps)
    historical = state.apps
    checks = 0
    for model in apps.get_app_config('vapp').get_models():
        h = historical.get_model('vapp', model.__name__)
        for f in model._meta.local_fields:
            g = h._meta.get_field(f.name)
            a = (f.column, f.db_type(connection), f.null, f.unique, f.db_index)
            b = (g.column, g.db_type(connection), g.null, g.unique, g.db_index)
            expect(a == b, '%s.%s: %s instead of %s', model.__name__, f.name, b, a)
            text, imports = OperationWriter(CreateModel(model.__name__, [(f.name, f)])).serialize()
            if hasattr(f, 'denorm') and hasattr(f, 'func') and 'Denorm' in type(f).__name__:
                expect('denorm.' not in text.replace("db_column", ''), '%s.%s is written as %s', model.__name__, f.name, text)
            checks += 2
        for f in model._meta.local_many_to_many:
            g = h._meta.get_field(f.name)
            expect(f.m2m_db_table() == g.m2m_db_table(), '%s.%s: table %s', model.__name__, f.name, g.m2m_db_table())
            checks += 1
    yield ('migrations of the project create the same columns', True, checks, None)


# -- C02: the opt-out -----------------------------------------------------------------------

@scenario('with the opt-out there are no markers for the own row but all others', 'C02')
def opted_out():
    from django.conf import settings
    from django.contrib.contenttypes.models import ContentType
    from denorm import denormalized, depend_on_related, denorms, flush
    n = 0
    for value in (True, False, 1, None, 'yes', 0):
        settings.DENORM_BULK_UNSAFE_TRIGGERS = value
        try:
            with made() as m:
                class Opt02(models.Model):
                    name = models.CharField(max_length=9, default='')
                    far = models.ForeignKey(V.Far, null=True, on_delete=models.CASCADE, related_name='+')
                    tags = models.ManyToManyField(V.Tag, related_name='+')

                    @denormalized(models.CharField, max_length=50, default='')
                    @depend_on_related(V.Far)
                    @depend_on_related(V.Tag)
                    def text(self):
                        return '%s %s' % (self.name, self.far and self.far.name)

                    class Meta:
                        app_label = 'vapp'
                m.tables_for(Opt02)
                dbx.clear()
                ct = ContentType.objects.get_for_model(Opt02).pk
                denorms.drop_triggers()
                denorms.install_triggers()

                def marked():
                    r = sorted(str(o) for c, o in dbx.dirty() if c == ct)
                    dbx.clear_dirty()
                    return sorted(set(r))
                far = V.Far.objects.create(name='f')
                tag = V.Tag.objects.create(name='t')
                dbx.clear_dirty()
                Opt02.objects.bulk_create([Opt02(name='a', far=far), Opt02(name='b')])
                a, b = Opt02.objects.order_by('name')
                own = [] if value else sorted([str(a.pk), str(b.pk)])
                got = marked()
                expect(got == own, 'DENORM_BULK_UNSAFE_TRIGGERS = %r: an insert marked %s instead of %s', value, got, own)
                Opt02.objects.filter(pk=b.pk).update(name='c')
                got = marked()
                expect(got == ([] if value else [str(b.pk)]), 'DENORM_BULK_UNSAFE_TRIGGERS = %r: an update marked %s', value, got)
                V.Far.objects.filter(pk=far.pk).update(name='g')
                got = marked()
                expect(got == [str(a.pk)], 'DENORM_BULK_UNSAFE_TRIGGERS = %r: the change of a related row marked %s', value, got)
                b.tags.add(tag)
                got = marked()
                expect(got == [str(b.pk)], 'DENORM_BULK_UNSAFE_TRIGGERS = %r: a new link marked %s', value, got)
                V.Tag.objects.filter(pk=tag.pk).update(name='u')
                got = marked()
                expect(got == [str(b.pk)], 'DENORM_BULK_UNSAFE_TRIGGERS = %r: the change of a linked row marked %s', value, got)
                V.Far.objects.filter(pk=far.pk).update(name='h')
                flush()
                got = Opt02.objects.get(pk=a.pk).text
                expect(got == 'a h', 'DENORM_BULK_UNSAFE_TRIGGERS = %r: after a flush the value is %r', value, got)
                b = Opt02.objects.get(pk=b.pk)
                b.save()
                expect(Opt02.objects.get(pk=b.pk).text == 'c None', 'DENORM_BULK_UNSAFE_TRIGGERS = %r: saving stores the wrong value', value)
                n += 7
                denorms.drop_triggers()
                dbx.clear()
                ContentType.objects.filter(pk=ct).delete()
                ContentType.objects.clear_cache()
        finally:
            del settings.DENORM_BULK_UNSAFE_TRIGGERS
    yield ('with the opt-out there are no markers for the own row but all others', True, n, None)


# -- known defects --------------------------------------------------------------------------

@scenario('fields skipping different columns of one table', 'C01', dbs=SQLITE)
def skips_complete():
    yield different_skips()[0]


@scenario('fields skipping different columns of one table', 'C03', dbs=SQLITE)
def skips_precise():
    yield different_skips()[1]


def different_skips():
    """Triggers for the same table and event are merged, and the columns of the first one are compared for all."""
    from django.contrib.contenttypes.models import ContentType
    from denorm import denormalized, depend_on_related, denorms
    name = 'fields skipping different columns of one table'
    with made() as m:
        class Src01(models.Model):
            a = models.IntegerField(default=0)
            b = models.IntegerField(default=0)

            class Meta:
                app_label = 'vapp'

        class Dst01(models.Model):
            src = models.ForeignKey(Src01, on_delete=models.CASCADE, related_name='+')

            @denormalized(models.IntegerField, default=0)
            @depend_on_related(Src01, skip=('b',))
            def first(self):
                return self.src.a

            class Meta:
                app_label = 'vapp'

        class Dst02(models.Model):
            src = models.ForeignKey(Src01, on_delete=models.CASCADE, related_name='+')

            @denormalized(models.IntegerField, default=0)
            @depend_on_related(Src01, skip=('a',))
            def second(self):
                return self.src.b

            class Meta:
                app_label = 'vapp'
        for x in (Src01, Dst01, Dst02):
            m.tables_for(x)
        dbx.clear()
        denorms.drop_triggers()
        denorms.install_triggers()
        s = Src01.objects.create()
        one, two = Dst01.objects.create(src=s), Dst02.objects.create(src=s)
        own = [(ContentType.objects.get_for_model(o).pk, str(o.pk)) for o in (one, two)]
        missed, extra = [], []
        for i, col in enumerate(('a', 'b')):
            dbx.clear_dirty()
            Src01.objects.filter(pk=s.pk).update(**{col: 1})
            got = set((c, str(o)) for c, o in dbx.dirty())
            if own[i] not in got:
                missed.append(col)
            if own[1 - i] in got:
                extra.append(col)
        denorms.drop_triggers()
        dbx.clear()
        for ct, pk in own:
            ContentType.objects.filter(pk=ct).delete()
        ContentType.objects.clear_cache()
    return [(name + ': every field is tracked', not missed, 2, missed and 'a change of column %s did not mark the instance that uses it' % missed),
            (name + ': no field is tracked by columns it skips', not extra, 2,
             extra and 'a change of column %s marked the instance that skips it' % extra)]


@scenario('an aggregate called like a word of SQL', 'C12', dbs=SQLITE)
def reserved_word():
    from denorm import CountField, denorms
    name = 'an aggregate called like a word of SQL'
    error = None
    with made() as m:
        class Src02(models.Model):
            order = CountField('parts02')

            class Meta:
                app_label = 'vapp'

        class Part02(models.Model):
            src = models.ForeignKey(Src02, on_delete=models.CASCADE, related_name='parts02')

            class Meta:
                app_label = 'vapp'
        m.tables_for(Src02)
        m.tables_for(Part02)
        dbx.clear()
        try:
            denorms.drop_triggers()
            denorms.install_triggers()
            s = Src02.objects.create()
            Part02.objects.create(src=s)
            n = Src02.objects.get(pk=s.pk).order
            error = None if n == 1 else 'the count is %r instead of 1' % n
        except Exception as e:
            error = 'installing the triggers fails: %s: %s' % (type(e).__name__, e)
        finally:
            denorms.drop_triggers()
            dbx.clear()
    yield (name, error is None, 1, error)


@scenario('tables with long names that have much in common', 'C12')
def long_names():
    from denorm import denormalized, denorms
    name = 'tables with long names that have much in common'
    usual = ['the_rather_long', 'table_of_the_reports', 'for_the_usual', 'years']
    n = 0
    error = None
    with made() as m:
        tables = ['_'.join(usual)]
        for i, other in enumerate(('thy_rather_long', 'table_of_the_reporty', 'for_the_usuai', 'yearz')):
            tables.append('_'.join(usual[:i] + [other] + usual[i + 1:]))
        classes = []
        for i, t in enumerate(tables):
            classes.append(type('Long%02d' % i, (models.Model,), {
                '__module__': V.__name__, 'a': models.IntegerField(default=0),
                'twice': denormalized(models.IntegerField, default=0)(lambda self: 2 * self.a),
                'Meta': type('Meta', (), {'app_label': 'vapp', 'db_table': t})}))
        m.tables_for(*classes)
        dbx.clear()
        try:
            denorms.drop_triggers()
            try:
                denorms.install_triggers()
            except Exception as e:
                error = 'installing the triggers fails: %s: %s' % (type(e).__name__, e)
            for k, cls in enumerate(classes):
                if error:
                    break
                for i in range(k + 1):
                    dbx.insert(tables[k], {'id': 10 * k + i + 1, 'a': i, 'twice': 0})
                for what in ('inserted', 'updated'):
                    if what == 'updated':
                        cls.objects.update(a=7)
                    marked = sorted(int(o) for c, o in dbx.dirty() if c == ContentType.objects.get_for_model(cls).pk)
                    want = [10 * k + i + 1 for i in range(k + 1)]
                    if sorted(set(marked)) != want or len(dbx.dirty()) < len(want) or any(c != ContentType.objects.get_for_model(cls).pk for c, o in dbx.dirty()):
                        error = error or 'rows %s: marked %r instead of %r of %s' % (what, dbx.dirty(), want, cls.__name__)
                    dbx.clear_dirty()
                    n += 1
        finally:
            denorms.drop_triggers()
            ContentType.objects.filter(model__in=[cls._meta.model_name for cls in classes]).delete()
            ContentType.objects.clear_cache()
            dbx.clear()
    yield (name, error is None, n, error)
