"""Database access of the scenarios: population, snapshots, raw statements."""
import random
import uuid

from django.contrib.contenttypes.models import ContentType
from django.core.management import call_command
from django.core.management.color import no_style
from django.db import connection, connections, models, transaction

import vapp.models as V

READY = set()
NROWS = 3


def all_models():
    from django.apps import apps
    return [m for a in ('vapp', 'vapp2') for m in apps.get_app_config(a).get_models(include_auto_created=True) if not m._meta.proxy]


def ready(triggers=True):
    """Tables, content types and (once) triggers."""
    if 'tables' not in READY:
        for alias in ('default', 'second'):
            call_command('migrate', 'contenttypes', verbosity=0, database=alias)
            call_command('migrate', run_syncdb=True, verbosity=0, database=alias)
            with connections[alias].schema_editor() as ed:
                ed.create_model(V.MOld)
                for t in ('old_rows', 'vapp_ground'):
                    ed.execute('ALTER TABLE %s ADD COLUMN %s text' % (ed.quote_name(t), ed.quote_name('shape')))
        READY.add('tables')
        for m in all_models():
            ContentType.objects.get_for_model(m)
        if connection.vendor == 'mysql':
            with connection.cursor() as c:
                c.execute('SET SESSION foreign_key_checks=0')
    if triggers and 'triggers' not in READY:
        from denorm import denorms
        denorms.drop_triggers()
        denorms.install_triggers()
        READY.add('triggers')
    if not triggers and 'triggers' in READY:
        from denorm import denorms
        denorms.drop_triggers()
        READY.discard('triggers')


def qn(n):
    return connection.ops.quote_name(n)


def sql(text, *args, **kw):
    with connections[kw.get('using', 'default')].cursor() as c:
        c.execute(text, args)
        if c.description:
            cols = [d[0] for d in c.description]
            return [dict(zip(cols, r)) for r in c.fetchall()]


def rows(table):
    return sql('SELECT * FROM %s' % qn(table))


def snapshot():
    return dict((m._meta.db_table, rows(m._meta.db_table)) for m in all_models())


def dirty():
    """Markers as (content type id, object id)."""
    return [(r['content_type_id'], r['object_id']) for r in rows('denorm_dirtyinstance')]


def clear_dirty():
    sql('DELETE FROM denorm_dirtyinstance')


def clear():
    with transaction.atomic():
        clear_()


def clear_():
    for m in all_models():
        sql('DELETE FROM %s' % qn(m._meta.db_table))
    clear_dirty()


def value_for(f, i, rnd):
    if f.primary_key:
        if isinstance(f, models.CharField):
            return 'k%d' % i
        if isinstance(f, models.UUIDField):
            return uuid.UUID(int=i)
        return i
    if isinstance(f, models.ForeignKey):
        if f.remote_field.model is ContentType:
            return None
        j = rnd.choice([None] + list(range(1, NROWS + 1))) if f.null and not f.unique else i
        return None if j is None else value_for(f.target_field, j, rnd)
    if isinstance(f, models.BooleanField):
        return True
    if hasattr(f, 'denorm') and not isinstance(f, models.CharField) and not isinstance(f, models.TextField):
        return 0
    if isinstance(f, (models.CharField, models.TextField)):
        return 'v%d' % i
    if f.null and i == 2:
        return None
    return i * 10


def insert(table, values):
    cols = sorted(values)
    sql('INSERT INTO %s (%s) VALUES (%s)' % (qn(table), ', '.join(qn(c) for c in cols), ', '.join(['%s'] * len(cols))),
        *[values[c] for c in cols])


def row_values(m, i, rnd):
    out = {}
    for f in m._meta.concrete_fields:
        v = value_for(f, i, rnd)
        if isinstance(v, uuid.UUID):
            v = f.get_db_prep_value(v, connection)
        out[f.column] = v
    return out


def populate(seed=0, only=None):
    with transaction.atomic():
        populate_(seed, only)


def populate_(seed, only):
    """NROWS rows in every table, links between them, aggregates that are right."""
    rnd = random.Random(seed)
    clear()
    links = []
    for m in all_models():
        if m._meta.auto_created:
            links.append(m)
            continue
        if only is not None and m not in only:
            continue
        for i in range(1, NROWS + 1):
            insert(m._meta.db_table, row_values(m, i, rnd))
    k = 0
    for m in links:
        if only is not None:
            continue
        fks = [f for f in m._meta.concrete_fields if isinstance(f, models.ForeignKey)]
        pairs = [(a, b) for a in range(1, NROWS + 1) for b in range(1, NROWS + 1)]
        for a, b in rnd.sample(pairs, 3):
            k += 1
            insert(m._meta.db_table, {'id': 10000 + k, fks[0].column: a, fks[1].column: b})
    cts = [ContentType.objects.get_for_model(x).pk for x in (V.MNote, V.MNote2, V.KNote)] + [None]
    if only is None:
        for i in range(1, NROWS + 1):
            sql('UPDATE %s SET note_type = %%s, note_object = %%s WHERE id = %%s' % qn('vapp_note'), 
                cts[0] if i == 1 else rnd.choice(cts), 1 if i == 1 else rnd.choice([None, 1, 2, 3]), i)
        sql('UPDATE %s SET note_type = %%s, note_object = 2 WHERE id = 3' % qn('vapp_note'), cts[2])
    fix_aggregates()
    clear_dirty()
    if connection.vendor == 'postgresql':
        for x in connection.ops.sequence_reset_sql(no_style(), all_models()):
            sql(x)


def aggregates():
    """[(owner table, pk column, column, function(owner row, state) -> value)], from the declarations in vapp."""
    def count(table, fk, keep=lambda r: True):
        return lambda pk, st: sum(1 for r in st[table] if r[fk] is not None and str(r[fk]) == str(pk) and keep(r))

    def total(table, fk, col, keep=lambda r: True):
        return lambda pk, st: sum(r[col] or 0 for r in st[table] if r[fk] is not None and str(r[fk]) == str(pk) and keep(r))
    out = [
        ('vapp_owner', 'owner_key', 'total_of_items', count('vapp_item', 'belongs_to')),
        ('vapp_owner', 'owner_key', 'sum_of_items', total('vapp_item', 'belongs_to', 'item_number')),
        ('vapp_owner', 'owner_key', 'gift_total', count('vapp_item', 'giver_id')),
        ('vapp_badge', 'badge_code', 'uses', count('vapp_badgeuse', 'badge_id')),
        ('vapp_token', 'id', 'uses', count('vapp_tokenuse', 'token_id')),
        ('vapp_car', 'id', 'parts', count('vapp_carpart', 'owner_id')),
        ('vapp_car', 'id', 'worth', total('vapp_carpart', 'owner_id', 'number')),
        ('vapp_cart', 'id', 'parts', count('vapp_cartpart', 'owner_id')),
        ('vapp_cart', 'id', 'worth', total('vapp_cartpart', 'owner_id', 'number')),
        ('vapp_purse', 'id', 'amount', total('vapp_coin', 'purse_id', 'value')),
        ('vapp_shelf', 'id', 'books', count('vapp_book', 'shelf_id')),
        ('vapp_shelf', 'id', 'pages', total('vapp_book', 'shelf_id', 'pages')),
    ]
    if connection.vendor != 'sqlite':
        out += [
            ('vapp_till', 'id', 'taken', total('vapp_tillslip', 'slip_till', 'slip_amount', lambda r: r['slip_paid'] and not r['slip_void'])),
            ('vapp_jar', 'id', 'good', count('vapp_bean', 'bean_jar', lambda r: r['bean_ripe'] and not r['bean_bad'])),
            ('vapp_stock', 'id', 'live', count('vapp_ware', 'kept_in', lambda r: r['live'] and r['tag'] != 'x')),
            ('vapp_stock', 'id', 'worth', total('vapp_ware', 'kept_in', 'ware_price',
                                               lambda r: r['ware_price'] is not None and r['ware_price'] >= 10 and r['live'])),
            ('vapp_stock', 'id', 'kept', count('vapp_ware', 'kept_in', lambda r: not (r['live'] and r['tag'] == 'x'))),
            # exclude(price__gte=10) keeps rows without a price
            ('vapp_stock', 'id', 'rest', count('vapp_ware', 'kept_in', lambda r: not (r['ware_price'] is not None and r['ware_price'] >= 10))),
        ]
    return out


def fix_aggregates():
    st = snapshot()
    for table, pk, col, fn in aggregates():
        for r in st[table]:
            sql('UPDATE %s SET %s = %%s WHERE %s = %%s' % (qn(table), qn(col), qn(pk)), fn(r[pk], st), r[pk])


class Rollback(Exception):
    pass


class undone(object):
    """Everything inside is rolled back."""
    def __enter__(self):
        self.a = transaction.atomic()
        self.a.__enter__()

    def __exit__(self, t, v, tb):
        try:
            self.a.__exit__(Rollback, Rollback(), None)
        except Rollback:
            pass
        return False
