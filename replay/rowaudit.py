"""Every kind of change of every table, one statement at a time, against a table of what has to happen."""
import random
import uuid

from django.contrib.contenttypes.models import ContentType
from django.db import connection, models

import dbx
import vapp.models as V
import vapp2.models as V2
from dbx import qn, sql
from scenarios import scenario, Fail, expect


def T(m):
    return m._meta.db_table


class Dep(object):
    """this: dependent model; table: changed table; kind of relation; columns as declared in vapp (by hand)."""
    def __init__(self, this, kind, table, skip=(), key=None, **cols):
        self.this, self.kind, self.table, self.skip, self.key = this, kind, table, set(skip), key
        self.__dict__.update(cols)
        self.pk = this._meta.pk.column

    def related(self, row, state):
        def link(st, tab, theirs, mine, val):
            return set(l[mine] for l in st[tab] if l[theirs] == val)
        k = self.kind
        if k == 'forward':
            return set(r[self.pk] for r in state[T(self.this)] if r[self.fk] is not None and r[self.fk] == row[self.opk])
        if k == 'backward':
            return set([row[self.fk]]) - {None}
        if k == 'link':
            return set([row[self.mine]]) - {None}
        if k == 'far':
            return link(state, self.link, self.theirs, self.mine, row[self.opk])
        if k == 'generic':
            ct = ContentType.objects.get_for_model(self.this).pk
            return set([row['note_object']]) - {None} if row['note_type'] == ct else set()

    @property
    def events(self):
        return ('update',) if self.kind == 'far' else ('insert', 'update', 'delete')


def links(field):
    return field.m2m_db_table(), field.m2m_column_name(), field.m2m_reverse_name()


def deps():
    f = lambda m, n: m._meta.get_field(n)
    out = [
        Dep(V.MFar, 'forward', 'far_rows', ('far_hushed', 'mute_id', 'quiet'), fk='my_far', opk='far_key'),
        Dep(V.KFar, 'forward', 'far_rows', ('far_hushed', 'mute_id', 'quiet'), key='far_cache_key', fk='my_far', opk='far_key'),
        Dep(V.MKid, 'backward', 'vapp_kid', ('hushed', 'mute_id', 'kid_quiet'), fk='kid_of'),
        Dep(V.KKid, 'backward', 'vapp_kid', ('hushed', 'mute_id', 'kid_quiet'), key='kid_cache_key', fk='kept_by'),
        Dep(V.MTag, 'link', 'vapp_mtag_tags', mine='mtag_id'),
        Dep(V.MTag, 'far', 'vapp_tag', ('hushed', 'quiet'), link='vapp_mtag_tags', mine='mtag_id', theirs='tag_id', opk='tag_key'),
        Dep(V.KTag, 'link', 'ktag_links', key='tag_cache_key', mine='ktag_id'),
        Dep(V.KTag, 'far', 'vapp_tag', ('hushed', 'quiet'), key='tag_cache_key', link='ktag_links', mine='ktag_id', theirs='tag_id', opk='tag_key'),
        Dep(V.MClub, 'link', 'vapp_club_members', mine='mclub_id'),
        Dep(V.MClub, 'far', 'vapp_club', ('club_hushed', 'quiet'), link='vapp_club_members', mine='mclub_id', theirs='club_id', opk='club_key'),
        Dep(V.KClub, 'link', 'vapp_club_guests', key='club_cache_key', mine='kclub_id'),
        Dep(V.KClub, 'far', 'vapp_club', ('club_hushed', 'quiet'), key='club_cache_key', link='vapp_club_guests', mine='kclub_id', theirs='club_id', opk='club_key'),
        Dep(V.MNote, 'generic', 'vapp_note', ('hushed', 'mute_id', 'note_quiet')),
        Dep(V.MNote2, 'generic', 'vapp_note', ('hushed', 'mute_id', 'note_quiet')),
        Dep(V.KNote, 'generic', 'vapp_note', ('hushed', 'mute_id', 'note_quiet'), key='note_cache_key'),
        Dep(V.SUp, 'forward', 'vapp_sup', ('quiet',), fk='up', opk='sup_key'),
        Dep(V.SDown, 'backward', 'vapp_sdown', ('quiet',), fk='up'),
        Dep(V.SLike, 'link', 'vapp_slike_likes', mine='from_slike_id'),
        Dep(V.SLike, 'far', 'vapp_slike', link='vapp_slike_likes', mine='from_slike_id', theirs='to_slike_id', opk='slike_key'),
        Dep(V.SFan, 'link', 'vapp_sfan_likes', mine='to_sfan_id'),
        Dep(V.SFan, 'far', 'vapp_sfan', link='vapp_sfan_likes', mine='to_sfan_id', theirs='from_sfan_id', opk='sfan_key'),
        Dep(V.Band, 'backward', 'vapp_player', fk='band_id'),
        Dep(V.Quote, 'forward', 'vapp_origin', key='shown', fk='source_id', opk='id'),
        Dep(V.MSure, 'forward', 'vapp_ground', fk='ground_id', opk='id'),
        Dep(V.KSure, 'forward', 'vapp_ground', key='fresh', fk='ground_id', opk='id'),
        Dep(V.MOne, 'forward', 'vapp_ground', fk='ground_id', opk='id'),
        Dep(V.MOld, 'forward', 'vapp_ground', fk='far_id', opk='id'),
        Dep(V.MHost, 'backward', 'vapp_guest', fk='host_id'),
        Dep(V.Link2, 'forward', 'vapp_link1', fk='up_id', opk='id'),
        Dep(V.Link3, 'forward', 'vapp_link2', fk='up_id', opk='id'),
    ]
    return out


# models with a denormalized field: own rows are watched; columns that do not count
OWN = [(V.MFar, ()), (V.MKid, ()), (V.MTag, ()), (V.MClub, ()), (V.MNote, ()), (V.MNote2, ()), (V.SUp, ('quiet',)),
       (V.SDown, ('quiet',)), (V.SLike, ()), (V.SFan, ()), (V.Box, ('box_hidden', 'hushed', 'mute_id')), (V.Slip, ()), (V.Plain, ()), (V2.Plain, ()),
       (V.Crate, ()), (V.Band, ()), (V.Link1, ()), (V.Link2, ()), (V.Link3, ()), (V.MSure, ()), (V.MOne, ()), (V.MOld, ()), (V.MHost, ()),
       (V.LongA, ()), (V.LongB, ())]


def tables():
    return [(T(m), m) for m in dbx.all_models()]


def choices(f):
    """Values that are tried for a column."""
    if isinstance(f, models.ForeignKey):
        if f.remote_field.model is ContentType:
            return [None] + [ContentType.objects.get_for_model(x).pk for x in (V.MNote, V.MNote2, V.KNote, V.Aux)]
        rnd = random.Random(0)
        free = (8, 9) if f.unique and not f.db_constraint else ()
        vals = [dbx.value_for(f.target_field, j, rnd) for j in free + (1, 2, 3)]
        vals = [f.target_field.get_db_prep_value(v, connection) if isinstance(v, uuid.UUID) else v for v in vals]
        return vals + [None] if free and f.null else ([None] if f.null else []) + vals
    if isinstance(f, models.BooleanField):
        return [True, False]
    if isinstance(f, (models.CharField, models.TextField)):
        return ([None] if f.null else []) + ['', 'v1', 'V1', 'v1 ', 'x', 'new']
    return ([None] if f.null else []) + [0, 1, 2, 3, 10, 20, 7]


class Change(object):
    """One statement; what it has to cause and what it may cause."""
    def __init__(self, seed):
        self.seed = seed

    def apply(self, table, stmt, args, label):
        before = dbx.snapshot()
        dbx.clear_dirty()
        sql(stmt, *args)
        after = dbx.snapshot()
        self.changed = before[table] != after[table]
        marks = set((ct, str(o)) for ct, o in dbx.dirty())
        return self.judge(table, before, after, marks, label)

    def judge(self, table, before, after, marks, label):
        pkcol = [m for t, m in tables() if t == table][0]._meta.pk.column
        old = dict((r[pkcol], r) for r in before[table])
        new = dict((r[pkcol], r) for r in after[table])
        changes = []
        for k in set(old) | set(new):
            if k not in old:
                changes.append(('insert', None, new[k]))
            elif k not in new:
                changes.append(('delete', old[k], None))
            else:
                changes.append(('update', old[k], new[k]))
        must, may, keys = set(), set(), {}
        moved = set()
        for d in deps():
            ct = ContentType.objects.get_for_model(d.this).pk
            if d.key:
                keys.setdefault((T(d.this), d.pk, d.key), set())
            if d.table != table:
                continue
            for ev, o, n in changes:
                if ev == 'update' and all(o[c] == n[c] for c in o if c not in d.skip):
                    continue
                rel = set()
                for r in (o, n):
                    if r is not None:
                        rel |= d.related(r, after)
                extra = set()
                if d.kind == 'generic':
                    both = [r['note_object'] for r in (o, n) if r is not None and r['note_object'] is not None]
                    mine = [r for r in (o, n) if r is not None and r['note_type'] == ct]
                    if ev == 'update' and mine and o['note_type'] != n['note_type']:
                        moved |= set((ct, str(x)) for x in both if x not in rel)
                        if d.key and connection.vendor != 'mysql':
                            extra = set(both) - rel
                    if connection.vendor == 'mysql':
                        may |= set((ct, str(x)) for x in both)
                        extra = set(both)
                if d.key:
                    if ev in d.events or d.kind == 'far':
                        if ev in d.events:
                            keys[(T(d.this), d.pk, d.key)] |= set(rel)
                        keys.setdefault(('may',) + (T(d.this), d.pk, d.key), set()).update(set(rel) | extra)
                else:
                    m = set((ct, str(x)) for x in rel)
                    may |= m
                    if T(d.this) == table and sum(1 for e, p, q in changes if p != q) > 1:
                        # a statement that changes several rows of the table: some still are as they were before
                        may |= set((ct, str(x)) for r in (o, n) if r is not None for x in d.related(r, before))
                    if ev in d.events:
                        here = set(str(r[d.pk]) for r in after[T(d.this)])
                        must |= set(x for x in m if x[1] in here)
        own_must = set()
        for m, skip in OWN:
            if T(m) != table:
                continue
            ct = ContentType.objects.get_for_model(m).pk
            for ev, o, n in changes:
                if ev == 'insert' or ev == 'update' and any(o[c] != n[c] for c in o if c not in skip):
                    own_must.add((ct, str(n[pkcol])))
        out = {'C01': None, 'C02': None, 'C03': None, 'C10': None, 'C07': None, 'C08': None, 'retarget': None, 'keyretarget': None}
        if not must <= marks:
            out['C01'] = '%s: not marked: %s' % (label, show(must - marks))
        if not own_must <= marks:
            out['C02'] = '%s: own row not marked: %s' % (label, show(own_must - marks))
        # a marker without an object names no instance
        over = set(x for x in marks if x[1] != 'None') - may - own_must
        if connection.vendor != 'mysql' and over & moved:
            out['retarget'] = '%s: marked: %s' % (label, show(over & moved))
            over -= moved
        if over:
            out['C03'] = '%s: marked without cause: %s' % (label, show(over))
        # tables that the statement did not name
        for (t, pk, col), want in [(k, v) for k, v in keys.items() if k[0] != 'may']:
            b = dict((r[pk], r[col]) for r in before[t])
            a = dict((r[pk], r[col]) for r in after[t])
            renewed = set(k for k in a if k in b and a[k] != b[k])
            wanted = set(k for k in want if k in a and k in b)
            if t == table and col in [m for tt, m in tables() if tt == table][0]._meta.get_fields():
                continue
            if t == table:
                continue
            if not wanted <= renewed:
                out['C10'] = '%s: key %s.%s not renewed for %s' % (label, t, col, sorted(wanted - renewed))
            allow = keys.get(('may', t, pk, col), set())
            plain = set(k for k in renewed if k not in allow)
            if plain:
                out['C03'] = out['C03'] or '%s: key %s.%s renewed without cause for %s' % (label, t, col, sorted(plain))
                out['C10'] = out['C10'] or out['C03']
            if connection.vendor != 'mysql' and (renewed - wanted) and not plain and 'note' in t:
                out['keyretarget'] = '%s: key %s.%s renewed for %s' % (label, t, col, sorted(renewed - wanted))
        aggs = dbx.aggregates()
        for t, pk, col, fn in aggs:
            for r in after[t]:
                w = fn(r[pk], after)
                if r[col] != w:
                    p = 'C08' if 'sum' in col or col in ('worth', 'pages', 'amount', 'taken') else 'C07'
                    out[p] = '%s: %s.%s of %s is %s instead of %s' % (label, t, col, r[pk], r[col], w)
        free = set((t, col) for t, pk, col, fn in aggs) | set((k[0], k[2]) for k in keys if k[0] != 'may')
        for t in before:
            if t == table:
                continue
            pk = [m for tt, m in tables() if tt == t][0]._meta.pk.column
            b = dict((r[pk], r) for r in before[t])
            a = dict((r[pk], r) for r in after[t])
            bad = ['rows of %s' % t] if set(a) != set(b) else ['column %s.%s' % (t, c) for k in a for c in a[k]
                                                               if (t, c) not in free and a[k][c] != b[k][c]]
            for p in ('C07', 'C08', 'C03', 'C10') if bad else ():
                out[p] = out[p] or '%s: %s changed' % (label, bad[0])
        # columns of the changed table that the statement did not name are checked by its update form
        return out


def show(s):
    return ', '.join('%s %s' % (ContentType.objects.get_for_id(ct).model, o) for ct, o in sorted(s, key=str))


KNOWN = {'retarget': 'a note moved between models by update marks the like-numbered instance of the other model',
         'keyretarget': 'a note moved between models by update renews the key of the like-numbered instance of the other model'}


def statements(table, m, rnd):
    """(label, statement, arguments) for every event and column of a table."""
    pk = m._meta.pk.column
    q = qn(table)
    pks = [r[pk] for r in dbx.rows(table)]
    for i in (7, 8):
        for k in range(2):
            v = dbx.row_values(m, i, rnd)
            if m._meta.auto_created:
                fks = [f for f in m._meta.concrete_fields if isinstance(f, models.ForeignKey)]
                v = {'id': 90 + i, fks[0].column: rnd.randint(1, 3), fks[1].column: rnd.randint(1, 3)}
            if table == 'vapp_note':
                v['note_type'] = rnd.choice([None] + [ContentType.objects.get_for_model(x).pk for x in (V.MNote, V.MNote2, V.KNote)])
                v['note_object'] = rnd.choice([1, 2, 3, None])
            cols = sorted(v)
            yield ('insert into %s %r' % (table, v), 'insert', None, 'INSERT INTO %s (%s) VALUES (%s)' % (
                q, ', '.join(qn(c) for c in cols), ', '.join(['%s'] * len(cols))), [v[c] for c in cols])
    for p in pks:
        yield ('delete of %s %s' % (table, p), 'delete', None, 'DELETE FROM %s WHERE %s = %%s' % (q, qn(pk)), [p])
    yield ('delete of all %s' % table, 'delete', None, 'DELETE FROM %s' % q, [])
    for f in m._meta.concrete_fields:
        if f.primary_key or f.column in ('far_cache_key',):
            continue
        for v in choices(f):
            for p in pks[:2] if len(pks) > 1 else pks:
                yield ('update of %s %s set %s = %r' % (table, p, f.column, v), 'update', f.column,
                       'UPDATE %s SET %s = %%s WHERE %s = %%s' % (q, qn(f.column), qn(pk)), [v, p])
        if not f.unique and not m._meta.auto_created:
            v = choices(f)[-1]
            yield ('update of all %s set %s = %r' % (table, f.column, v), 'update', f.column,
                   'UPDATE %s SET %s = %%s' % (q, qn(f.column)), [v])
    if table == 'vapp_note':
        for p in pks:
            for ct in choices(m._meta.get_field('ctype'))[1:]:
                for o in (1, 2, 3):
                    yield ('update of %s %s set note_type = %s, note_object = %s' % (table, p, ct, o), 'update', 'note_type+note_object',
                           'UPDATE %s SET note_type = %%s, note_object = %%s WHERE %s = %%s' % (q, qn(pk)), [ct, o, p])
    fs = [f for f in m._meta.concrete_fields if not f.primary_key and not f.unique]
    if len(fs) > 1:
        for k in range(4):
            a, b = rnd.sample(fs, 2)
            va, vb = rnd.choice(choices(a)), rnd.choice(choices(b))
            p = rnd.choice(pks)
            yield ('update of %s %s set %s = %r, %s = %r' % (table, p, a.column, va, b.column, vb), 'update', '%s+%s' % (a.column, b.column),
                   'UPDATE %s SET %s = %%s, %s = %%s WHERE %s = %%s' % (q, qn(a.column), qn(b.column), qn(pk)), [va, vb, p])


CACHE = {}


def run_all(seed, light=False):
    """{property: [(scenario, ok, checks, detail)]}; light: one statement for each event and column"""
    if (seed, light) in CACHE:
        return CACHE[seed, light]
    dbx.ready()
    tried = set()
    res = {}
    rnd = random.Random(seed)
    dbx.populate(seed)
    ch = Change(seed)
    relevant = set(d.table for d in deps()) | set(T(m) for m, s in OWN) | set(a[0] for a in dbx.aggregates()) | \
        set(['vapp_item', 'vapp_badgeuse', 'vapp_tokenuse', 'vapp_carpart', 'vapp_cartpart', 'vapp_ware', 'vapp_coin', 'vapp_tillslip', 'vapp_bean', 'vapp_book', 'vapp_bare', 'vapp_aux'])
    for table, m in tables():
        if table not in relevant:
            continue
        for label, event, col, stmt, args in statements(table, m, rnd):
            if any(table == t and col == c for t, pk, c, fn in dbx.aggregates()) or col and '+' in col and any(
                    table == t and c in col.split('+') for t, pk, c, fn in dbx.aggregates()):
                continue
            if light and (table, event, col) in tried:
                continue
            name = '%s of %s%s' % (event, table, ' (%s)' % col if col and '+' not in col else '')
            with dbx.undone():
                try:
                    r = ch.apply(table, stmt, args, label)
                    if ch.changed:
                        tried.add((table, event, col))
                except Exception as e:
                    if 'unique' in str(e).lower() or 'duplicate' in str(e).lower():
                        continue
                    r = dict((p, '%s: %s: %s' % (label, type(e).__name__, e)) for p in ('C01', 'C02', 'C03', 'C07', 'C08', 'C10'))
            for p, detail in r.items():
                n = KNOWN.get(p, name)
                ent = res.setdefault(p, {}).setdefault(n, [True, 0, None])
                ent[1] += 1
                if detail is not None and ent[0]:
                    ent[0], ent[2] = False, detail
    CACHE[seed, light] = dict((p, [(n, e[0], e[1], e[2]) for n, e in d.items()]) for p, d in res.items())
    return CACHE[seed, light]


def seeds():
    import os
    s = int(os.environ.get('VERIF_SEED') or 0)
    return [s] if os.environ.get('VERIF_TIER') != 'thorough' else [s, s + 1, s + 2]


def reporter(*props, **kw):
    def fn():
        merged = {}
        for s in seeds():
            r = run_all(s, **kw)
            for p in props:
                for n, ok, k, detail in r.get(p, ()):
                    e = merged.setdefault(n, [True, 0, None])
                    e[1] += k
                    if not ok and e[0]:
                        e[0], e[2] = False, detail
        return [(n, e[0], e[1], e[2]) for n, e in merged.items()]
    return fn


scenario('single statements', 'C01')(reporter('C01'))
scenario('single statements', 'C02')(reporter('C02'))
scenario('single statements', 'C03')(reporter('C03', 'retarget', 'keyretarget'))
scenario('single statements', 'C10')(reporter('C10', 'keyretarget'))
scenario('single statements', 'C07')(reporter('C07'))
scenario('single statements', 'C08')(reporter('C08'))
scenario('single statements', 'C12')(reporter('C01', 'C02', 'C07', 'C08', 'C10', light=True))


@scenario('saving an instance renews its key', 'C10')
def own_keys():
    dbx.ready()
    dbx.populate(0)
    n = 0
    seen = []
    for M, pk, col in ((V.KFar, 'id', 'far_cache_key'), (V.KKid, 'id', 'kid_cache_key'), (V.KTag, 'id', 'tag_cache_key'),
                       (V.KClub, 'id', 'club_cache_key'), (V.KNote, 'id', 'note_cache_key'), (V.Car, 'id', 'part_key'),
                       (V.Cart, 'id', 'part_key'), (V.KSure, 'id', 'fresh')):
        f = [x.attname for x in M._meta.concrete_fields if x.column == col][0]

        def stored(o):
            return dbx.sql('SELECT %s AS k FROM %s WHERE %s = %%s' % (qn(col), qn(T(M)), qn(pk)), o.pk)[0]['k']
        for o in M.objects.all():
            for turn in range(4):
                before = stored(o)
                if turn == 2:
                    o = M.objects.get(pk=o.pk)
                if turn == 3:
                    setattr(o, f, 12345)
                o.save()
                now = stored(o)
                expect(now != before, 'saving %s %s again did not renew its key', M.__name__, o.pk)
                expect(now != 12345, 'saving %s stored a key that was assigned', M.__name__)
                expect(getattr(o, f) == now, 'after saving %s its key is %s in the database and %s in the instance', M.__name__, now, getattr(o, f))
                seen.append(now)
                n += 1
            others = dict((x.pk, stored(x)) for x in M.objects.exclude(pk=o.pk))
            o.save()
            expect(others == dict((x.pk, stored(x)) for x in M.objects.exclude(pk=o.pk)), 'saving one %s renewed keys of others', M.__name__)
    expect(len(set(seen)) == len(seen), 'a key was used twice')
    expect(min(seen) < -2 ** 61 and max(seen) > 2 ** 61 and sum(1 for x in seen if abs(x) < 2 ** 48) < 3, 'keys lie between %s and %s', min(seen), max(seen))
    expect(all(-2 ** 63 <= x < 2 ** 63 for x in seen), 'keys lie between %s and %s', min(seen), max(seen))
    yield 'saving an instance renews its key', True, n, None


@scenario('the smallest and the largest key can be stored', 'C10', dbs=('sqlite', 'postgres'))
def extreme_keys():
    import random
    dbx.ready()
    dbx.populate(0)
    kept = random.randint
    f = [x.attname for x in V.KFar._meta.concrete_fields if x.column == 'far_cache_key'][0]
    n = 0
    try:
        for last in (False, True):
            random.randint = lambda a, b: b if last else a
            o = V.KFar.objects.order_by('pk').first()
            o.save()
            expect(-2 ** 63 <= getattr(o, f) < 2 ** 63, 'the key %s does not fit into 64 bits', getattr(o, f))
            V.KFar.objects.get(pk=o.pk)
            n += 1
    finally:
        random.randint = kept
    yield 'the smallest and the largest key can be stored', True, n, None


@scenario('keys renewed by triggers are spread over 64 bits', 'C10')
def spread_keys():
    dbx.ready()
    dbx.populate(0)
    ids = [r['far_key'] for r in dbx.rows('far_rows')]
    sql('UPDATE vapp_kfar SET my_far = %s', ids[0])
    seen = set()
    for i in range(100):
        sql('UPDATE far_rows SET %s = %%s WHERE far_key = %%s' % qn(V.Far._meta.get_field('name').column), 'n%d' % i, ids[0])
        seen |= set(r['far_cache_key'] for r in dbx.rows('vapp_kfar'))
    # by chance one of the quarters stays empty less than once in 10**11 runs
    quarters = set((k + 2 ** 63) // 2 ** 62 for k in seen)
    expect(len(seen) >= 100, '%d different keys after 100 renewals', len(seen))
    expect(quarters == set(range(4)), 'the keys lie in the quarters %s of the range only', sorted(quarters))
    dbx.clear()
    yield 'keys renewed by triggers are spread over 64 bits', True, len(seen), None


@scenario('keys of a model related to itself by links', 'C10', dbs=('sqlite',))
def self_links():
    dbx.ready()
    n = 0
    for m, t, link, pk, key, mine, theirs in (
            (V.KLike, 'vapp_klike', 'vapp_klike_likes', 'klike_key', 'like_cache_key', 'from_klike_id', 'to_klike_id'),
            (V.KFan, 'vapp_kfan', 'vapp_kfan_likes', 'kfan_key', 'fan_cache_key', 'to_kfan_id', 'from_kfan_id')):
        for stmt, want in (
                ("UPDATE %s SET name = 'new' WHERE %s = 2" % (t, pk), {1, 3}),
                ("UPDATE %s SET name = 'new' WHERE %s = 1" % (t, pk), set()),
                ('INSERT INTO %s (id, %s, %s) VALUES (50, 2, 1)' % (link, mine, theirs), {2}),
                ('DELETE FROM %s WHERE id = 41' % link, {1}),
                ('UPDATE %s SET %s = 3 WHERE id = 41' % (link, theirs), {1}),
                ('UPDATE %s SET %s = 2 WHERE id = 41' % (link, mine), {1, 2})):
            dbx.populate(0)
            sql('DELETE FROM %s' % link)
            for i, a in ((41, 1), (42, 3)):
                dbx.insert(link, {'id': i, mine: a, theirs: 2})
            before = dict((r[pk], r[key]) for r in dbx.rows(t))
            sql(stmt)
            after = dict((r[pk], r[key]) for r in dbx.rows(t))
            got = set(k for k in after if after[k] != before[k])
            expect(got == want, '%s renews the keys of %s instead of %s', stmt, sorted(got), sorted(want))
            n += 1
    dbx.clear()
    yield 'keys of a model related to itself by links', True, n, None


def wide(m, name):
    dbx.ready()
    dbx.populate(0)
    sql('UPDATE vapp_mwide SET wide_id = 2')
    ct = ContentType.objects.get_for_model(m).pk
    every = set((ct, str(r['id'])) for r in dbx.rows(T(m)) if m is V.MWide or r['id'] == 2)
    n = 0
    for f in V.Wide._meta.concrete_fields:
        if f.primary_key:
            continue
        dbx.clear_dirty()
        sql('UPDATE vapp_wide SET %s = %%s WHERE id = 2' % qn(f.column), '777')
        got = set((c, str(o)) for c, o in dbx.dirty() if c == ct)
        expect(got == every, 'column %s: marked %s instead of %s', f.column, sorted(got), sorted(every))
        n += 1
    dbx.clear()
    yield name, True, n, None


@scenario('every column of a related table with many columns counts', 'C01')
def wide_related():
    return wide(V.MWide, 'every column of a related table with many columns counts')


@scenario('every own column of a table with many columns counts', 'C02')
def wide_own():
    return wide(V.Wide, 'every own column of a table with many columns counts')


@scenario('sums of numbers below zero', 'C08')
def below_zero():
    dbx.ready()
    n = 0
    with dbx.undone():
        a, b = V.Purse.objects.create(), V.Purse.objects.create()
        for p in (a, b):
            V.Coin.objects.create(purse=p, value=1000)
        coins = [V.Coin.objects.create(purse=a, value=v) for v in (-5, 0, 7, None)]
        rows = T(V.Coin)
        steps = [('%s -> %s' % (o, v), 'UPDATE %s SET %s = %%s WHERE id = %%s' % (qn(rows), qn('value')), (v, o.pk))
                 for o in coins for v in (-6, 8, -1, -1, 0, -20, None, -3)]
        steps += [('%s -> purse %s' % (o, p.pk), 'UPDATE %s SET %s = %%s WHERE id = %%s' % (qn(rows), qn('purse_id')), (p.pk, o.pk))
                  for o in coins for p in (b, a, b)]
        steps += [('delete %s' % o, 'DELETE FROM %s WHERE id = %%s' % qn(rows), (o.pk,)) for o in coins]
        for what, stmt, args in steps:
            dbx.sql(stmt, *args)
            for p in (a, b):
                want = sum(c.value or 0 for c in V.Coin.objects.filter(purse=p))
                got = V.Purse.objects.get(pk=p.pk).amount
                expect(got == want, '%s: the sum is %s instead of %s', what, got, want)
                n += 1
    yield 'sums of numbers below zero', True, n, None


def many_dependents(marks):
    """More rows depend on one than a limited statement would reach."""
    from denorm import CacheKeyField
    from denorm.models import DirtyInstance
    dbx.ready()
    with dbx.undone():
        far, tag = V.Far.objects.create(name='far'), V.Tag.objects.create(name='tag')
        if marks:
            both = ((V.MFar, 'far', far), (V.MTag, 'tags', tag))
        else:
            both = ((V.KFar, 'far', far), (V.KTag, 'tags', tag))
        for M, name, other in both:
            last = M.objects.order_by('-pk').values_list('pk', flat=True).first() or 0
            link = M._meta.get_field(name)
            if link.many_to_many:
                M.objects.bulk_create([M() for i in range(1500)])
                own = list(M.objects.filter(pk__gt=last).values_list('pk', flat=True))
                T_ = link.remote_field.through
                T_.objects.bulk_create([T_(**{link.m2m_field_name() + '_id': pk, link.m2m_reverse_field_name() + '_id': other.pk}) for pk in own])
            else:
                M.objects.bulk_create([M(**{name: other}) for i in range(1500)])
                own = list(M.objects.filter(pk__gt=last).values_list('pk', flat=True))
            DirtyInstance.objects.all().delete()
            if not marks:
                f = [x.name for x in M._meta.concrete_fields if isinstance(x, CacheKeyField)][0]
                M.objects.all().update(**{f: 1})
            sql('UPDATE %s SET %s = %%s WHERE %s = %%s' % (qn(T(type(other))), qn(other._meta.get_field('name').column), qn(other._meta.pk.column)),
                'changed', other.pk)
            if marks:
                ct = ContentType.objects.get_for_model(M)
                got = set(str(x) for x in DirtyInstance.objects.filter(content_type=ct).values_list('object_id', flat=True))
                left = [pk for pk in own if str(pk) not in got]
            else:
                left = list(M.objects.filter(pk__in=own, **{f: 1}).values_list('pk', flat=True)) if connection.vendor != 'sqlite' else \
                    list(M.objects.filter(pk__gt=last, **{f: 1}).values_list('pk', flat=True))
            expect(len(own) == 1500 and not left, '%d of %d rows of %s were not reached by a change of the row they depend on',
                   len(left), len(own), M.__name__)
    return 2


@scenario('a row with many dependents', 'C01')
def many_marks():
    yield 'a row with many dependents', True, many_dependents(True), None


@scenario('a row with many dependents', 'C10')
def many_keys():
    yield 'a row with many dependents', True, many_dependents(False), None
