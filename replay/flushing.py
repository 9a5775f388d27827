"""Flush and rebuild on the real code."""
import contextlib
import io
import sys

from django.contrib.contenttypes.models import ContentType
from django.core.management import call_command
from django.db import connection, transaction
from django.db.models import signals

import dbx
import vapp.models as V
from scenarios import scenario, expect

SQLITE = ('sqlite',)
DIRTY = 'denorm_dirtyinstance'


def ct(m):
    return ContentType.objects.get_for_model(m).pk


def raw(text, args=()):
    """Like another connection: seen by no hook, no transaction of its own."""
    c = connection.connection.cursor()
    c.execute(text.replace('%s', '?') if connection.vendor == 'sqlite' else text, args)
    c.close()


def key(m, pk):
    return ct(m), str(pk).replace('-', '')


def dirty():
    return [(c, str(o).replace('-', '')) for c, o in dbx.dirty()]


def mark(m, pk):
    raw('INSERT INTO %s (content_type_id, object_id) VALUES (%%s, %%s)' % DIRTY, (ct(m), pk))


class Log(object):
    """Order of marks and saves.  `keys` are (content type, object id).

    The entries are also rows of the database, so that what is rolled back did not happen."""
    def __init__(self):
        self.t = 0
        self.entries = []
        self.saves = []
        self.hooks = []
        raw('CREATE TABLE IF NOT EXISTS vflushlog (t INTEGER)')
        raw('DELETE FROM vflushlog')

    def note(self, kind, k):
        t = self.tick()
        raw('INSERT INTO vflushlog (t) VALUES (%s)', (t,))
        self.entries.append((t, kind, k))

    def tick(self):
        self.t += 1
        return self.t

    def mark(self, m, pk):
        mark(m, pk)
        self.note('marked', key(m, pk))

    def pre(self, sender, instance, **kw):
        self.tick()

    def post(self, sender, instance, **kw):
        if sender._meta.db_table == DIRTY:
            return
        k = key(sender, instance.pk)
        self.note('saved', k)
        self.saves.append(k)
        for h in self.hooks:
            h(sender, instance)

    def __enter__(self):
        self.f, self.g = self.pre, self.post
        signals.pre_save.connect(self.f)
        signals.post_save.connect(self.g)
        return self

    def __exit__(self, *a):
        signals.pre_save.disconnect(self.f)
        signals.post_save.disconnect(self.g)

    def pending(self):
        kept = set(r['t'] for r in dbx.sql('SELECT t FROM vflushlog'))
        last = {'marked': {}, 'saved': {}}
        for t, kind, k in self.entries:
            if t in kept:
                last[kind][k] = t
        return [k for k, t in last['marked'].items() if last['saved'].get(k, 0) < t]


class quiet(object):
    def __enter__(self):
        self.o, sys.stdout = sys.stdout, io.StringIO()
        return sys.stdout

    def __exit__(self, *a):
        sys.stdout = self.o


def flush(**kw):
    from denorm import denorms
    denorms.flush(**kw)


def setup():
    dbx.ready()
    dbx.populate(0)
    for i in range(3):
        for m in (V.MFar, V.MKid, V.Box, V.Link1, V.Link2, V.Link3, V.SUp, V.Plain):
            for o in m._base_manager.all():
                o.save()
    dbx.clear_dirty()


MARKED = [(V.MFar, 1), (V.MFar, 2), (V.MKid, 2), (V.MKid, 1), (V.Box, 1), (V.Box, 2), (V.Link1, 1), (V.SUp, 1), (V.Plain, 3), (V.Bare, 2)]


def exists(m, pk):
    return bool(dbx.sql('SELECT 1 FROM %s WHERE %s = %%s' % (dbx.qn(m._meta.db_table), dbx.qn(m._meta.pk.column)), pk))


def check_done(log, gone=()):
    left = dbx.dirty()
    expect(not left, 'markers are left after flush: %r', left)
    p = [k for k in log.pending() if k not in gone]
    expect(not p, 'instances were not saved after they were marked: %r', p)


@scenario('flush saves every marked instance and clears all markers', 'C04')
def all_marked():
    for verbose in (False, True):
        setup()
        dbx.sql('UPDATE %s SET shown = %%s WHERE id = 3' % dbx.qn('vapp_plain'), False)
        dbx.clear_dirty()
        with Log() as log:
            for m, pk in MARKED:
                log.mark(m, pk)
            with quiet():
                flush(verbose=verbose)
            check_done(log)
    flush()
    expect(not dbx.dirty(), 'markers appear out of nothing')


@scenario('flush discards markers of instances that do not exist', 'C04')
def dangling():
    for extra in (False, True):
        setup()
        with Log() as log:
            for m, pk in ((V.MFar, 77), (V.Box, 78)):
                log.mark(m, pk)
            raw('INSERT INTO %s (content_type_id, object_id) VALUES (%%s, NULL)' % DIRTY, (ct(V.MKid),))
            if extra:
                log.mark(V.MFar, 1)
            log.mark(V.MFar, 79)
            with quiet():
                flush(verbose=extra)
            check_done(log, [key(V.MFar, 77), key(V.Box, 78), key(V.MFar, 79)])


@scenario('flush saves an instance that has several markers', 'C04')
def several():
    setup()
    with Log() as log:
        for i in range(3):
            for m, pk in MARKED:
                log.mark(m, pk)
        flush()
        check_done(log)


@scenario('flush follows chains of dependencies', 'C04')
def chain():
    setup()
    with transaction.atomic():
        for i in (1, 2, 3):
            dbx.sql('UPDATE vapp_link2 SET up_id = %s WHERE id = %s', i, i)
            dbx.sql('UPDATE vapp_link3 SET up_id = %s WHERE id = %s', i, i)
            dbx.sql('UPDATE vapp_sup SET up = %s WHERE sup_key = %s', i - 1 or None, i)
    flush()
    dbx.sql("UPDATE vapp_link1 SET name = 'new'")
    dbx.sql("UPDATE vapp_sup SET name = 'n'")
    flush()
    expect(not dbx.dirty(), 'markers are left: %r', dbx.dirty())
    got = [r['c'] for r in dbx.rows('vapp_link3')]
    expect(got == ['cbanew'] * 3, 'end of the chain: %r', got)
    got = sorted(r['path'] for r in dbx.rows('vapp_sup'))
    expect(got == ['/n', '/n/n', '/n/n/n'], 'paths: %r', got)


@scenario('flush handles instances marked while it runs', 'C04')
def marked_meanwhile():
    for target in ((V.MFar, 1), (V.MKid, 1), (V.Box, 2), (V.Link1, 2)):
        setup()
        with Log() as log:
            n = []

            def hook(sender, instance):
                if sender is V.Box and instance.pk == 1 and len(n) < 2:
                    n.append(1)
                    log.mark(*target)
            log.hooks.append(hook)
            log.mark(V.MFar, 1)
            log.mark(V.Box, 1)
            log.mark(V.Link1, 2)
            flush()
            check_done(log)


@scenario('flush handles instances deleted while it runs', 'C04')
def deleted_meanwhile():
    setup()
    with Log() as log:
        def hook(sender, instance):
            if sender is V.MFar and instance.pk == 1:
                raw('DELETE FROM vapp_link3 WHERE id = 2')
                raw('DELETE FROM vapp_plain WHERE id = 3')
        log.hooks.append(hook)
        for m, pk in MARKED + [(V.Link3, 2)]:
            log.mark(m, pk)
        flush()
        check_done(log, [key(V.Link3, 2), key(V.Plain, 3)])


@scenario('flush goes on as long as instances are marked', 'C04')
def long_chain():
    """A chain longer than any plausible number of passes, each link marked by the save of the one before."""
    setup()
    dbx.clear()
    n = 130
    with transaction.atomic():
        for i in range(1, n + 1):
            # the parent has the higher number
            dbx.insert('vapp_sup', {'sup_key': i, 'up': i + 1 if i < n else None, 'name': 'a', 'path': '', 'quiet': 0})
        for i in range(1, n + 1):
            dbx.sql('UPDATE vapp_sup SET path = %s WHERE sup_key = %s', '/a' * (n + 1 - i), i)
    dbx.clear_dirty()
    dbx.sql("UPDATE vapp_sup SET name = 'b' WHERE sup_key = %s", n)
    flush()
    expect(not dbx.dirty(), 'markers are left after flush: %r', dbx.dirty()[:3])
    bad = [r['sup_key'] for r in dbx.rows('vapp_sup') if r['path'] != '/b' + '/a' * (n - r['sup_key'])]
    expect(not bad, '%d of %d instances were not recomputed', len(bad), n)
    # values that settle one after the other: most instances are marked again and again
    n = 40
    with transaction.atomic():
        dbx.sql('UPDATE vapp_sup SET up = NULL WHERE sup_key = %s', n)
        dbx.sql('DELETE FROM vapp_sup WHERE sup_key > %s', n)
        dbx.sql("UPDATE vapp_sup SET name = 'c'")
    flush()
    expect(not dbx.dirty(), 'markers are left after flush: %r', dbx.dirty()[:3])
    bad = [r['sup_key'] for r in dbx.rows('vapp_sup') if r['path'] != '/c' * (n + 1 - r['sup_key'])]
    expect(not bad, '%d of %d instances were not recomputed often enough', len(bad), n)


@scenario('flush recomputes many-to-many relations', 'C04', 'C16')
def relations_flushed():
    setup()
    dbx.clear()
    a, b, c = (V.Band.objects.create(name=n) for n in 'abc')
    flush()
    V.Player.objects.bulk_create([V.Player(band=x, name=n) for x in (a, b) for n in ('x', '*y', 'z')])
    for turn in range(3):
        flush()
        expect(not dbx.dirty(), 'markers are left after flush: %r', dbx.dirty()[:3])
        for o in (a, b, c):
            want = sorted(V.Player.objects.filter(band=o).values_list('name', flat=True))
            got = sorted(o.members.values_list('name', flat=True))
            expect(got == want, 'members of %s after flush %d: %s instead of %s', o.name, turn, got, want)
            got = sorted(o.stars.values_list('name', flat=True))
            want = [x for x in want if x.startswith('*')]
            expect(got == want, 'stars of %s after flush %d: %s instead of %s', o.name, turn, got, want)
        if turn == 0:
            V.Player.objects.filter(band=a, name='x').update(band=c, name='*x')
        else:
            dbx.sql("DELETE FROM vapp_band_members WHERE player_id IN (SELECT id FROM vapp_player WHERE name = '*y')")
            dbx.sql("DELETE FROM vapp_band_stars WHERE player_id IN (SELECT id FROM vapp_player WHERE name = '*y')")
            dbx.sql("DELETE FROM vapp_player WHERE name = '*y'")
    dbx.clear()


@scenario('flush command', 'C04')
def command():
    setup()
    with Log() as log:
        for m, pk in MARKED:
            log.mark(m, pk)
        call_command('denorm_flush')
        check_done(log)


class Stop(Exception):
    pass


@scenario('flush does not return normally without having saved an instance', 'C04')
def failing_once():
    """A recomputation that fails once, with various errors."""
    for exc in (Stop('x'), ValueError('x'), __import__('django').db.DatabaseError('x'), V.Box.DoesNotExist('x'), AttributeError('x')):
        setup()
        with Log() as log:
            for m, pk in MARKED:
                log.mark(m, pk)
            seen = []

            def broken(sender, instance, **kw):
                if sender is V.Box and instance.pk == 1 and not seen:
                    seen.append(1)
                    raise exc
            signals.pre_save.connect(broken)
            try:
                flush()
                check_done(log)
            except type(exc):
                pass
            finally:
                signals.pre_save.disconnect(broken)


def remark(log):
    """Saving one instance marks another one that was handled before, and one that comes later."""
    n = []

    def hook(sender, instance):
        if sender is V.Box and instance.pk == 2 and len(n) < 1:
            n.append(1)
            log.mark(V.MFar, 1)
            log.mark(V.Plain, 1)
    log.hooks.append(hook)


def statements_failing_at(n, exc):
    count = [0]

    def wrap(execute, sql, params, many, context):
        count[0] += 1
        if count[0] == n:
            raise exc
        return execute(sql, params, many, context)
    return count, connection.execute_wrapper(wrap)


def lost(log):
    now = set(dirty())
    return [k for k in log.pending() if k not in now]


@scenario('flush stopped by a failing recomputation keeps what is pending', 'C05')
def failing_save():
    for exc in (Stop('stop'), KeyboardInterrupt(), SystemExit(1), AttributeError('x'), ValueError('x'),
                __import__('django').db.DatabaseError('x'), V.Box.DoesNotExist('x'), NotImplementedError('x')):
        for bad in (MARKED if isinstance(exc, Stop) else MARKED[4:5]):
            setup()
            with Log() as log:
                for m, pk in MARKED:
                    log.mark(m, pk)
                stopped = []

                def broken(sender, instance, **kw):
                    if sender is bad[0] and instance.pk == bad[1] and len(stopped) < 5:
                        stopped.append(1)
                        raise exc
                signals.pre_save.connect(broken)
                try:
                    flush()
                    expect(False, 'the failure %r was swallowed', exc) if lost(log) else None
                except BaseException as e:
                    if e is not exc:
                        raise
                finally:
                    signals.pre_save.disconnect(broken)
                x = lost(log)
                expect(not x, 'after %r in the recomputation of %r the markers of %r are gone', exc, bad, x)
                flush()
                check_done(log)


@scenario('flush stopped at any statement keeps what is pending', 'C05')
def failing_statement():
    n = 0
    dbx.ready()
    while True:
        n += 1
        if n == 1:
            setup()
        else:
            dbx.clear_dirty()
        with Log() as log:
            for m, pk in MARKED[:6]:
                log.mark(m, pk)
            log.mark(V.MKid, 99)
            exc = Stop('stop')
            count, wrapper = statements_failing_at(n, exc)
            try:
                with wrapper:
                    flush()
            except Stop:
                pass
            x = [k for k in lost(log) if k[1] != '99']
            expect(not x, 'stopped at statement %d: the markers of %r are gone', n, x)
            if count[0] < n:
                return
            expect(n < 400, 'flush does not end')


@scenario('flush stopped after instances were marked again', 'C05')
def stopped_later():
    setup()
    n = 0
    while True:
        n += 1
        dbx.clear_dirty()
        with Log() as log:
            for m, pk in MARKED[:6]:
                log.mark(m, pk)
            remark(log)
            count, wrapper = statements_failing_at(n, Stop('stop'))
            try:
                with wrapper:
                    flush()
            except Stop:
                pass
            x = lost(log)
            expect(not x, 'stopped at statement %d: the markers of %r are gone', n, x)
            if count[0] < n:
                return
            expect(n < 400, 'flush does not end')


@scenario('markers of other instances survive when one is cleared', 'C05')
def same_numbers():
    """Same object id in several models, several ids in one model."""
    for bad in ((V.MKid, 1), (V.Box, 2), (V.MFar, 2)):
        setup()
        with Log() as log:
            for m in (V.MFar, V.MKid, V.Box, V.Link1):
                for pk in (1, 2, 3):
                    log.mark(m, pk)

            def broken(sender, instance, **kw):
                if sender is bad[0] and instance.pk == bad[1]:
                    raise Stop('stop')
            signals.pre_save.connect(broken)
            try:
                flush()
            except Stop:
                pass
            finally:
                signals.pre_save.disconnect(broken)
            expect(key(*bad) in dirty(), 'the marker of the failing instance is gone')
            x = lost(log)
            expect(not x, 'the markers of %r are gone', x)


def interleaved(target, when):
    """Marks the target just before the n-th statement of the flush that is no clearing of markers."""
    dbx.clear_dirty()
    with Log() as log:
        state = {'n': 0, 'open': False}

        def hook(sender, instance):
            state['open'] = key(sender, instance.pk) == key(*target)
        log.hooks.append(hook)
        # (rows of Link2 and Link3 with these keys do not exist)
        for pk in (1, 2):
            mark(V.Link3, pk)
        for m, pk in MARKED[:6]:
            log.mark(m, pk)
        for pk in (1, 2):
            mark(V.Link2, pk)

        def wrap(execute, sql, params, many, context):
            s = sql.upper()
            state['n'] += 1
            if state['n'] == when and not state['open']:
                log.mark(*target)
            r = execute(sql, params, many, context)
            if s.startswith('DELETE') and 'DIRTYINSTANCE' in s:
                state['open'] = False
            return r
        with connection.execute_wrapper(wrap):
            flush()
        left = set(dirty())
        x = [k for k in log.pending() if k not in left]
        expect(not x, 'a marker of %r added before statement %d of the flush was cleared without a save', x, when)
        return state['n']


@scenario('markers added at any point of a flush are kept or processed', 'C20')
def any_point():
    setup()
    dbx.sql('DELETE FROM vapp_link3')
    dbx.sql('DELETE FROM vapp_link2')
    for target in ((V.MFar, 1), (V.Plain, 1), (V.MKid, 2)):
        n = 0
        while True:
            n += 1
            if interleaved(target, n) < n:
                break


@scenario('markers added for several instances during a flush', 'C20')
def several_added():
    setup()
    with Log() as log:
        def hook(sender, instance):
            if sender is V.MFar and instance.pk == 1 and len(log.saves) < 3:
                for m, pk in MARKED[1:]:
                    log.mark(m, pk)
        log.hooks.append(hook)
        for m, pk in MARKED:
            log.mark(m, pk)
        flush()
        left = set(dirty())
        x = [k for k in log.pending() if k not in left]
        expect(not x, 'markers of %r were cleared without a save', x)


@scenario('marker added between the save of an instance and the clearing of its markers', 'C20')
def window():
    setup()
    with Log() as log:
        def hook(sender, instance):
            if sender is V.Box and instance.pk == 1 and len(log.saves) < 20:
                log.mark(V.Box, 1)
        log.hooks.append(hook)
        log.mark(V.Box, 1)
        flush()
        left = set(dirty())
        x = [k for k in log.pending() if k not in left]
        expect(not x, 'the marker was cleared without another save')


# -- rebuild -------------------------------------------------------------------------

def declared():
    """{model: [denormalized field names]} of the installed models."""
    from django.apps import apps
    out = {}
    for m in apps.get_models(include_auto_created=True):
        if m._meta.proxy:
            continue
        for f in list(m._meta.fields) + list(m._meta.many_to_many):
            if hasattr(f, 'denorm'):
                out.setdefault(m, []).append(f.name)
    return out


def rebuilt(selected, run):
    with Log() as log:
        with quiet():
            run()
        expect(not dbx.dirty(), 'markers are left: %r', dbx.dirty())
        got = set(log.saves)
    want = set()
    for m in selected:
        for r in dbx.rows(m._meta.db_table):
            pk = r[m._meta.pk.column]
            want.add(key(m, pk))
    expect(not want - got, 'not recomputed: %r', sorted(want - got)[:5])
    expect(not got - want, 'recomputed although not selected: %r', sorted(got - want)[:5])


@scenario('rebuild of selected models', 'C06')
def rebuild_selected():
    from denorm import denorms
    dbx.ready()
    dbx.populate(0)
    decl = declared()
    dbx.sql('UPDATE %s SET shown = %%s WHERE id = 3' % dbx.qn('vapp_plain'), False)
    with quiet():
        denorms.rebuildall()
        denorms.rebuildall()
    for verbose in (False, True):
        rebuilt(decl, lambda: denorms.rebuildall(verbose=verbose))
        for a in ('vapp', 'vapp2'):
            rebuilt([m for m in decl if m._meta.app_label == a], lambda: denorms.rebuildall(verbose=verbose, model_name=a))
        rebuilt([], lambda: denorms.rebuildall(verbose=verbose, model_name='other'))
        rebuilt([], lambda: denorms.rebuildall(verbose=verbose, model_name='denorm'))
    for m in (V.Plain, V.Link1, V.Box, V.Owner, V.KFar, V.Band, V.Quote, V.MFar):
        name = m.__name__
        alike = [x for x in decl if x.__name__ == name]
        rebuilt(alike, lambda: denorms.rebuildall(model_name=name))
        rebuilt([m], lambda: denorms.rebuildall(model_name='vapp.' + name))
        rebuilt([], lambda: denorms.rebuildall(model_name='other.' + name))
        for other in (name[:-1], name.lower(), name.upper(), 'vapp.' + name.lower(), 'VAPP', ' ' + name):
            rebuilt([], lambda: denorms.rebuildall(model_name=other))
        for f in decl[m]:
            rebuilt([x for x in alike if f in decl[x]], lambda: denorms.rebuildall(model_name=name, field_name=f))
            rebuilt([m], lambda: denorms.rebuildall(model_name='vapp.' + name, field_name=f))
            rebuilt([x for x in decl if f in decl[x]], lambda: denorms.rebuildall(field_name=f))
        rebuilt([], lambda: denorms.rebuildall(model_name=name, field_name='nothing'))


@scenario('rebuild command', 'C06')
def rebuild_command():
    dbx.ready()
    rebuild_selected()
    rebuilt(declared(), lambda: call_command('denorm_rebuild', verbosity=0))
    rebuilt(declared(), lambda: call_command('denorm_rebuild', verbosity=2))


@scenario('rebuild corrects stale values', 'C06')
def rebuild_stale():
    from denorm import denorms
    dbx.ready()
    dbx.populate(0)
    dbx.sql("UPDATE vapp_plain SET loud = 'stale'")
    dbx.sql('UPDATE %s SET shown = %%s WHERE id = 2' % dbx.qn('vapp_plain'), False)
    dbx.clear_dirty()
    denorms.rebuildall(model_name='Plain')
    got = sorted(r['loud'] for r in dbx.rows('vapp_plain'))
    expect(got == ['v1!', 'v2!', 'v3!'], 'values after the rebuild: %r', got)
