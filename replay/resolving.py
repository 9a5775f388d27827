"""Which relation a dependency follows: models defined on the fly, on the real code."""
import itertools
import random
import re

from django.apps.registry import Apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from django.db.models.signals import class_prepared

import dbx
from scenarios import scenario, expect

DB = ('sqlite',)
KINDS = ('forward', 'backward', 'forward_m2m', 'backward_m2m')


class fresh_models(object):
    """Models defined inside are forgotten afterwards: the package looks at every field again whenever a model is defined."""

    def __enter__(self):
        self.before = list(class_prepared.receivers)

    def __exit__(self, *a):
        class_prepared.receivers[:] = self.before
        # receivers that are gone, some of the restored ones among them, must not be taken for new ones with their id
        class_prepared._dead_receivers = True
        class_prepared.sender_receivers_cache.clear()


class Pair(object):
    """The two models This and Other with the given relations, and a third one."""

    def __init__(self, relations, selfrel, order, target_text, spelling, name, kind, cache):
        # relations: list of (field name, what, direction); direction 0: on This, 1: on Other, 2/3: to the third model from This/Other
        self.relations, self.selfrel = relations, selfrel
        self.order, self.target_text, self.spelling, self.name, self.kind, self.cache = order, target_text, spelling, name, kind, cache

    def spell(self, n):
        made = self.made.get(n)
        if made is not None and self.spelling == 0:
            return made
        if n == self.making and self.spelling == 3:
            return 'self'
        return n if self.spelling in (0, 1, 3) else 'vapp.' + n

    def fields(self, model):
        out = {}
        for i, (fname, what, d) in enumerate(self.relations):
            src = 'This14' if d in (0, 2) or self.selfrel else 'Other14'
            if src != model:
                if what == 'generic' and d == 0 and model == 'Other14':
                    out['ct%d' % i] = models.ForeignKey(ContentType, null=True, related_name='+', on_delete=models.CASCADE)
                    out['oid%d' % i] = models.IntegerField(null=True, db_column='tok%d' % i)
                    out['gfk%d' % i] = GenericForeignKey('ct%d' % i, 'oid%d' % i)
                continue
            to = 'Third14' if d in (2, 3) else ('This14' if d == 1 or self.selfrel else 'Other14')
            self.making = model
            to = self.spell(to)
            if what in ('fk', 'o2o'):
                out[fname] = (models.ForeignKey if what == 'fk' else models.OneToOneField)(to, null=True, db_column='tok%d' % i, related_name='+', on_delete=models.CASCADE)
            elif what == 'm2m':
                out[fname] = models.ManyToManyField(to, db_table='tok%d' % i, related_name='+')
            elif d == 0 and not self.selfrel:
                out[fname] = GenericRelation(to, content_type_field='ct%d' % i, object_id_field='oid%d' % i)
        return out

    def declare(self):
        from denorm import CacheKeyField, denormalized, depend_on_related
        registry = Apps()
        self.made = {}

        def make(name):
            ns = {'__module__': 'vapp.models', 'Meta': type('Meta', (), {'apps': registry, 'app_label': 'vapp'})}
            ns.update(self.fields(name))
            if name == 'This14':
                far = 'This14' if self.selfrel else 'Other14'
                target = self.made.get(far)
                if target is None or self.target_text:
                    target = 'self' if self.selfrel and self.target_text == 2 else ('vapp.' + far if self.target_text == 3 else far)
                kw = {}
                if self.name is not None:
                    kw['foreign_key'] = self.name
                if self.kind is not None:
                    kw['type'] = self.kind
                if self.cache:
                    field = CacheKeyField()
                    field.depend_on_related(target, **kw)
                    ns['value'] = field
                else:
                    def value(self):
                        return 1
                    ns['value'] = denormalized(models.IntegerField, default=0)(depend_on_related(target, **kw)(value))
            self.made[name] = type(name, (models.Model,), ns)
        names = ['This14', 'Third14'] if self.selfrel else ['This14', 'Other14', 'Third14']
        for n in self.order:
            if n < len(names):
                make(names[n])
        this = self.made['This14']
        d = this._meta.get_field('value').denorm
        return d.get_triggers(None)

    def matching(self):
        out = []
        for i, (fname, what, d) in enumerate(self.relations):
            if d in (2, 3) or (what == 'generic' and (d == 1 or self.selfrel)):
                continue
            if self.name is not None and self.name not in ((fname, fname + '_id') if what in ('fk', 'o2o') else (fname,)):
                continue
            k = ('forward' if d == 0 or self.selfrel else 'backward') + ('' if what in ('fk', 'o2o') else '_m2m')
            kinds = [k]
            if self.selfrel and self.kind is not None:
                kinds.append(k.replace('forward', 'backward'))
            for k in kinds:
                if self.kind is None or self.kind == k:
                    out.append((i, k, what))
        return out

    def describe(self):
        return 'relations %s%s, defined in order %s, target %s, spelling %s, foreign_key=%r, type=%r' % (
            self.relations, ' to itself' if self.selfrel else '', self.order, self.target_text, self.spelling, self.name, self.kind)


def followed(triggers):
    """The relations that the actions of triggers mention."""
    toks, back = set(), set()
    for t in triggers:
        for a in t.actions:
            sql = a.sql()
            sql = sql[0] if isinstance(sql, tuple) else sql
            for m in re.finditer(r'(NEW|OLD)?\.?["`]?tok(\d+)\b', sql):
                toks.add(int(m.group(2)))
                if m.group(1):
                    back.add(int(m.group(2)))
        table = str(getattr(t, 'db_table', ''))
        if table.startswith('tok'):
            toks.add(int(table[3:]))
    return toks, back


def judge(p):
    exp = p.matching()
    error = trigs = None
    try:
        with fresh_models():
            trigs = p.declare()
    except Exception as e:
        error = e
    if len(exp) != 1:
        expect(error is not None, '%d relations match, but the declaration is accepted: %s', len(exp), p.describe())
        return
    expect(error is None, 'the only matching relation is rejected with %r: %s', error, p.describe())
    i, kind, what = exp[0]
    toks, back = followed(trigs)
    expect(toks == {i}, 'relation %d matches, followed %s: %s', i, sorted(toks), p.describe())
    if what in ('fk', 'o2o'):
        expect(bool(back) == (kind == 'backward'), 'the relation is followed in the wrong direction: %s', p.describe())


def relations(rnd, n):
    out = []
    names = ['rel', 'far', 'relat', 'rel_id2', 'other', 'x']
    used = set()
    for i in range(n):
        d = rnd.choice([0, 0, 0, 1, 1, 2, 3])
        f = rnd.choice(names)
        if (f, d % 2) in used:
            continue
        used.add((f, d % 2))
        out.append((f, rnd.choice(['fk', 'fk', 'o2o', 'm2m', 'generic']), d))
    return out


@scenario('a dependency follows the one matching relation or is rejected', 'C14', dbs=DB)
def resolving():
    dbx.ready(triggers=False)
    n = 0
    for seed in range(700):
        rnd = random.Random(seed)
        selfrel = rnd.random() < 0.25
        rels = relations(rnd, rnd.choice([0, 1, 1, 2, 2, 3]))
        if selfrel:
            seen, kept = set(), []
            for f, w, d in rels:
                if f not in seen and w != 'generic' and d in (0, 2):
                    seen.add(f)
                    kept.append((f, w, d))
            rels = kept
        order = list(rnd.choice(list(itertools.permutations(range(3)))))
        name = None
        if rnd.random() < 0.6:
            name = rnd.choice([f for f, _, _ in rels] + [f + '_id' for f, w, _ in rels if w in ('fk', 'o2o')] + ['rel', 'missing'])
        kind = rnd.choice([None, None, None, 'forward', 'backward', 'forward_m2m', 'backward_m2m', 'sideways'])
        p = Pair(rels, selfrel, order, rnd.choice([0, 1, 2, 3]), rnd.choice([0, 0, 1, 2, 3]), name, kind, rnd.random() < 0.3)
        judge(p)
        n += 1
    yield 'a dependency follows the one matching relation or is rejected', True, n, ''


@scenario('a dependency on a model that never appears is rejected', 'C14', dbs=DB)
def missing():
    dbx.ready(triggers=False)
    n = 0
    for kind in (None, 'sideways') + KINDS:
        for cache in (False, True):
            from denorm import CacheKeyField, denormalized, depend_on_related
            registry = Apps()
            ns = {'__module__': 'vapp.models', 'Meta': type('Meta', (), {'apps': registry, 'app_label': 'vapp'})}
            kw = {'type': kind} if kind else {}
            if cache:
                f = ns['value'] = CacheKeyField()
                f.depend_on_related('Never14', **kw)
            else:
                def value(self):
                    return 1
                ns['value'] = denormalized(models.IntegerField, default=0)(depend_on_related('Never14', **kw)(value))
            error = None
            try:
                with fresh_models():
                    m = type('This14', (models.Model,), ns)
                    d = m._meta.get_field('value').denorm
                    trigs = d.get_triggers(None)
            except Exception as e:
                error = e
            expect(error is not None, 'a dependency of type %r on a missing model is accepted, triggers: %s', kind, error or trigs)
            n += 1
    yield 'a dependency on a model that never appears is rejected', True, n, ''
