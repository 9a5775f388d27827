"""Contracts of what fields do when an instance is saved or loaded, and of their descriptions.

The steps of Model.save and of loading an instance are Django's and assumed: which
methods of the field and which signal handlers are called, in which order.
"""
import z3

from pydv.core import SBool, SInt, SStr, Unsupported, ctx, mkstr, str_eq, symseq, zbool
from pydv.djstub import World, ident, nat, text
from pydv.interp import Cls, Lazy, Obj, OBJECT, PyExc, Unknown, throw
from .markers import guarded
from .schema import conj, leaves

ASSUMED_SAVE = [
    'Model.save calls pre_save(instance, add) of every column it writes and stores what it returns',
    'a denormalized function gives the same value for the same instance at the same moment',
    'assigning a related object sets the key column and remembers the object; assigning the key does not (django 2.0)',
    'foreign keys refer to the primary key',
]
ASSUMED_M2M = [
    'Model.save sends pre_save to the handlers connected for the class of the instance or for all, writes the row, then sends post_save',
    'the manager of a many-to-many field works only on rows that are stored; set() makes the links exactly the given objects',
    'link tables are created by Django (no through model of the project)',
]
ASSUMED_AGG = [
    'Model.save tries an update with pre_save(instance, False) unless the key is not set, and inserts with pre_save(instance, True) if there was no row',
    'F(name) in an update stands for the value the column has when the statement is executed',
    'without routers of the project the database of the instance is the one it was loaded from',
]
ASSUMED_CACHE = [
    'a cache keeps any subset of what was stored, and gives None or the default for the rest',
    'a None cannot be told from a missing entry',
    'loading assigns the column values to the attributes; the primary key is declared before cached attributes',
]
ASSUMED_DECONSTRUCT = [
    'Field.deconstruct of Django: name, import path of the class, and the arguments that reproduce the field',
    'a field class given to denormalized() follows that protocol',
]


def choose(c, options, name):
    return options[c.choose(len(options), name)]


def anything(c, w, tag):
    """Any value: nothing, a number, a text, a boolean or an object of its own."""
    kind = choose(c, ('none', 'number', 'text', 'truth', 'object'), 'kind of ' + tag)
    if kind == 'none':
        return None
    if kind == 'number':
        return c.int(tag)
    if kind == 'text':
        return text(tag)
    if kind == 'truth':
        return c.bool(tag)
    b = SBool(z3.Bool('true_' + tag))
    return Obj(Cls('Value', [OBJECT], {'__bool__': nat(lambda s: b), '__len__': nat(lambda s: c.int('len_' + tag))}, native=True), {}, label=tag)


def text_eq(a, b):
    return z3.BoolVal(a == b) if isinstance(a, str) and isinstance(b, str) else zbool(str_eq(a, b))


def same(I, a, b):
    """A condition for two values being the same."""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None:
        return z3.BoolVal(False)
    kinds = [isinstance(a, (str, SStr)), isinstance(b, (str, SStr))]
    if kinds[0] != kinds[1]:
        return z3.BoolVal(False)
    return zbool(I.eq(a, b))


class Fields(World):
    """Fields contributed to a model under literal names."""

    def contribute(self, f, cls_, name, *a, **k):
        c = ctx()
        c.effect('contribute', f, cls_, name, a, k)
        C = self.C
        c.touch(f.attrs)
        A = f.attrs
        args, kw = A.get('ctor_', ((), {}))
        col = 'column_of_' + name
        A.update(name=name, attname=name, column=col, model=cls_, is_relation=False, concrete=True, primary_key=False, remote_field=None,
                 one_to_one=None, many_to_one=None, many_to_many=None, one_to_many=None, related_model=None, auto_created=False,
                 get_attname=nat(lambda: A['attname']), get_attname_column=nat(lambda: (A['attname'], col)))
        if f.cls.issub(C['ManyToManyField']):
            remote = args[0] if args else kw['to']
            g = self.m2m(cls_, name, remote)
            for n, v in g.attrs.items():
                A[n] = v
            f.absent.update(n for n in g.absent if n not in A)
            f.tables_ = g.tables_
            A.update(name=name, attname=name)
            c.touch(cls_.m2m_)
            cls_.m2m_.append(f)
            return
        if f.cls.issub(C['ForeignKey']):
            remote = args[0] if args else kw['to']
            one = f.cls.issub(C['OneToOneField'])
            A.update(attname=name + '_id', is_relation=True, many_to_one=not one, one_to_one=one, one_to_many=False, many_to_many=False,
                     related_model=remote, remote_field=Obj(C['OneToOneRel' if one else 'ManyToOneRel'], {'model': remote, 'field': f}, label='rel'),
                     target_field=Lazy(lambda: remote.pk_), related_field=Lazy(lambda: remote.pk_), get_cache_name=nat(lambda: name))

            def cache(i):
                return i.attrs['_state'].attrs['fields_cache']

            def get_cached(i, default=f):
                if name in cache(i):
                    return cache(i)[name]
                if default is f:
                    throw('KeyError', name)
                return default

            def put(i, v):
                c.touch(cache(i))
                cache(i)[name] = v

            def drop(i):
                c.touch(cache(i))
                if name not in cache(i):
                    throw('KeyError', name)
                del cache(i)[name]
            A.update(is_cached=nat(lambda i: name in cache(i)), get_cached_value=nat(get_cached), set_cached_value=nat(put),
                     delete_cached_value=nat(drop))

            def dset(d, i, v):
                if v is not None and not (isinstance(v, Obj) and v.cls.issub(remote)):
                    throw('ValueError', 'Cannot assign: must be an instance')
                c.touch(i.attrs)
                i.attrs[name + '_id'] = None if v is None else v.attrs['pk']
                put(i, v)

            def dget(d, i, cls=None):
                if name in cache(i):
                    return cache(i)[name]
                k = i.attrs[name + '_id']
                if k is None:
                    return None
                o = self.instance(remote, k, 'looked up')
                put(i, o)
                return o
            c.touch(cls_.ns)
            cls_.ns[name] = Obj(Cls('ForwardDescriptor', [OBJECT], {'__set__': nat(dset), '__get__': nat(dget)}, native=True), {}, label='descriptor')
        f.absent.update(('related', 'rel', 'm2m_db_table'))
        if not A['is_relation']:
            f.absent.update(('related_field', 'target_field'))
        c.touch(cls_.fields_)
        cls_.fields_.append(f)

    def instance(self, model, pk, label, adding=False, db='default'):
        state = Obj(self.C['Plain'], {'adding': adding, 'db': db, 'fields_cache': {}}, label='state')
        return Obj(model, {'pk': pk, '_state': state}, label=label)

    def declare(self, cls, func, name, model, args=(), options=None, prepare=True):
        """name = denormalized(cls, ...)(func) in the body of the model."""
        I = self.interp
        deco = I.call(I.getattr(I.load('denorm.fields'), 'denormalized'), (self.C[cls],) + tuple(args), options or {})
        f = I.call(deco, (func,))
        self.add(f, model, name, prepare)
        return f

    def add(self, f, model, name, prepare=True):
        I = self.interp
        mark = len(ctx().effects)
        I.call(I.getattr(f, 'contribute_to_class'), (model, name))
        if prepare:
            for e in ctx().effects[mark:]:
                if e[0] == 'connect' and e[1] == 'class_prepared' and e[3] in (None, model):
                    I.call(e[2], (), {'sender': model})


# -- C15 ------------------------------------------------------------------------------

def value_unit(cls):
    """denormalized().pre_save: the value computed now is stored and shown."""
    def harness(c):
        w = Fields('sqlite3', {})
        w.settings.absent.update(('DENORM_BULK_UNSAFE_TRIGGERS',))
        I = w.start()
        p = 'save of a denormalized %s: ' % cls
        this, remote = w.model('This'), w.model('Remote')
        special = w.model('Special')
        special.mro.insert(1, remote)
        rel = cls in ('ForeignKey', 'OneToOneField')
        box = {}

        def func(*a):
            c.effect('func', a)
            return box['value']
        fn = nat(func)
        fn.attrs['__name__'] = 'value'

        def compute(tag, full=True):
            if not rel:
                return anything(c, w, tag) if full else c.int(tag)
            kind = choose(c, ('object', 'key', 'none', 'special') if full else ('key',), 'kind of ' + tag)
            if kind == 'none':
                return None
            if kind == 'key':
                return c.int(tag)
            return w.instance(remote if kind == 'object' else special, c.int(tag), tag)

        def go():
            f = w.declare(cls, fn, 'thefield', this, (remote,) if rel else (), {'null': True})
            att = 'thefield_id' if rel else 'thefield'

            def save(inst, v, add, what):
                box['value'] = v
                mark = len(c.effects)
                r = I.call(I.getattr(f, 'pre_save'), (inst, add))
                want = v.attrs['pk'] if rel and isinstance(v, Obj) else v
                calls = [e[1] for e in c.effects[mark:] if e[0] == 'func']
                c.prove(p + 'the function is asked about the instance', len(calls) >= 1 and all(len(a) == 1 and a[0] is inst for a in calls))
                d = '%s: computed %r, returned %r' % (what, v, r)
                c.prove(p + 'the computed value is stored', same(I, r, want), d)
                shown = inst.attrs.get(att)
                c.prove(p + 'the instance shows the stored value', same(I, shown, want), d + ', shown %r' % (shown,))
                if rel:
                    o = I.getattr(inst, 'thefield')
                    if want is None:
                        c.prove(p + 'the instance shows no related object', o is None, d)
                    else:
                        c.prove(p + 'the instance shows the related object it refers to',
                                same(I, o.attrs['pk'], want) if o is not None else z3.BoolVal(False), d + ', shown %r' % (o,))
            if c.choose(2, 'another instance is saved before') == 1:
                first = w.instance(this, c.int('pk0'), 'another instance')
                first.attrs[att] = c.int('before0')
                save(first, compute('value0', False), c.bool('add0'), 'another instance')
            inst = w.instance(this, c.int('pk'), 'instance')
            inst.attrs[att] = choose(c, (None, c.int('before')), 'value before')
            if rel:
                k = c.choose(3, 'object loaded before')
                if k:
                    inst.attrs['_state'].attrs['fields_cache']['thefield'] = w.instance(remote, c.int('before_pk'), 'loaded before') if k == 1 else None
            save(inst, compute('value'), c.bool('add'), 'instance')
            # changed by hand, and saved again
            if rel and c.choose(2, 'an object is assigned') == 1:
                I.setattr(inst, 'thefield', w.instance(remote, c.int('assigned_pk'), 'assigned'))
            else:
                inst.attrs[att] = c.int('assigned')
            save(inst, compute('value2', False), False, 'instance saved again')
            c.cover(p + 'reached')
        guarded(c, p, go)
    return harness


# -- C16 ------------------------------------------------------------------------------

class Linked(Fields):
    """Instances with many-to-many relations, and Model.save as far as the handlers see it."""

    def start(self):
        I = World.start(self)
        self.funcs = {}
        return I

    def denormed(self, model, n, remote):
        f = self.m2m(model, n, remote)
        values = symseq('content_' + n, lambda x: self.instance(remote, SInt(z3.Int('pk_' + x)), x))
        f.values_ = values

        def func(i):
            ctx().effect('func', f, i)
            return list(values)
        f.absent.discard('denorm')
        f.attrs['denorm'] = Obj(self.C['Plain'], {'func': nat(func), 'model': model, 'fieldname': f.attrs['name']}, label='denorm of ' + n)
        return f

    def relation(self, inst, f):
        """The manager of a many-to-many field of an instance."""
        c = ctx()

        def op(what):
            def run(*objs, **kw):
                if what in ('set', 'clear', 'add', 'remove'):
                    c.effect('links', f, inst, what, objs[0] if what == 'set' else list(objs), inst.stored_)
                if inst.attrs['pk'] is None or not self.valid(inst):
                    throw('ValueError', 'the instance needs to be stored')
            return nat(run)
        return Obj(self.C['Manager'], dict((n, op(n)) for n in ('set', 'clear', 'add', 'remove')), label='links')

    def valid(self, inst):
        """Is there a row to link to, and does the instance know its database?"""
        return ctx().branch(SBool(inst.stored_)) and inst.attrs['_state'].attrs['db'] is not None


def by_name(fields, name):
    k = name.key() if isinstance(name, SStr) else name
    for conds, f in leaves(fields):
        n = f.attrs['attname']
        if (n.key() if isinstance(n, SStr) else n) == k:
            return f
    return None


def links_unit(saved='own'):
    """many_to_many_pre_save, many_to_many_post_save and how they are connected."""
    def harness(c):
        w = Linked('sqlite3', {})
        w.settings.absent.update(('DENORM_BULK_UNSAFE_TRIGGERS',))
        I = w.start()
        p = 'many-to-many/%s: ' % saved
        this, remote = w.model('This'), w.model('Remote')
        mine = symseq('values', lambda x: w.instance(remote, SInt(z3.Int('pk_' + x)), x))

        def go():
            # any number of relations of both kinds, around one that is really declared
            this.m2m_ += symseq('plain1', lambda n: w.m2m(this, n, remote))
            box = []

            def func(i):
                c.effect('func', box[0], i)
                return list(mine)
            f = I.call(I.call(I.getattr(I.load('denorm.fields'), 'denormalized'), (w.C['ManyToManyField'], remote)), (nat(func),))
            box.append(f)
            f.values_ = mine
            w.add(f, this, 'really', prepare=False)
            this.m2m_ += symseq('denorm1', lambda n: w.denormed(this, n, remote))
            this.m2m_ += symseq('plain2', lambda n: w.m2m(this, n, remote))
            model = this
            if saved == 'plain':
                model = w.model('Plain')
                model.m2m_ += symseq('plain3', lambda n: w.m2m(model, n, remote))
            elif saved == 'proxy':
                model = w.model('Proxy', pk=False, proxy=True)
            elif saved == 'child':
                model = w.model('Child', pk=False)
            if saved in ('proxy', 'child'):
                model.pk_ = this.pk_
                model.mro.insert(1, this)
                meta = model.ns['_meta'].attrs
                meta['concrete_model'] = this if saved == 'proxy' else model
                own = symseq('own_plain', lambda n: w.m2m(model, n, remote)) + symseq('own_denorm', lambda n: w.denormed(model, n, remote)) if saved == 'child' else []
                meta['local_many_to_many'] = Lazy(lambda: list(own))
                meta['many_to_many'] = Lazy(lambda: tuple(this.m2m_ + own))
                meta['parents'] = {this: None}
            fields = list(I.iterate(I.getattr(model.ns['_meta'], 'many_to_many')))

            def byname(I_, o, name, *default):
                g = by_name(fields, name)
                if g is None:
                    raise Unsupported('attribute %r of an instance' % (name,))
                return w.relation(o, g)
            model.ns['__symgetattr__'] = byname
            model.ns['really'] = Obj(Cls('M2MDescriptor', [OBJECT], {'__get__': nat(lambda d, o, cls=None: w.relation(o, f)),
                                                                    '__set__': nat(lambda d, o, v: throw('TypeError', 'Direct assignment is prohibited'))},
                                         native=True), {}, label='really')
            how = choose(c, ('new', 'assigned', 'assigned over a row', 'loaded'), 'instance')
            using = choose(c, ('default', ident('alias')), 'database')
            inst = w.instance(model, None if how == 'new' else c.int('pk'), 'instance', adding=how != 'loaded', db=using if how == 'loaded' else None)
            inst.stored_ = z3.BoolVal(how in ('assigned over a row', 'loaded'))
            saves = []

            def qs(alias, narrowed=False):
                o = Obj(w.C['QuerySet'], {}, label='query')

                def narrow(*a, **k):
                    ok = not a and len(k) == 1 and (list(k)[0] in ('pk', 'pk__exact')) and list(k.values())[0] is inst.attrs['pk']
                    if not ok:
                        raise Unsupported('filter %r' % (k,))
                    return qs(alias, True)

                def exists():
                    if not narrowed:
                        raise Unsupported('exists() of all rows')
                    here = alias is using or (isinstance(alias, str) and isinstance(using, str) and alias == using)
                    if here:
                        return SBool(inst.stored_)
                    return SBool(z3.Bool('stored_elsewhere'))
                o.attrs.update(using=nat(lambda a=None: qs(a, narrowed)), filter=nat(narrow), exists=nat(exists), all=nat(lambda: qs(alias, narrowed)))
                return o
            model.ns['_base_manager'] = Lazy(lambda: qs('default'))
            this.ns['_base_manager'] = model.ns['_base_manager']

            def send(signal, **kw):
                done = []
                for e in leaves(c.effects):
                    e = e[1]
                    if e[0] == 'connect' and e[1] == signal and (e[3] is None or e[3] is model):
                        if any(x is e[2] for x in done):
                            continue
                        done.append(e[2])
                        I.call(e[2], (), dict(kw, sender=model, signal=Unknown('signal'), instance=inst, raw=False, using=using, update_fields=None))

            def save(*a, **k):
                if len(saves) > 3:
                    c.fail(p + 'saving ends', 'the instance is saved over and over')
                saves.append(1)
                send('pre_save')
                created = not c.branch(SBool(inst.stored_))
                inst.stored_ = z3.BoolVal(True)
                if inst.attrs['pk'] is None:
                    inst.attrs['pk'] = c.int('new_pk')
                inst.attrs['_state'].attrs.update(adding=False, db=using)
                send('post_save', created=created)
            model.ns['save'] = nat(lambda s, *a, **k: save())
            save()
            links = [(cs, e) for cs, e in leaves(c.effects) if e[0] == 'links']
            for cs, g in leaves(fields):
                mine_ = [(cs2, e) for cs2, e in links if e[1] is g]
                denorm = hasattr(g, 'values_')
                d = 'instance %s' % how
                if not denorm:
                    c.prove(p + 'relations that are not denormalized are left alone', z3.Not(z3.Or([conj(cs2) for cs2, e in mine_] + [z3.BoolVal(False)])), d)
                    continue
                # the content after the last operation, as a list of conditions under which it is right
                state = None            # unknown previous content
                ok = z3.BoolVal(False)
                for cs2, e in mine_:
                    if any(not z3.is_true(x) for x in cs2) and not all(any(x.eq(y) for y in cs) for x in cs2):
                        raise Unsupported('links of some relations only')
                    if e[3] == 'set':
                        state = list(I.iterate(e[4]))
                    elif e[3] == 'clear':
                        state = []
                    elif e[3] == 'add' and state is not None:
                        state = state + list(e[4])
                    elif e[3] == 'remove' and state is not None:
                        raise Unsupported('remove')
                c.prove(p + 'each denormalized relation is made anew', state is not None, '%s: %s' % (d, [e[3] for _, e in mine_]))
                if state is not None:
                    want = leaves(g.values_)
                    got = leaves(state)
                    for (a, b, nm) in ((want, got, 'every object the function returned is linked'), (got, want, 'no other object is linked')):
                        for cs1, x in a:
                            hit = [conj(cs2) for cs2, y in b if y is x]
                            c.prove(p + nm, z3.Implies(conj(cs1), z3.Or(hit) if hit else z3.BoolVal(False)), d)
            calls = [e for _, e in leaves(c.effects) if e[0] == 'func']
            c.prove(p + 'the functions are asked about the instance', all(e[2] is inst for e in calls))
            c.cover(p + how)
        guarded(c, p, go)
    return harness


# -- C09 ------------------------------------------------------------------------------

def aggregate_unit(cls):
    """AggregateField.pre_save within Model.save."""
    def harness(c):
        w = Fields('sqlite3', {})
        I = w.start()
        p = 'save of a %s: ' % cls
        this, heir = w.model('This'), w.model('Heir')
        aliases = ['default', ident('alias')]
        c.assume(z3.Not(zbool(I.eq(aliases[1], 'default'))))
        # per database: is there a row with the key of the instance, is it hidden by the default manager, and what has it
        rows = dict((i, {'there': z3.Bool('there%d' % i), 'hidden': z3.Bool('hidden%d' % i), 'now': SInt(z3.Int('now%d' % i)), 'then': SInt(z3.Int('then%d' % i))})
                    for i in (0, 1))

        def go():
            extra = {'field': 'number'} if cls == 'SumField' else {}
            f = I.call(I.getattr(I.load('denorm.fields'), cls), ('items',), extra)
            g = w.copy(f)
            for x, m in ((f, this), (g, heir)) if c.choose(2, 'order') == 0 else ((g, heir), (f, this)):
                w.add(x, m, 'thefield', prepare=False)
            how = choose(c, ('new', 'assigned', 'loaded'), 'instance')
            target = c.choose(2, 'database written')
            home = None if how != 'loaded' else c.choose(2, 'database it comes from')
            inst = w.instance(this, None if how == 'new' else c.int('pk'), 'instance', adding=how != 'loaded', db=None if home is None else aliases[home])
            inst.attrs['thefield'] = choose(c, (None, c.int('before')), 'value before')
            # where the package can know the instance to be
            known = (0 if home is None else home) == target
            row = rows[target]

            def where(alias):
                if alias is None:
                    alias = 'default'
                for i, a in enumerate(aliases):
                    if a is alias or (isinstance(a, str) and isinstance(alias, str) and a == alias):
                        return i
                raise Unsupported('database %r' % (alias,))

            def qs(db, hiding, narrowed=False, cols=None, flat=False):
                o = Obj(w.C['QuerySet'], {}, label='query')
                r = rows[db]

                def there():
                    if not narrowed:
                        raise Unsupported('all rows')
                    return c.branch(SBool(z3.And(r['there'], z3.Not(r['hidden'])) if hiding else r['there']))

                def value():
                    if cols is None:
                        x = w.instance(this, inst.attrs['pk'], 'another copy', db=aliases[db])
                        x.attrs['thefield'] = r['now']
                        return x
                    if cols == 'dict':
                        return {'thefield': r['now']}
                    return r['now'] if flat else (r['now'],)

                def narrow(*a, **k):
                    if not k and not a:
                        return qs(db, hiding, narrowed, cols, flat)
                    ok = not a and list(k) in (['pk'], ['pk__exact'], ['pk__in']) and (k.get('pk', k.get('pk__exact')) is inst.attrs['pk'] or
                                                                                    k.get('pk__in') == [inst.attrs['pk']])
                    if not ok:
                        raise Unsupported('filter %r' % (k,))
                    return qs(db, hiding, True, cols, flat)

                def check(names):
                    for n in names:
                        if n != 'thefield':
                            throw('ValueError', 'Cannot resolve keyword')

                def values_list(*names, **k):
                    check(names)
                    if len(names) != 1:
                        raise Unsupported('values_list of several columns')
                    return qs(db, hiding, narrowed, 'list', k.get('flat', False))

                def values(*names):
                    check(names)
                    return qs(db, hiding, narrowed, 'dict')

                def get(*a, **k):
                    q = narrow(*a, **k)
                    return q.get_()

                def get_():
                    if there():
                        return value()
                    raise PyExc(I.call(this.ns['DoesNotExist'], ('no row',)))
                o.get_ = get_
                o.attrs.update(using=nat(lambda a=None: qs(where(a), hiding, narrowed, cols, flat)), filter=nat(narrow), all=nat(lambda: qs(db, hiding, narrowed, cols, flat)),
                               values_list=nat(values_list), values=nat(values), first=nat(lambda: value() if there() else None),
                               last=nat(lambda: value() if there() else None), get=nat(get), exists=nat(lambda: SBool(z3.And(r['there'], z3.Not(r['hidden'])) if hiding else r['there'])),
                               only=nat(lambda *a: qs(db, hiding, narrowed, cols, flat)), order_by=nat(lambda *a: qs(db, hiding, narrowed, cols, flat)),
                               db_manager=nat(lambda a=None: qs(where(a), hiding)))
                o.rows_ = lambda: [value()] if there() else []
                return o
            w.C['QuerySet'].ns['__iter__'] = nat(lambda s: I.iterate(s.rows_()))
            w.C['QuerySet'].ns['__getitem__'] = nat(lambda s, i: at(s, i))
            w.C['QuerySet'].ns['__len__'] = nat(lambda s: len(s.rows_()))

            def at(s, i):
                r = s.rows_()
                if isinstance(i, slice):
                    return r[i]
                if i >= len(r):
                    throw('IndexError', 'list index out of range')
                return r[i]
            this.ns['_base_manager'] = Lazy(lambda: qs(0, False))
            this.ns['_default_manager'] = this.ns['objects'] = Lazy(lambda: qs(0, True))

            def call(add):
                return I.call(I.getattr(f, 'pre_save'), (inst, add))

            def zero(r, what):
                c.prove(p + 'a new row starts at zero', same(I, r, 0), '%s: %r' % (what, r))
                c.prove(p + 'a new instance shows zero', same(I, inst.attrs['thefield'], 0), '%s: %r' % (what, inst.attrs['thefield']))
            d = 'instance %s' % how
            if how == 'new':
                zero(call(True), d)
            else:
                r = call(False)
                if c.branch(SBool(row['there'])):
                    if isinstance(r, Obj) and r.cls.issub(w.C['F']):
                        c.prove(p + 'the column keeps its value', I.eq(r.attrs['name'], 'thefield') is True, '%s: written from %r' % (d, r.attrs['name']))
                    else:
                        c.prove(p + 'the column keeps its value', same(I, r, row['now']), '%s: %r' % (d, r))
                        # the value may have changed between reading and writing
                        c.prove(p + 'a change during the save is kept', same(I, r, row['then']), '%s: %r' % (d, r))
                    if known:
                        c.prove(p + 'the instance shows the value of the database', same(I, inst.attrs['thefield'], row['now']), d)
                    c.cover(p + 'updated')
                else:
                    zero(call(True), d + ', no row')
                    c.cover(p + 'inserted')
            c.cover(p + how)
        guarded(c, p, go)
    return harness


# -- C11 ------------------------------------------------------------------------------

def cached_unit():
    """CachedField and CacheWrapper: loading instances with any keys and any content of the cache."""
    def harness(c):
        w = Fields('sqlite3', {})
        I = w.start()
        p = 'cached attribute: '
        this = w.model('This')
        store = []          # (text, value) stored during the run

        def texts_equal(a, b):
            return c.branch(SBool(text_eq(a, b)))

        def lookup(k):
            for t, v in reversed(store):
                if texts_equal(t, k):
                    return (t, v) if c.choose(2, 'evicted') == 0 else None
            n = c.choose(2, 'there before')
            return (k, Obj(VAL, {}, label='stored before')) if n == 0 else None
        VAL = Cls('Value', [OBJECT], {'__bool__': nat(lambda s: SBool(z3.Bool('true_' + s.label.replace(' ', '_')))), '__eq__': nat(lambda s, o: s is o)}, native=True)

        def get(k, default=None, version=None):
            k = I.str(k)
            hit = lookup(k)
            c.effect('get', k, hit)
            return default if hit is None else hit[1]

        def put(k, v, timeout=300, version=None):
            k = I.str(k)
            c.effect('put', k, v, timeout)
            store.append((k, v))

        def add(k, v, timeout=300, version=None):
            k = I.str(k)
            hit = lookup(k)
            c.effect('get', k, hit)
            if hit is None:
                put(k, v, timeout)
            return hit is None

        def get_or_set(k, default, timeout=300, version=None):
            v = get(k)
            if v is None:
                v = I.call(default, ()) if not isinstance(default, Obj) or default.cls.lookup('__call__') else default
                put(k, v, timeout)
            return v
        cache = Obj(w.C['Plain'], {'get': nat(get), 'set': nat(put), 'add': nat(add), 'get_or_set': nat(get_or_set)}, label='cache')

        def go():
            count = [0]

            def func(*a):
                count[0] += 1
                v = None if c.choose(2, 'the function gives nothing') == 1 else Obj(VAL, {}, label='computed %d' % count[0])
                c.effect('func', a, v)
                return v
            fn = nat(func)
            fn.attrs['depend'] = []
            f = I.call(I.call(I.getattr(I.load('denorm.fields'), 'cached'), (cache,)), (fn,))
            w.add(f, this, 'thefield', prepare=False)
            seen = []
            for turn in (1, 2):
                inst = w.instance(this, c.int('pk%d' % turn), 'instance %d' % turn)
                k = c.int('key%d' % turn)
                mark = len(c.effects)
                I.setattr(inst, 'thefield', k)
                es = c.effects[mark:]
                shown = I.getattr(inst, 'thefield')
                gets = [e for e in es if e[0] == 'get']
                puts = [e for e in es if e[0] == 'put']
                calls = [e for e in es if e[0] == 'func']
                hits = [e for e in gets if e[2] is not None]
                d = 'load %d: %s' % (turn, [e[0] for e in es])
                c.prove(p + 'the cache is asked', len(gets) >= 1, d)
                keys = [e[1] for e in gets + puts]
                if not gets:
                    return
                if hits and not (calls and all(e[2][1] is None for e in hits)):
                    c.prove(p + 'the stored value is shown', any(shown is e[2][1] for e in hits), d + ' %r' % (shown,))
                else:
                    c.prove(p + 'the value is computed from the instance', len(calls) >= 1 and all(len(e[1]) == 1 and e[1][0] is inst for e in calls), d)
                    if not calls:
                        return
                    c.prove(p + 'the computed value is shown', any(shown is e[2] for e in calls), d + ' %r' % (shown,))
                    if shown is not None:
                        c.prove(p + 'the computed value is stored', any(e[2] is shown for e in puts), d)
                for e in puts:
                    c.prove(p + 'only the shown value is stored', e[2] is shown, d)
                    t = e[3]
                    c.prove(p + 'it is stored to stay', t is None or (isinstance(t, int) and t > 0) if not isinstance(t, SInt) else zbool(I.eq(t, 0)) == False, '%r' % (t,))
                for x in keys[1:]:
                    c.prove(p + 'it is looked up and stored under one name', text_eq(keys[0], x), d)
                seen.append((k, keys[0]))
            (k1, t1), (k2, t2) = seen
            eq = text_eq(t1, t2)
            ke = zbool(I.eq(k1, k2))
            c.prove(p + 'different keys have different entries', z3.Implies(eq, ke), '%r %r' % (t1, t2))
            c.prove(p + 'the same key has the same entry', z3.Implies(ke, eq), '%r %r' % (t1, t2))
            c.cover(p + 'reached')
        guarded(c, p, go)
    return harness


def uncached_unit():
    """The models of migrations have no function and no cache: loading works all the same."""
    def harness(c):
        w = Fields('sqlite3', {})
        I = w.start()
        p = 'cached attribute in migrations: '
        this = w.model('This')

        def go():
            f = I.call(I.getattr(I.load('denorm.fields'), 'CachedField'), ())
            w.add(f, this, 'thefield', prepare=False)
            inst = w.instance(this, c.int('pk'), 'instance')
            k = c.int('key')
            I.setattr(inst, 'thefield', k)
            c.prove(p + 'an instance can be loaded', 'thefield' in inst.attrs)
            c.cover(p + 'reached')
        guarded(c, p, go)
    return harness


# -- C19 ------------------------------------------------------------------------------

OPTIONS = ('verbose_name', 'max_length', 'unique', 'blank', 'null', 'db_index', 'default', 'unique_for_date', 'unique_for_month', 'unique_for_year',
           'choices', 'help_text', 'db_column', 'db_tablespace', 'auto_created', 'validators', 'error_messages', 'to', 'on_delete', 'related_name',
           'related_query_name', 'limit_choices_to', 'to_field', 'db_constraint', 'db_table', 'through', 'through_fields', 'symmetrical', 'swappable',
           'max_digits', 'decimal_places', 'auto_now', 'auto_now_add', 'upload_to', 'storage', 'protocol', 'unpack_ipv4', 'allow_unicode', 'path', 'match',
           'recursive', 'allow_files', 'allow_folders', 'some_option_of_a_custom_field', 'func', 'name', 'DBField')


class Described(Fields):
    """Field.deconstruct: the arguments of the constructor, and the class as an import path."""

    def start(self):
        I = World.start(self)

        def path(cls):
            return cls.path_ if hasattr(cls, 'path_') else mkstr([cls.module or 'module', '.<locals>.' if not cls.native else '.', cls.name])

        def deconstruct(f):
            a, k = f.attrs['ctor_']
            return (f.attrs.get('name'), path(f.cls), list(a), dict(k))

        def clone(f):
            n, p, a, k = I.call(I.getattr(f, 'deconstruct'), ())
            return I.call(f.cls, tuple(I.iterate(a)), k)
        self.C['Field'].ns['deconstruct'] = nat(deconstruct)
        self.C['Field'].ns['clone'] = nat(clone)
        return I


def same_options(c, I, name, got, want, d):
    got, want = dict(got), dict(want)
    for x in (got, want):
        x.pop('editable', None)
    c.prove(name, set(got) == set(want) and all(got[k] is want[k] or I.eq(got[k], want[k]) is True for k in want),
            '%s: %s instead of %s' % (d, sorted(got), sorted(want)))


def denorm_description_unit():
    """denormalized().deconstruct and clone, for any field class and options."""
    def harness(c):
        w = Described('sqlite3', {})
        w.settings.absent.update(('DENORM_BULK_UNSAFE_TRIGGERS',))
        I = w.start()
        p = 'description of a denormalized field: '
        base = choose(c, ('CharField', 'ForeignKey', 'ManyToManyField', 'Custom'), 'class')
        if base == 'Custom':
            w.C['Custom'] = Cls('Custom', [w.C['Field']], {}, native=True, module='project.fields')
            w.C['Custom'].ns['__init__'] = w.C['Field'].ns['__init__']
        cls = w.C[base]
        cls.path_ = ident('path_of_the_field_class')
        n = c.choose(3, 'positional arguments')
        args = tuple(Obj(w.C['Plain'], {}, label='argument %d' % i) for i in range(n))
        which = c.choose(3, 'options')
        names = () if which == 0 else OPTIONS if which == 1 else (OPTIONS[c.choose(len(OPTIONS), 'option')],)
        names = [x for x in names if x not in ('func', 'DBField')]
        options = dict((k, Obj(w.C['Plain'], {}, label='value of ' + k)) for k in names)

        def go():
            given = dict(options)
            if c.choose(2, 'skip') == 1:
                given['skip'] = (ident('skipped'),)
            fn = nat(lambda i: None)
            f = I.call(I.call(I.getattr(I.load('denorm.fields'), 'denormalized'), (cls,) + args, given), (fn,))
            c.prove(p + 'the column is created with all its options', same_ctor(I, f, args, options), '%r' % (f.attrs.get('ctor_'),))
            nm = ident('name')
            f.attrs['name'] = nm
            for turn in (1, 2):
                r = I.call(I.getattr(f, 'deconstruct'), ())
                name, path, a, k = list(I.iterate(r))
                c.prove(p + 'the name is kept', name is nm or I.eq(name, nm) is True)
                c.prove(p + 'the class is the one it was declared with', I.eq(path, cls.path_) is True, '%r' % (path,))
                c.prove(p + 'positional arguments are kept', same_list(I, a, args), '%r' % (a,))
                same_options(c, I, p + 'all options are kept', k, options, 'turn %d' % turn)
                g = I.call(I.getattr(f, 'clone'), ())
                c.prove(p + 'a clone is created with the same arguments', same_ctor(I, g, args, options), '%r' % (g.attrs.get('ctor_'),))
            c.cover(p + 'reached')
        guarded(c, p, go)
    return harness


def same_list(I, got, want):
    got = list(I.iterate(got))
    return len(got) == len(want) and all(x is y or I.eq(x, y) is True for x, y in zip(got, want))


def same_ctor(I, f, args, options):
    a, k = f.attrs.get('ctor_', ((), {}))
    k = dict(k)
    k.pop('editable', None)
    return same_list(I, a, args) and set(k) == set(options) and all(k[x] is options[x] or I.eq(k[x], options[x]) is True for x in options)


def aggregate_description_unit(cls):
    """AggregateField.deconstruct (and those of cache keys): the field can be made again from it."""
    def harness(c):
        w = Described('sqlite3', {})
        I = w.start()
        p = 'description of a %s: ' % cls
        which = c.choose(3, 'options')
        usable = [x for x in OPTIONS if x not in ('default', 'func', 'DBField', 'name', 'cache')]
        names = () if which == 0 else usable if which == 1 else (usable[c.choose(len(usable), 'option')],)
        options = dict((k, Obj(w.C['Plain'], {}, label='value of ' + k)) for k in names)
        aggregate = cls in ('CountField', 'SumField')

        def go():
            F = I.getattr(I.load('denorm.fields'), cls)
            F.path_ = ident('path_of_' + cls)
            manager = ident('manager') if c.choose(2, 'manager name') == 0 else 'items'
            given = dict(options)
            if cls == 'SumField':
                given['field'] = ident('summed')
            if aggregate and c.choose(2, 'skip') == 1:
                given['skip'] = (ident('skipped'),)
            f = I.call(F, (manager,) if aggregate else (), given)
            nm = ident('name')
            f.attrs['name'] = nm
            for turn in (1, 2):
                name, path, a, k = list(I.iterate(I.call(I.getattr(f, 'deconstruct'), ())))
                c.prove(p + 'the name is kept', name is nm)
                c.prove(p + 'the class is its own', I.eq(path, F.path_) is True, '%r' % (path,))
                g = I.call(F, tuple(I.iterate(a)), dict(k))
                for x, what in ((f, 'the field'), (g, 'the rebuilt field')):
                    ca, ck = x.attrs.get('ctor_', ((), {}))
                    ck = dict(ck)
                    c.prove(p + 'it starts at zero', ck.pop('default', None) == 0, what)
                    c.prove(p + 'it is not editable', ck.pop('editable', None) is False, what)
                    c.prove(p + 'column options are kept', not ca and set(ck) == set(options) and all(ck[n] is options[n] for n in options),
                            '%s: %s %s instead of %s' % (what, ca, sorted(ck), sorted(options)))
                    if aggregate:
                        m = I.getattr(I.getattr(x, 'denorm'), 'manager_name')
                        c.prove(p + 'the manager is kept', m is manager or I.eq(m, manager) is True, '%s: %r' % (what, m))
                if aggregate:
                    c.prove(p + 'it is the same kind of aggregate', I.getattr(f, 'denorm').cls is I.getattr(g, 'denorm').cls)
            c.cover(p + 'reached')
        guarded(c, p, go)
    return harness
