"""Contracts of count and sum fields: what their triggers add to and take from the stored value."""
import z3

from pydv.core import Atom, SStr, Unsupported, ctx, symseq, zbool
from pydv.djstub import World, ident, nat
from pydv.interp import Cls, Obj, OBJECT, Unknown
from pydv.sqlsem import DB, Row, SV, Update, changed, eq, BadReference
from pydv.sqlt import key
from .markers import guarded, texts
from .schema import Tracked, internal, rich, skip_names, table_of, tag_model

ASSUMED = [
    'django compiles a Q object to a condition on the given alias that holds for exactly the rows the queryset filter selects, '
    'enclosed in parentheses if it has several parts, with one parameter list that does not depend on the alias',
    'a shallow copy of a field is what a model inherits from an abstract one',
    'whether a row satisfies the declared filter depends on tracked columns only',
    'database triggers fire once per changed row, after the change (rows changed by one statement are handled one after another)',
]


class AggWorld(World):
    """Query compilation is opaque: a text with a meaning and its parameters."""

    def __init__(self, backend, settings=None):
        World.__init__(self, backend, settings)
        C, W = self.C, self
        self.compiled = []              # (alias, parts, query, atom)
        self.params = {}
        self.Q_ = Cls('Q', [OBJECT], {
            '__init__': nat(lambda s, *a, **k: s.attrs.update(args_=a, kw_=k, neg_=False)),
            '__invert__': nat(lambda s: Obj(self.Q_, {'args_': (), 'kw_': s.attrs['kw_'], 'neg_': not s.attrs['neg_']}, label='~Q')),
        }, native=True)

        def qinit(s, model, where=None):
            s.attrs.update(model=model, added_=[], alias_map={})
            s.attrs['where'] = Obj(C['Plain'], {'as_sql': nat(lambda compiler, conn: W.compile(s, compiler, conn))}, label='where')

        def add_q(s, q):
            if q.cls is not self.Q_ or q.attrs['args_']:
                raise Unsupported('add_q(%r)' % (q,))
            alias = W.interp.call(W.interp.getattr(s, 'get_initial_alias'), ())
            ctx().touch(s.attrs['added_'])
            s.attrs['added_'].append((q, alias))
        C['Query'].ns.update({'__init__': nat(qinit), 'add_q': nat(add_q)})
        C['SQLCompiler'].ns['__init__'] = nat(lambda s, q, conn, using=None: s.attrs.update(query=q, connection=conn, using=using))
        self.stubs['django.db.models.sql.datastructures']['Join'] = nat(lambda *a, **k: Obj(C['Plain'], {}, label='join'))

    @property
    def Q(self):
        return self.Q_

    def compile(self, q, compiler, conn):
        parts = [(x.attrs['neg_'], x.attrs['kw_'], al) for x, al in q.attrs['added_'] if x.attrs['kw_']]
        if not parts:
            return '', []
        aliases = set(al for _, _, al in parts)
        if len(aliases) != 1:
            raise Unsupported('several aliases in one query')
        alias = aliases.pop()
        if compiler.cls is not self.C['SQLCompiler'] or compiler.attrs['query'] is not q:
            raise Unsupported('compiler of another query')
        atom = Atom(ctx().fresh('where_%s' % alias), 'filter')
        known = alias in self.interp.iterate(q.attrs['alias_map'])
        self.compiled.append((alias, parts, q, atom, known, conn, compiler))
        params = []
        for neg, kw, al in parts:
            for v in kw.values():
                params.append(self.params.setdefault(id(v), Obj(self.C['Plain'], {}, label='param')))
        return SStr((atom,)), list(params)


class AggCase(object):
    def __init__(self, backend, cls, skips, using=None, selfrel=False):
        c = ctx()
        self.backend, self.cls = backend, cls
        w = self.w = AggWorld(backend)
        I = self.I = w.start()
        self.using = using
        self.skip = skip_names('skipped') if skips else None
        self.always = skip_names('always') if skips else None
        third = self.third = tag_model(w)
        self.this = w.model('This', always_skip=self.always if selfrel else None)
        self.other = self.this if selfrel else w.model('Other', always_skip=self.always)
        self.this.absent.add('items')
        other = self.other
        self.rel = w.field(other, 'rel', 'ForeignKey', remote=self.this)
        self.val = w.field(other, 'summed', 'IntegerField')
        self.val.attrs['name'] = 'summed'
        other.fields_ += [self.rel, self.val]
        rich(w, other, third, third)
        self.db = DB(backend)
        self.new, self.old, self.x = (z3.Const(n, Row) for n in ('NEW', 'OLD', 'x'))
        # the columns that matter are not excluded
        if skips:
            for s in (self.skip, self.always):
                for f in (self.rel, self.val, other.pk_):
                    c.assume(z3.Not(zbool(I.contains(f.attrs['attname'], s))))
        filters = backend != 'sqlite3' and c.choose(2, 'filter') == 1
        # (SQLite triggers cannot have parameters, so it has neither)
        excludes = backend != 'sqlite3' and (c.choose(2, 'exclude') == 1 if not skips else filters)
        self.filter = {'fa': Unknown('va'), 'fb__gt': Unknown('vb')} if filters else {}
        self.exclude = {'xa': Unknown('wa'), 'xb__gt': Unknown('wb')} if excludes else {}

    def declare(self):
        I, w = self.I, self.w
        kw = {'skip': self.skip} if self.skip is not None else {}
        if self.filter:
            kw['filter'] = self.filter
        if self.exclude:
            kw['exclude'] = self.exclude
        if self.cls == 'SumField':
            kw['field'] = 'summed'
        return I.call(I.getattr(I.load('denorm.fields'), self.cls), ('items',), kw)

    def relate(self):
        """The related manager appears on the model once both classes are complete."""
        r = self.w.reverse(self.this, 'items', self.other)
        r.attrs['field'] = self.rel
        m = Obj(self.w.C['Plain'], {'field': self.rel, 'rel': r}, label='items', absent=('related',))
        ctx().touch(self.this.ns)
        self.this.ns['items'] = m
        return m

    def holds(self, parts, row, tab):
        """The opaque conditions of the filter for a row."""
        out = []
        for neg, kw, _ in parts:
            f = z3.And([z3.Function('satisfies_%s' % k, Row, z3.BoolSort())(row) for k in kw])
            out.append(z3.Not(f) if neg else f)
        return z3.And(out) if out else z3.BoolVal(True)

    def F(self, row):
        parts = ([(False, self.filter, None)] if self.filter else []) + ([(True, self.exclude, None)] if self.exclude else [])
        return self.holds(parts, row, None)


def prepare(case, last):
    """Signals as django sends them: the model, perhaps before its managers exist; other classes later."""
    I, c = case.I, ctx()
    conn = [e for e in c.effects if e[0] == 'connect' and e[1] == 'class_prepared']

    def send(sender):
        for e in conn:
            if e[3] in (None, sender):
                I.call(e[2], (), {'sender': sender})
    send(case.this)
    send(case.other)
    m = case.relate()
    if not last:
        send(case.third)
    return m


def check(c, case, prefix, f, defs, event):
    w, db = case.w, case.db
    column = f.attrs['column']
    case.this_table.col(column, 'int', notnull=True)
    tab, this = case.other_table, case.this_table
    new = case.new if event != 'delete' else None
    old = case.old if event != 'insert' else None
    if new is not None:
        c.add(tab.inn(new))
    if old is not None:
        c.add(z3.Not(tab.inn(old)))
    if new is not None and old is not None:
        c.add(tab.value(tab.pk, new).v == tab.value(tab.pk, old).v)
    for alias, parts, q, atom, known, conn, compiler in w.compiled:
        def meaning(env, alias=alias, parts=parts, known=known):
            if not known:
                raise BadReference('the alias %s is quoted like a table' % alias)
            row = env.get(alias.lower()) if isinstance(alias, str) else None
            if row is None:
                raise BadReference('%s is not available in this trigger' % (alias,))
            if env['table'] is not tab:
                raise BadReference('the filter is about another table')
            return SV('bool', z3.BoolVal(False), case.holds(parts, row, tab))
        db.texts[atom] = meaning
    effects = []
    for d, params in defs:
        if key(d.table) != key(tab.name):
            c.fail(prefix + 'only rows of the related table are watched', 'trigger on %s' % (d.table,))
            continue
        if d.event != event:
            continue
        c.prove(prefix + 'the trigger runs after the change', d.time == 'after')
        for e in db.run(d, new, old):
            if not isinstance(e, Update) or e.table is not this:
                c.fail(prefix + 'only the aggregate is changed', '%s statement on %s' % (type(e).__name__, getattr(getattr(e, 'table', None), 'label', '?')))
                continue
            effects.append(e)
    x = case.x
    c.add(this.inn(x))
    start = this.value(column, x).v
    now = start
    for e in effects:
        cond, sets = e.at(x)
        c.prove(prefix + 'no other column is changed', set(sets) == {key(column)})
        v = sets.get(key(column))
        if v is None:
            continue
        if v.kind != 'int':
            c.fail(prefix + 'the stored value is a number', v.kind)
            continue
        c.prove(prefix + 'the stored value is never NULL', z3.Implies(cond, z3.Not(v.null)))
        now = z3.If(z3.substitute(cond, (start, now)), z3.substitute(v.v, (start, now)), now)
    xpk = this.value(this.pk, x)

    def share(row):
        if row is None:
            return z3.IntVal(0)
        if case.cls == 'CountField':
            n = z3.IntVal(1)
        else:
            v = tab.value(case.val.attrs['column'], row)
            n = z3.If(v.null, z3.IntVal(0), v.v)
        return z3.If(z3.And(eq(xpk, tab.value(case.rel.attrs['column'], row)), case.F(row)), n, z3.IntVal(0))
    if event == 'update':
        tr = Tracked(w, db, tab, case.other, [case.skip, case.always])
        change = tr.changed(new, old)
        tr.link(c, prefix + 'exactly the tracked columns are compared', new, old)
        c.add(z3.Implies(z3.Not(change), case.F(new) == case.F(old)))
    c.prove(prefix + 'the value changes by exactly what the row adds and no longer adds', now == start + share(new) - share(old))
    c.cover(prefix + 'reached')


def params_of(sql):
    """Opaque condition texts in the order in which they occur."""
    from pydv.core import segs_of
    out = []

    def walk(s):
        for x in segs_of(s):
            if isinstance(x, Atom):
                if x.kind == 'filter':
                    out.append(x)
            elif not isinstance(x, str):
                raise Unsupported('parameters of a joined text')
    walk(sql)
    return out


def unit(backend, cls, skips, selfrel=False):
    def harness(c):
        using = None if skips or selfrel or c.choose(2, 'using') == 0 else 'elsewhere'
        case = AggCase(backend, cls, skips, using, selfrel)
        I, w = case.I, case.w
        prefix = '%s/%s%s%s: ' % (cls, backend, '/skips' if skips else '', '/self' if selfrel else '')

        def go():
            f = case.declare()
            I.call(I.getattr(f, 'contribute_to_class'), (case.this, ident('name_agg')))
            last = not skips and c.choose(2, 'model loaded last') == 1
            prepare(case, last)
            kinds = {id(case.val): 'int'}
            case.other_table = table_of(case.db, case.other, kinds)
            case.this_table = table_of(case.db, case.this, kinds) if case.this is not case.other else case.other_table
            d = I.getattr(f, 'denorm')
            trigs = I.iterate(I.call(I.getattr(d, 'get_triggers'), (using,)))
            here = w.connection if using is None else w.conn_for(using)
            c.prove(prefix + 'conditions are compiled for the selected database', all(e[5] is here for e in w.compiled))
            event = ('insert', 'update', 'delete')[c.choose(3, 'event')]
            mine = [t for t in trigs if internal(t, 'event') == event]
            c.prove(prefix + 'every event is watched', len(mine) == 1, detail=event)
            defs = texts(case, mine)
            for (dd, params), t in zip(defs, mine):
                n = sum(len(p[1]) for e in w.compiled[:1] for p in e[1])
                acts = [e for e in I.iterate(internal(t, 'actions'))]
                want = []
                for a in acts:
                    s, pr = I.iterate(I.call(I.getattr(a, 'sql'), ()))
                    for at in params_of(s):
                        e = [e for e in w.compiled if e[3] is at]
                        if not e:
                            raise Unsupported('unknown text')
                        want += [w.params[id(v)] for neg, kw, al in e[0][1] for v in kw.values()]
                got = list(I.iterate(params))
                c.prove(prefix + 'the parameters are those of the conditions, in their order',
                        len(got) == len(want) and all(a is b for a, b in zip(got, want)))
            return f, defs, event
        r = guarded(c, prefix, go)
        if r is None:
            return
        f, defs, event = r
        p = prefix + event + ': '
        guarded(c, p, lambda: check(c, case, p, f, defs, event))
    return harness


def inherit_unit(cls):
    """Two models that inherit the field from an abstract one each count their own related rows."""
    def harness(c):
        case = AggCase('sqlite3', cls, False)
        I, w = case.I, case.w
        prefix = '%s/inherited: ' % cls

        def go():
            f = case.declare()
            g = w.copy(f)
            heir = w.model('Heir')
            I.call(I.getattr(f, 'contribute_to_class'), (case.this, 'agg'))
            I.call(I.getattr(g, 'contribute_to_class'), (heir, 'agg'))
            conn = [e for e in c.effects if e[0] == 'connect' and e[1] == 'class_prepared']
            m1 = case.relate()
            m2 = Obj(w.C['Plain'], {'field': w.field(case.third, 'rel2', 'ForeignKey', remote=heir)}, label='items2', absent=('related',))
            heir.ns['items'] = m2
            for sender in ((case.this, heir, case.third), (heir, case.this, case.third))[c.choose(2, 'order')]:
                for e in conn:
                    if e[3] in (None, sender):
                        I.call(e[2], (), {'sender': sender})
            for x, m, man in ((f, case.this, m1), (g, heir, m2)):
                d = I.getattr(x, 'denorm')
                c.prove(prefix + 'every model has its own denormalization', I.getattr(d, 'model') is m)
                c.prove(prefix + 'every model follows its own manager', I.getattr(d, 'manager') is man)
                c.prove(prefix + 'the declared filter is kept', I.getattr(d, 'filter') == case.filter and I.getattr(d, 'exclude') == case.exclude)
            c.cover(prefix + 'reached')
        guarded(c, prefix, go)
    return harness
