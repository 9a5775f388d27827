"""Contracts of the functions that install and drop the triggers in a database."""
import z3

from pydv.core import Atom, Gen, SBool, SStr, Unsupported, ctx, mkstr, segs_of, str_eq, symseq, zbool
from pydv.djstub import World, ident, nat, text
from pydv.interp import Cls, Obj, OBJECT, PyExc, throw
from pydv.sqlt import Parser, SqlError, tokenize
from .markers import guarded
from .schema import conj, leaves, once

ASSUMED = [
    'triggers and tables have plain identifiers as names; the tables of the project are in the schema the connection uses',
    'a transaction that is left by an exception is rolled back as a whole, schema changes included (SQLite, PostgreSQL)',
    'the catalogue queries of the databases list every trigger once',
]
PREFIX = 'denorm_'


class CatParser(Parser):
    def cmp(self):
        at = self.i
        a = self.add()
        neg = self.take('not')
        for w in ('like', 'glob', 'ilike'):
            if self.take(w):
                p = self.add()
                esc = self.add() if self.take('escape') else None
                return ('like', w, a, p, esc, neg)
        self.i = at
        return Parser.cmp(self)


class Row(object):
    """One trigger of the catalogue."""
    def __init__(self, name, table):
        self.name, self.table, self.installed = name, table, False


def like_regex(op, pattern, esc, backend):
    """The names a LIKE or GLOB pattern matches."""
    parts = []
    any_ = z3.AllChar(z3.ReSort(z3.StringSort()))
    fold = op == 'ilike' or (op == 'like' and backend != 'postgresql')
    many, one = ('*', '?') if op == 'glob' else ('%', '_')
    i = 0
    if op == 'like' and esc is None and backend != 'sqlite3':
        esc = '\\'
    while i < len(pattern):
        ch = pattern[i]
        if esc is not None and ch == esc and i + 1 < len(pattern):
            i += 1
            ch = pattern[i]
            lit = True
        else:
            lit = False
        if not lit and ch == many:
            parts.append(z3.Star(any_))
        elif not lit and ch == one:
            parts.append(any_)
        elif not lit and op == 'glob' and ch == '[':
            raise Unsupported('GLOB classes')
        else:
            r = z3.Re(z3.StringVal(ch))
            if fold and ch.swapcase() != ch:
                r = z3.Union(r, z3.Re(z3.StringVal(ch.swapcase())))
            parts.append(r)
        i += 1
    if not parts:
        return z3.Re(z3.StringVal(''))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


class Catalogue(object):
    """What the catalogue tables of a database say about one trigger."""

    COLUMNS = {
        'sqlite3': {'sqlite_master': {'name': 'name', 'tbl_name': 'table', 'type': "'trigger", 'sql': 'other'}},
        'postgresql': {'pg_trigger': {'tgname': 'name', 'tgrelid': 'oid', 'tgisinternal': 'false'},
                       'pg_class': {'relname': 'table', 'oid': 'oid'},
                       'triggers': {'trigger_name': 'name', 'event_object_table': 'table'}},
        'mysql': {'triggers': {'trigger_name': 'name', 'event_object_table': 'table', 'trigger_schema': 'schema', 'event_object_schema': 'schema'}},
    }

    def __init__(self, backend):
        self.backend = backend

    def select(self, sql, params):
        """fn(row) -> (condition, values) of a query, or None."""
        toks = tokenize(sql)
        p = CatParser(toks, self.backend)
        if self.backend == 'mysql' and p.at('show', 'triggers'):
            p.want('show', 'triggers')
            where = None
            if p.take('where'):
                where = p.expr()
            elif p.peek().kind != 'eof' and not p.at(';'):
                raise Unsupported('SHOW TRIGGERS with more')
            cols = {'trigger': 'name', 'table': 'table'}
            self.params = list(params)
            return lambda r: (self.true(where, r, {None: cols}), (r.name, text('event'), r.table, text('statement'), text('timing'), None,
                                                              text('mode'), text('definer')))
        p.want('select')
        if p.take('distinct'):
            pass
        cols = p.exprs()
        scope = {}
        if not p.take('from'):
            raise Unsupported('query without a table')
        conds = []

        def table():
            n = p.name()
            while p.take('.'):
                n = p.name()
            known = self.COLUMNS[self.backend].get(n.lower() if isinstance(n, str) else None)
            if known is None:
                raise Unsupported('catalogue table %r' % (n,))
            alias = n.lower()
            if p.take('as'):
                alias = p.name().lower()
            elif p.peek().kind == 'word' and p.peek().kw() not in ('where', 'join', 'left', 'inner', 'on', 'order', 'limit'):
                alias = p.name().lower()
            scope[alias] = known
        table()
        while True:
            if p.take(','):
                table()
            elif p.take('join') or p.take('inner', 'join') or p.take('left', 'join') or p.take('left', 'outer', 'join'):
                table()
                p.want('on')
                conds.append(p.expr())
            else:
                break
        if p.take('where'):
            conds.append(p.expr())
        if p.take('order', 'by'):
            p.exprs()
        p.take(';')
        if p.peek().kind != 'eof':
            raise Unsupported('catalogue query with %r' % (p.peek(),))
        if len(scope) == 2:
            joined = [x for x in conds if any(y[0] == 'cmp' and y[1] == '=' and all(z[0] == 'col' for z in y[2:]) for y in flat_and(x))]
            if not joined:
                raise Unsupported('catalogue tables without a join')
        scope[None] = dict((c, v) for t in scope.values() for c, v in t.items())
        self.params = list(params)
        return lambda r: (z3.And([self.true(x, r, scope) for x in conds]), tuple(self.text(x, r, scope) for x in cols))

    # values: python texts, or the symbols below
    def text(self, e, r, scope):
        if e[0] == 'str':
            return e[1]
        if e[0] == 'num':
            return e[1]
        if e[0] == 'ph':
            if len(self.params) != 1:
                raise Unsupported('several parameters')
            return self.params[0]
        if e[0] == 'col':
            q = e[1].lower() if isinstance(e[1], str) else e[1]
            t = scope.get(q) if q is None or q in scope else None
            k = t.get(e[2].lower()) if t is not None else None
            if k is None:
                raise Unsupported('catalogue column %r' % (e[2],))
            return r.name if k == 'name' else r.table if k == 'table' else k[1:] if k[0] == "'" else ('sym', k)
        if e[0] == 'func':
            f = e[1]
            args = [self.text(x, r, scope) for x in e[2]]
            if f in ('substr', 'substring', 'left') and len(args) in (2, 3) and all(isinstance(x, int) for x in args[1:]):
                start, n = (1, args[1]) if f == 'left' else (args[1], args[2] if len(args) == 3 else None)
                if start < 1 or n is None:
                    raise Unsupported('substr from the end')
                return ('z', z3.SubString(self.z(args[0]), start - 1, n))
            if f in ('lower', 'upper'):
                raise Unsupported(f)
            if f in ('database', 'schema') and not args:
                return ('sym', 'schema')
            if f == 'count':
                raise Unsupported('count')
        if e[0] == 'cast':
            return self.text(e[1], r, scope)
        raise Unsupported('catalogue expression %r' % (e,))

    def z(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            return v.z()
        if isinstance(v, tuple) and v[0] == 'z':
            return v[1]
        raise Unsupported('text of %r' % (v,))

    def true(self, e, r, scope):
        if e is None:
            return z3.BoolVal(True)
        k = e[0]
        if k in ('and', 'or'):
            return (z3.And if k == 'and' else z3.Or)([self.true(x, r, scope) for x in e[1]])
        if k == 'not':
            return z3.Not(self.true(e[1], r, scope))
        if k == 'col':
            if self.text(e, r, scope) == ('sym', 'false'):
                return z3.BoolVal(False)
        if k == 'cmp' and e[1] in ('=', '<>'):
            a, b = self.text(e[2], r, scope), self.text(e[3], r, scope)
            if isinstance(a, tuple) and a[0] == 'sym' or isinstance(b, tuple) and b[0] == 'sym':
                if a != b:
                    raise Unsupported('comparison of %r and %r' % (a, b))
                eq = z3.BoolVal(True)
            else:
                eq = self.z(a) == self.z(b)
            return eq if e[1] == '=' else z3.Not(eq)
        if k == 'like':
            p = self.text(e[3], r, scope)
            esc = self.text(e[4], r, scope) if e[4] is not None else None
            if not isinstance(p, str):
                raise Unsupported('pattern %r' % (p,))
            m = z3.InRe(self.z(self.text(e[2], r, scope)), like_regex(e[1], p, esc, self.backend))
            return z3.Not(m) if e[5] else m
        raise Unsupported('catalogue condition %r' % (e,))


def flat_and(e):
    return [y for x in e[1] for y in flat_and(x)] if e[0] == 'and' else [e]


def norm_alias(a):
    return 'default' if a is None else a


class CatWorld(World):
    """A database with any number of triggers; every statement may fail."""

    def setup(self, failing):
        self.failing = failing
        self.blocks = []
        self.nblocks = 0
        self.rows = symseq('existing', lambda n: Row(ident('trigger_' + n), ident('on_' + n)), nmax=1)

    def installed(self):
        """Triggers that initialisation may have made: any table and event, also generic ones."""
        c = ctx()
        I = self.interp
        T = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'Trigger')
        event = ('insert', 'update', 'delete')[c.choose(3, 'event') if not self.failing else 0]
        generic = c.choose(2, 'generic') if not self.failing else 0

        def row(n):
            table = ident('on_' + n)
            ct = I.call(I.builtins['str'], (c.int('ct_' + n),))
            o = Obj(T, {'time': 'after', 'event': event, 'db_table': table, 'content_type': ct, 'connection': self.connection, 'using': None,
                        'content_type_field': ident('ctf_' + n) if generic else None, 'actions': [], 'fields': []}, label='trigger')
            r = Row(I.call(I.getattr(o, 'name'), ()), table)
            r.installed = True
            return r
        self.rows += symseq('installed', row, nmax=1)

    def atomic(self, using):
        alias = norm_alias(using)

        def enter(s):
            self.nblocks += 1
            self.blocks.append((alias, self.nblocks))
            return None

        def leave(s, t, v, tb):
            a, n = self.blocks.pop()
            ctx().effect('left', a, n, t is not None)
            return False
        return Obj(Cls('Atomic', [OBJECT], {'__enter__': nat(enter), '__exit__': nat(leave)}, native=True), {}, label='atomic')

    def make_cursor(self, alias):
        W = self
        state = {'rows': None}
        cat = Catalogue(self.backend)

        def execute(s, sql, params=None):
            c = ctx()
            alias_ = norm_alias(alias)
            block = None
            for a, n in W.blocks:
                if zis(str_eq(a, alias_)):
                    block = n
                    break
            c.effect('exec', alias_, sql, tuple(W.interp.iterate(params)) if params is not None else (), block)
            if W.failing and c.branch(c.bool('statement_fails')):
                c.effect('failed')
                throw(W.C['OperationalError'], 'the statement failed')
            W.rows_for(state, cat, sql, params)
            return None

        def fetchall(s):
            r = state['rows']
            if r is None:
                throw(W.C['ProgrammingError'], 'no results to fetch')
            state['rows'] = []
            return list(r)
        ns = {'execute': nat(execute), 'fetchall': nat(fetchall), 'close': nat(lambda s: None),
              '__enter__': nat(lambda s: s), '__exit__': nat(lambda s, *a: False),
              '__iter__': nat(fetchall)}
        return Obj(Cls('Cursor', [OBJECT], ns, native=True), {}, label='cursor')

    def rows_for(self, state, cat, sql, params):
        state['rows'] = None
        if not isinstance(sql, str):
            return
        head = sql.strip().split(None, 1)[0].lower() if sql.strip() else ''
        if head not in ('select', 'show'):
            return
        if 'pg_language' in sql:
            state['rows'] = [('plpgsql',)] if ctx().choose(2, 'has plpgsql') else []
            return
        if params is not None:
            sql = sql.replace('%%', '%')
        try:
            q = cat.select(sql, self.interp.iterate(params) if params is not None else ())
            out = []
            for x in self.rows:
                if isinstance(x, Gen):
                    alts = []
                    for cs, items in x.alts:
                        cond, vals = q(items[0])
                        alts.append((list(cs) + [cond], [vals]))
                    out.append(Gen(x.base, alts, x.distinct))
                else:
                    cond, vals = q(x)
                    if ctx().branch(SBool(cond)):
                        out.append(vals)
            state['rows'] = out
        except SqlError as e:
            throw(self.C['OperationalError'], str(e))


def zis(v):
    return v is True


def dropped(sql, backend):
    """(name, table or None) of a DROP TRIGGER statement, else None."""
    p = Parser(tokenize(sql), backend)
    if not p.take('drop', 'trigger'):
        return None
    p.take('if', 'exists')
    names = []
    t = p.next()
    if t.kind != 'word':
        raise SqlError('DROP TRIGGER %r' % (t,))
    if not t.quoted:
        raise Unsupported('name without quotes')
    table = None
    if p.take('on'):
        table = p.next()
        if not table.quoted:
            raise Unsupported('name without quotes')
        table = table.val
        p.take('cascade') or p.take('restrict')
    p.take(';')
    if p.peek().kind != 'eof':
        raise SqlError('DROP TRIGGER ... %r' % (p.peek(),))
    if backend == 'postgresql' and table is None:
        raise SqlError('DROP TRIGGER without a table')
    if backend != 'postgresql' and table is not None:
        raise SqlError('DROP TRIGGER with a table')
    return t.val, table


def aliases(c):
    return [None, ident('database')][c.choose(2, 'database')]


def outcome(I, fn, args=(), kw=None):
    try:
        I.call(fn, args, kw or {})
        return None
    except PyExc as e:
        return e


def atomic_rules(c, w, prefix, changes, err, failed):
    """All or nothing."""
    blocks = set(e[4] for e in changes)
    c.prove(prefix + 'every change is made inside one transaction on the selected database',
            z3.BoolVal(None not in blocks and len(blocks) <= 1), detail='%r' % (sorted(str(b) for b in blocks),))
    if failed:
        ends = [e[1:] for cs, e in leaves(visible(c.effects)) if e[0] == 'left' and e[2] in blocks]
        c.prove(prefix + 'a failing statement rolls everything back', z3.BoolVal(all(l[2] for l in ends)))


def drop_unit(backend, failing=False, prefix='drop/%s: '):
    prefix = prefix % backend

    def harness(c):
        w = CatWorld(backend)
        I = w.start()
        w.setup(failing)
        alias = aliases(c)
        D = I.load('denorm.denorms')

        w.installed()

        def go():
            w.conn_for(norm_alias(alias))
            err = outcome(I, I.getattr(D, 'drop_triggers'), (), {'using': alias})
            w.failed = any(e[0] == 'failed' for cs, e in leaves(visible(c.effects)))
            if failing:
                c.prove(prefix + 'a failing statement is reported', z3.BoolVal((err is not None) == w.failed))
            else:
                c.prove(prefix + 'does not fail', z3.BoolVal(err is None), detail=repr(err.obj.attrs.get('args')) if err is not None else None)
                if err is not None:
                    return
            eff = [(cs, e) for cs, e in leaves(visible(c.effects)) if e[0] == 'exec']
            drops = []
            for cs, e in eff:
                c.prove(prefix + 'works on the selected database', zbool(str_eq(e[1], norm_alias(alias))))
                head = first_word(e[2])
                if head in ('select', 'show'):
                    continue
                try:
                    d = dropped(e[2], backend)
                except SqlError as x:
                    c.prove(prefix + 'the statements are valid', z3.Not(conj(cs)), detail=str(x))
                    continue
                c.prove(prefix + 'nothing but triggers is dropped', z3.Or(z3.BoolVal(d is not None), z3.Not(conj(cs))), detail=repr(e[2]))
                if d is None:
                    return
                drops.append((cs, d, e))
            if backend != 'mysql':
                atomic_rules(c, w, prefix, [e for cs, d, e in drops], err, w.failed)
            rows = leaves(w.rows)
            for cs, d, e in drops:
                hit = [z3.And(conj(cs2), zbool(str_eq(d[0], r.name)), z3.BoolVal(True) if d[1] is None else zbool(str_eq(d[1], r.table)),
                              z3.PrefixOf(z3.StringVal(PREFIX), z(r.name)) if not r.installed else z3.BoolVal(True)) for cs2, r in rows]
                c.prove(prefix + 'no trigger of the project is dropped', z3.Implies(conj(cs), z3.Or(hit) if hit else z3.BoolVal(False)))
            if not failing:
                for cs2, r in rows:
                    if not r.installed:
                        continue
                    hit = [conj(cs) for cs, d, e in drops if segs_of(d[0]) == segs_of(r.name)]
                    n = z3.Sum([z3.If(h, 1, 0) for h in hit]) if hit else z3.IntVal(0)
                    c.prove(prefix + 'every installed trigger is dropped',
                            z3.Implies(conj(cs2), n == 1))
            c.cover(prefix + ('a statement failed' if w.failed else 'reached'))
        guarded(c, prefix, go, what='does not fail')
    return harness


def z(t):
    return z3.StringVal(t) if isinstance(t, str) else t.z()


def first_word(t):
    s = segs_of(t)
    return s[0].strip().split(None, 1)[0].lower() if s and isinstance(s[0], str) and s[0].strip() else ''


def visible(effects):
    """Effects, without the unknown rest of an interrupted loop."""
    from pydv.core import Prior
    return [e for e in effects if not isinstance(e, Prior)]


def install_unit(backend, failing=False, prefix='install/%s: '):
    prefix = prefix % backend

    def harness(c):
        w = CatWorld(backend)
        I = w.start()
        w.setup(failing)
        alias = aliases(c)
        D = I.load('denorm.denorms')

        def trigger(n):
            t = text('create_' + n)
            ps = symseq('params_' + n, lambda k: ident(k), nmax=1)
            o = Obj(w.C['Plain'], {'sql': nat(lambda: (t, tuple(ps))), 'name': nat(lambda: ident('name_' + n)), 'actions': []}, label='trigger ' + n)
            o.text_, o.params_, o.name_ = t, ps, ident('name_' + n)
            return o
        trigs = symseq('triggers', trigger, nmax=2)
        asked = []

        def build(using=None):
            asked.append(using)
            S = I.getattr(I.getattr(I.load('denorm.db'), 'triggers'), 'TriggerSet')
            s = I.call(S, (), {'using': using})
            d = {}
            for x in trigs:
                if isinstance(x, Gen):
                    d[Gen(x.base, [(cs, [t.name_ for t in items]) for cs, items in x.alts], True)] = x
                else:
                    d[x.name_] = x
            I.setattr(s, 'triggers', d) if hasattr(I, 'setattr') else s.attrs.__setitem__('triggers', d)
            return s
        I.contracts['denorm.denorms:build_triggerset'] = build

        def go():
            err = outcome(I, I.getattr(D, 'install_triggers'), (), {'using': alias})
            c.prove(prefix + 'the triggers are built for the selected database', z3.And([zbool(str_eq(norm_alias(a), norm_alias(alias))) for a in asked] + [z3.BoolVal(bool(asked))]))
            w.failed = any(e[0] == 'failed' for cs, e in leaves(visible(c.effects)))
            if failing:
                c.prove(prefix + 'a failing statement is reported', z3.BoolVal((err is not None) == w.failed))
            else:
                c.prove(prefix + 'does not fail', z3.BoolVal(err is None), detail=repr(err.obj.attrs.get('args')) if err is not None else None)
                if err is not None:
                    return
            eff = [(cs, e) for cs, e in leaves(visible(c.effects)) if e[0] == 'exec']
            every = leaves(trigs)
            made = []
            for cs, e in eff:
                c.prove(prefix + 'works on the selected database', zbool(str_eq(e[1], norm_alias(alias))))
                t = [x for cs2, x in every if segs_of(x.text_) == segs_of(e[2])]
                if t:
                    made.append((cs, t[0], e))
                    continue
                head = first_word(e[2])
                if head in ('select', 'show'):
                    continue
                if isinstance(e[2], str) and e[2].split()[:2] == ['CREATE', 'LANGUAGE']:
                    continue
                raise Unsupported('statement %r' % (e[2],))
            if backend != 'mysql':
                atomic_rules(c, w, prefix, [e for cs, t, e in made], err, w.failed)
            for cs, t, e in made:
                ps = leaves(e[3])
                want = leaves(t.params_)
                c.prove(prefix + 'with its parameters', z3.Implies(conj(cs), z3.BoolVal([x[1] for x in ps] == [x[1] for x in want])))
            if not failing:
                once(c, prefix + 'every trigger is created, once', every, [(cs, t) for cs, t, e in made])
            c.cover(prefix + ('a statement failed' if w.failed else 'reached'))
        guarded(c, prefix, go, what='does not fail')
    return harness


def command_unit(command, function, prefix='command %s: '):
    """The management command works on the database it was given."""
    prefix = prefix % command

    def harness(c):
        w = World('sqlite3')
        I = w.start()
        calls = []
        I.contracts['denorm.denorms:' + function] = lambda using=None: calls.append(using)
        M = I.load('denorm.management.commands.' + command)
        db = ident('database')

        def go():
            cmd = Obj(I.getattr(M, 'Command'), {'stdout': Obj(w.C['Plain'], {'write': nat(lambda *a: None)}), 'style': w.C['BaseCommand'].ns.get('style')},
                      label='command')
            I.call(I.getattr(cmd, 'handle'), (), {'database': db, 'verbosity': 1})
            c.prove(prefix + 'calls the function once for the given database',
                    z3.And(z3.BoolVal(len(calls) == 1), *[zbool(str_eq(norm_alias(a), db)) for a in calls]))
            c.cover(prefix + 'reached')
        guarded(c, prefix, go, what='does not fail')
    return harness
