"""Meaning of the parsed trigger statements over symbolic tables.

Rows are elements of an uninterpreted sort; every column of a table is a pair of
functions (is NULL, value).  Conditions are three-valued.  Identifiers are
compared by the template piece they come from, so two different names of the
schema are never confused and a name that is no column of the table is an error.
"""
from fractions import Fraction
import z3

from .core import Atom, SStr, SInt, Gen, Unsupported, ctx, segs_of
from .sqlt import key, SqlError

Row = z3.DeclareSort('Row')
Val = z3.DeclareSort('Val')


def colname(name):
    return name if isinstance(name, str) else ''.join(s if isinstance(s, str) else s.name for s in segs_of(name))


class BadReference(Exception):
    """A table or column that does not exist."""


class SV(object):
    """An SQL value: kind in val int bool rand text."""
    __slots__ = ('kind', 'null', 'v', 'extra')

    def __init__(self, kind, null, v, extra=None):
        self.kind = kind
        self.null = null
        self.v = v
        self.extra = extra


F = z3.BoolVal(False)
T = z3.BoolVal(True)


class Table(object):
    def __init__(self, db, name, label=None):
        self.db = db
        self.name = name
        self.label = label or colname(name)
        self.cols = {}          # key -> (label, kind)
        self.pk = None
        self.inn = z3.Function('in_' + self.label, Row, z3.BoolSort())
        self.generic = {}       # key -> base of an unbounded run of columns

    def col(self, name, kind='val', pk=False, base=None, notnull=False):
        k = key(name)
        self.cols[k] = (colname(name), kind, notnull or pk)
        if pk:
            self.pk = name
        if base is not None:
            self.generic[k] = base
        return self

    def value(self, name, row):
        k = key(name)
        if k not in self.cols:
            raise BadReference('table %s has no column %s' % (self.label, colname(name)))
        label, kind, notnull = self.cols[k]
        sort = z3.IntSort() if kind == 'int' else Val
        n = z3.Function('null_%s_%s' % (self.label, label), Row, z3.BoolSort())
        v = z3.Function('val_%s_%s' % (self.label, label), Row, sort)
        return SV(kind, F if notnull else n(row), v(row))

    def has(self, name):
        return key(name) in self.cols


class DB(object):
    def __init__(self, dialect):
        self.dialect = dialect
        self.tables = {}
        self.exists = []        # (bool, formula for the generic element, base, Gen) of unbounded disjunctions
        self.texts = {}         # meaning of opaque condition texts: atom -> fn(env) -> SV
        self.n = 0

    def table(self, name, label=None):
        k = key(name)
        if k not in self.tables:
            self.tables[k] = Table(self, name, label)
        return self.tables[k]

    def find(self, name):
        k = key(name)
        if k not in self.tables:
            raise BadReference('there is no table %s' % colname(name))
        return self.tables[k]

    def fresh(self, p):
        self.n += 1
        return '%s#%d' % (p, self.n)

    # -- expressions ------------------------------------------------------
    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            v = e[1]
            if isinstance(v, Atom):
                if isinstance(v.meta, SInt):
                    return SV('int', F, v.meta.z)
                raise Unsupported('number %r' % v)
            if isinstance(v, float):
                return SV('rat', F, Fraction(v))
            return SV('int', F, z3.IntVal(v), v)
        if k == 'null':
            return SV('null', T, None)
        if k == 'bool':
            return SV('bool', F, z3.BoolVal(e[1]))
        if k == 'str':
            return SV('text', F, e[1])
        if k == 'col':
            return self.column(e[1], e[2], env)
        if k in ('or', 'and'):
            return self.logic(k, [self.cond(x, env) for x in e[1]])
        if k == 'join':
            parts = []
            for p in e[2]:
                if p[0] == 'gen':
                    g, alts = p[1], p[2]
                    one = []
                    for conds, items in alts:
                        guard = z3.And(list(conds)) if conds else T
                        for x in items:
                            b = self.cond(x, env)
                            if not z3.is_false(z3.simplify(b.null)):
                                raise Unsupported('unknown truth value inside an unbounded condition')
                            one.append((guard, b))
                    if e[1] == 'or':
                        f = z3.Or([z3.And(gd, b.v) for gd, b in one]) if one else F
                    else:
                        f = z3.Or([z3.And(gd, z3.Not(b.v)) for gd, b in one]) if one else F
                    ex = z3.Bool(self.fresh('exists_%s' % g.base.name))
                    self.exists.append((ex, f, g.base, g))
                    parts.append(SV('bool', F, ex if e[1] == 'or' else z3.Not(ex)))
                else:
                    parts.append(self.cond(p, env))
            return self.logic(e[1], parts)
        if k == 'not':
            b = self.cond(e[1], env)
            return SV('bool', b.null, z3.Not(b.v))
        if k == 'isnull':
            a = self.ev(e[1], env)
            return SV('bool', F, z3.Not(a.null) if e[2] else a.null)
        if k in ('istrue', 'isfalse'):
            b = self.cond(e[1], env)
            t = z3.And(z3.Not(b.null), b.v if k == 'istrue' else z3.Not(b.v))
            return SV('bool', F, z3.Not(t) if e[2] else t)
        if k == 'cmp':
            return self.compare(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'inlist':
            a = self.ev(e[1], env)
            r = self.logic('or', [self.compare('=', a, self.ev(x, env)) for x in e[2]])
            return SV('bool', r.null, z3.Not(r.v)) if e[3] else r
        if k == 'in':
            a = self.ev(e[1], env)
            sel = e[2]
            if len(sel['cols']) != 1:
                raise SqlError('IN with %d columns' % len(sel['cols']))
            r, guard, vals = self.rows(sel, env)
            c = self.compare('=', a, vals[0])
            hit = z3.And(guard, z3.Not(c.null), c.v)
            t = z3.Exists([r], hit) if r is not None else hit
            unk = z3.And(guard, c.null)
            u = z3.Exists([r], unk) if r is not None else unk
            null = z3.And(z3.Not(t), u)
            return SV('bool', null, z3.Not(t) if e[3] else t)
        if k == 'exists':
            r, guard, vals = self.rows(e[1], env)
            return SV('bool', F, z3.Exists([r], guard) if r is not None else guard)
        if k == 'scalar':
            raise Unsupported('scalar subquery')
        if k == 'arith':
            return self.arith(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'neg':
            a = self.ev(e[1], env)
            return self.arith('-', SV('int', F, z3.IntVal(0), 0), a)
        if k == 'cast':
            v = self.ev(e[1], env)
            if e[2] == 'binary' and v.kind == 'val':
                return SV('val', v.null, v.v, 'binary')
            return v
        if k == 'case':
            out = self.ev(e[2], env)
            for c, v in reversed(e[1]):
                b = self.cond(c, env)
                out = self.ite(z3.And(z3.Not(b.null), b.v), self.ev(v, env), out)
            return out
        if k == 'func':
            f = e[1]
            if f in ('coalesce', 'ifnull'):
                args = [self.ev(x, env) for x in e[2]]
                out = args[-1]
                for a in reversed(args[:-1]):
                    out = self.ite(z3.Not(a.null), a, out)
                return out
            if f == 'if' and len(e[2]) == 3:
                b = self.cond(e[2][0], env)
                return self.ite(z3.And(z3.Not(b.null), b.v), self.ev(e[2][1], env), self.ev(e[2][2], env))
            if f == 'random' and not e[2]:
                if self.dialect == 'sqlite3':
                    return SV('rand', F, (Fraction(-2 ** 63), Fraction(2 ** 63 - 1)))
                if self.dialect == 'postgresql':
                    return SV('rand', F, (Fraction(0), Fraction(1)))
            if f == 'rand' and not e[2] and self.dialect == 'mysql':
                return SV('rand', F, (Fraction(0), Fraction(1)))
            if f in ('floor', 'round', 'ceil', 'trunc', 'ceiling') and len(e[2]) == 1:
                a = self.ev(e[2][0], env)
                if a.kind in ('rand', 'rat', 'int'):
                    return a
            raise Unsupported('SQL function %s' % (f,))
        if k == 'text':
            fn = self.texts.get(e[1])
            if fn is None:
                raise Unsupported('unknown text %r as a condition' % (e[1],))
            return fn(env)
        if k == 'ph':
            raise Unsupported('placeholder')
        raise Unsupported('SQL expression %s' % k)

    def cond(self, e, env):
        v = self.ev(e, env)
        if v.kind == 'bool':
            return v
        if v.kind == 'null':
            return SV('bool', T, F)
        if v.kind == 'int':
            return SV('bool', v.null, v.v != 0)
        raise Unsupported('condition of kind %s' % v.kind)

    def true(self, e, env):
        if e is None:
            return T
        b = self.cond(e, env)
        return z3.And(z3.Not(b.null), b.v)

    def logic(self, op, bs):
        if op == 'or':
            t = z3.Or([z3.And(z3.Not(b.null), b.v) for b in bs])
            n = z3.And(z3.Not(t), z3.Or([b.null for b in bs]))
            return SV('bool', z3.simplify(n), t)
        f = z3.Or([z3.And(z3.Not(b.null), z3.Not(b.v)) for b in bs])
        n = z3.And(z3.Not(f), z3.Or([b.null for b in bs]))
        return SV('bool', z3.simplify(n), z3.Not(f))

    def same(self, a, b):
        if a.kind == 'null' or b.kind == 'null':
            return F
        if a.kind == b.kind and a.kind in ('val', 'int', 'bool'):
            return a.v == b.v
        if {a.kind, b.kind} == {'val', 'int'}:
            conv = z3.Function('int_as_val', z3.IntSort(), Val)
            x, y = (a, b) if a.kind == 'val' else (b, a)
            return x.v == conv(y.v)
        raise Unsupported('comparison of %s with %s' % (a.kind, b.kind))

    def collated(self, a, b):
        """On MySQL texts are compared by their collation, which holds different texts for equal."""
        if self.dialect == 'mysql' and a.kind == b.kind == 'val' and 'binary' not in (a.extra, b.extra):
            norm = z3.Function('collation_class', Val, Val)
            return SV('val', a.null, norm(a.v)), SV('val', b.null, norm(b.v))
        return a, b

    def compare(self, op, a, b):
        if op in ('nulleq', 'isdist', '<>'):
            a, b = self.collated(a, b)
        if op in ('nulleq', 'isdist'):
            eq = z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), self.same(a, b)))
            return SV('bool', F, eq if op == 'nulleq' else z3.Not(eq))
        n = z3.Or(a.null, b.null)
        if op == '=':
            return SV('bool', n, self.same(a, b))
        if op == '<>':
            return SV('bool', n, z3.Not(self.same(a, b)))
        if a.kind == 'int' and b.kind == 'int':
            v = {'<': a.v < b.v, '>': a.v > b.v, '<=': a.v <= b.v, '>=': a.v >= b.v}[op]
            return SV('bool', n, v)
        lt = z3.Function('val_less', Val, Val, z3.BoolSort())
        if a.kind == 'val' and b.kind == 'val':
            v = {'<': lt(a.v, b.v), '>': lt(b.v, a.v), '<=': z3.Not(lt(b.v, a.v)), '>=': z3.Not(lt(a.v, b.v))}[op]
            return SV('bool', n, v)
        raise Unsupported('ordering of %s and %s' % (a.kind, b.kind))

    def ite(self, c, a, b):
        if a.kind == 'null' and b.kind == 'null':
            return a
        if a.kind == 'null':
            return SV(b.kind, z3.Or(c, b.null), b.v)
        if b.kind == 'null':
            return SV(a.kind, z3.Or(z3.Not(c), a.null), a.v)
        if a.kind != b.kind or a.kind not in ('val', 'int', 'bool'):
            if {a.kind, b.kind} == {'int', 'rat'}:
                raise Unsupported('mixed numbers')
            raise Unsupported('CASE over %s and %s' % (a.kind, b.kind))
        return SV(a.kind, z3.If(c, a.null, b.null), z3.If(c, a.v, b.v))

    def arith(self, op, a, b):
        null = z3.simplify(z3.Or(a.null, b.null))
        if a.kind == 'null' or b.kind == 'null':
            return SV('null', T, None)

        def rat(x):
            if x.kind == 'rat':
                return x.v
            if x.kind == 'int' and x.extra is not None:
                return Fraction(x.extra)
            return None
        if a.kind == 'rand' or b.kind == 'rand':
            if a.kind == 'rand' and b.kind == 'rand':
                raise Unsupported('two random numbers')
            r, o = (a, b) if a.kind == 'rand' else (b, a)
            q = rat(o)
            if q is None:
                raise Unsupported('random number with %s' % o.kind)
            lo, hi = r.v
            if op == '+':
                return SV('rand', F, (lo + q, hi + q))
            if op == '-':
                if a.kind == 'rand':
                    return SV('rand', F, (lo - q, hi - q))
                return SV('rand', F, tuple(sorted((q - lo, q - hi))))
            if op == '*':
                return SV('rand', F, tuple(sorted((lo * q, hi * q))))
            if op == '/' and a.kind == 'rand' and q:
                return SV('rand', F, tuple(sorted((lo / q, hi / q))))
            raise Unsupported('random number %s' % op)
        qa, qb = rat(a), rat(b)
        if qa is not None and qb is not None and (a.kind == 'rat' or b.kind == 'rat'):
            return SV('rat', F, {'+': lambda: qa + qb, '-': lambda: qa - qb, '*': lambda: qa * qb, '/': lambda: qa / qb}[op]())
        if a.kind == 'int' and b.kind == 'int' and op in '+-*':
            v = a.v + b.v if op == '+' else a.v - b.v if op == '-' else a.v * b.v
            ex = None
            if a.extra is not None and b.extra is not None:
                ex = a.extra + b.extra if op == '+' else a.extra - b.extra if op == '-' else a.extra * b.extra
            return SV('int', null, v, ex)
        raise Unsupported('%s %s %s' % (a.kind, op, b.kind))

    def column(self, q, name, env):
        if q in ('new', 'old'):
            row = env.get(q)
            if row is None:
                raise BadReference('%s is not available in this trigger' % q.upper())
            return env['table'].value(name, row)
        for tab, alias, row in reversed(env.get('scope', [])):
            if q is not None:
                if key(q) != key(alias if alias is not None else tab.name):
                    continue
                return tab.value(name, row)
            if tab.has(name):
                return tab.value(name, row)
        if q is not None:
            raise BadReference('unknown table %s' % colname(q))
        if env.get('scope'):
            raise BadReference('table %s has no column %s' % (env['scope'][-1][0].label, colname(name)))
        raise BadReference('unqualified column %s' % colname(name))

    def rows(self, sel, env):
        """(row variable, condition, values) of a SELECT; the row variable is None without FROM."""
        if sel['table'] is None:
            w = self.true(sel['where'], env)
            return None, w, [self.ev(c, env) for c in sel['cols']]
        tab = self.find(sel['table'])
        r = z3.Const(self.fresh('r_' + tab.label), Row)
        env2 = dict(env, scope=list(env.get('scope', [])) + [(tab, sel['alias'], r)])
        guard = z3.And(tab.inn(r), self.true(sel['where'], env2))
        return r, guard, [self.ev(c, env2) for c in sel['cols']]

    # -- statements -------------------------------------------------------
    def run(self, trig, new=None, old=None):
        """Effects of firing a trigger for one changed row."""
        tab = self.find(trig.table)
        env = {'table': tab, 'new': new, 'old': old, 'scope': []}
        cond = self.true(trig.when, env) if trig.when is not None else T
        out = []
        self.block(trig.body, cond, env, out)
        return out

    def block(self, stmts, cond, env, out):
        for s in stmts:
            k = s[0]
            if k == 'nop':
                continue
            if k == 'if':
                rest = cond
                for c, body in s[1]:
                    b = self.true(c, env)
                    self.block(body, z3.And(rest, b), env, out)
                    rest = z3.And(rest, z3.Not(b))
                if s[2]:
                    self.block(s[2], rest, env, out)
            elif k == 'block':
                if s[2] is not None:
                    for name, h in s[2]:
                        if name != 'unique_violation':
                            raise Unsupported('exception handler for %s' % name)
                        if h and any(x[0] != 'nop' for x in h):
                            raise Unsupported('exception handler with statements')
                self.block(s[1], cond, env, out)
            elif k == 'insert':
                tab = self.find(s[1])
                for c in s[2]:
                    if not tab.has(c):
                        raise BadReference('table %s has no column %s' % (tab.label, colname(c)))
                if s[3][0] == 'values':
                    for vals in s[3][1]:
                        if len(vals) != len(s[2]):
                            raise SqlError('%d values for %d columns' % (len(vals), len(s[2])))
                        out.append(Insert(tab, s[2], cond, None, T, [self.ev(v, env) for v in vals], s[4]))
                else:
                    r, guard, vals = self.rows(s[3][1], env)
                    if len(vals) != len(s[2]):
                        raise SqlError('%d values for %d columns' % (len(vals), len(s[2])))
                    out.append(Insert(tab, s[2], cond, r, guard, vals, s[4]))
            elif k == 'update':
                tab = self.find(s[1])
                for c, v in s[2]:
                    if not tab.has(c):
                        raise BadReference('table %s has no column %s' % (tab.label, colname(c)))
                out.append(Update(self, tab, s[2], s[3], cond, env))
            elif k == 'delete':
                out.append(Delete(self, self.find(s[1]), s[2], cond, env))
            elif k == 'opaque':
                out.append(Opaque(s[1], cond))
            elif k == 'return':
                raise Unsupported('RETURN inside the trigger body')
            else:
                raise Unsupported('statement %s' % k)


class Insert(object):
    def __init__(self, table, cols, cond, row, guard, values, mode):
        self.table, self.cols, self.cond, self.row, self.guard, self.values, self.mode = table, cols, cond, row, guard, values, mode

    def named(self):
        return dict((key(c), v) for c, v in zip(self.cols, self.values))


class Update(object):
    def __init__(self, db, table, sets, where, cond, env):
        self.db, self.table, self.sets, self.where, self.cond, self.env = db, table, sets, where, cond, env

    def at(self, row):
        """(does it change this row, {column key: new value})"""
        env = dict(self.env, scope=[(self.table, None, row)])
        c = z3.And(self.cond, self.db.true(self.where, env))
        return c, dict((key(k), self.db.ev(v, env)) for k, v in self.sets)


class Delete(object):
    def __init__(self, db, table, where, cond, env):
        self.db, self.table, self.where, self.cond, self.env = db, table, where, cond, env


class Opaque(object):
    def __init__(self, what, cond):
        self.what, self.cond = what, cond


def changed(a, b):
    """IS DISTINCT FROM of two column values."""
    return z3.Not(z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), a.v == b.v)))


def eq(a, b):
    """SQL equality being true."""
    return z3.And(z3.Not(a.null), z3.Not(b.null), a.v == b.v)
