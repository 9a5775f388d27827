"""Tokenizer and parser for the SQL texts that the interpreted code produces.

The text is a template: literal characters mixed with unknown pieces (Atom) and
unbounded joins (JoinSeg).  Only the statements that occur in triggers are
understood; everything else raises SqlError (the text is wrong) or Unsupported.
"""
import re

from .core import Atom, SStr, JoinSeg, Gen, Lines, Reindented, Unsupported, segs_of, mkstr
from .interp import SubText


class SqlError(Exception):
    """The text is not a statement of the dialect."""


WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
OPS = ('<=>', '::', '<>', '!=', '<=', '>=', '==', '||', '$$', '(', ')', ',', ';', '.', '=', '<', '>', '+', '-', '*', '/', '%')
KEYWORDS = set('''select distinct from where insert into values update set delete create trigger or and not is null in exists
begin end if then elsif else case when for each row on after before replace ignore function returns return language
execute procedure exception as drop conflict do nothing join inner left limit order by group having union all'''.split())


class Tok(object):
    __slots__ = ('kind', 'val', 'quoted')

    def __init__(self, kind, val, quoted=False):
        self.kind = kind        # word num str op join text ph
        self.val = val
        self.quoted = quoted

    def __repr__(self):
        return '%s:%r' % (self.kind, self.val)

    def kw(self):
        return self.val.lower() if self.kind == 'word' and not self.quoted and isinstance(self.val, str) else None


def items_of(text):
    out = []
    for s in segs_of(text):
        if isinstance(s, str):
            out.extend(s)
        else:
            out.append(s)
    return out


def tokenize(text):
    it = items_of(text)
    out = []
    i, n = 0, len(it)
    while i < n:
        c = it[i]
        if not isinstance(c, str):
            if isinstance(c, Atom) and c.kind in ('ident', 'digits') or isinstance(c, SubText):
                j = i
                while j < n and (it[j] in WORD if isinstance(it[j], str) else
                                 isinstance(it[j], SubText) or isinstance(it[j], Atom) and it[j].kind in ('ident', 'digits')):
                    j += 1
                if j == i + 1 and isinstance(c, Atom) and c.kind == 'digits':
                    out.append(Tok('num', c))
                else:
                    out.append(Tok('word', mkstr(it[i:j])))
                i = j
                continue
            if isinstance(c, (JoinSeg, Reindented)):
                m = isinstance(c, JoinSeg) and isinstance(c.sep, str) and re.match(r'^\s*(\)+)\s*(\w+|,)\s*(\(+)\s*$', c.sep)
                if m and len(m.group(1)) == len(m.group(3)):
                    # "(" + ") OR (".join(parts) + ")": the brackets belong to the parts
                    k, j = len(m.group(1)), i + 1
                    while j < n and it[j] in (' ', '\t', '\n', '\r', ')') and it[i + 1:j].count(')') < k:
                        j += 1
                    if [t.val for t in out[-k:]] == ['('] * k and it[i + 1:j].count(')') == k:
                        del out[-k:]
                        wrap = lambda t: mkstr(['(' * k, t, ')' * k])
                        parts = [Gen(p.base, [(cs, [wrap(x) for x in xs]) for cs, xs in p.alts], p.distinct) if isinstance(p, Gen) else wrap(p)
                                 for p in c.parts]
                        c, i = JoinSeg(' %s ' % m.group(2), parts), j - 1
                out.append(Tok('join', c))
                i += 1
                continue
            if isinstance(c, Atom):
                out.append(Tok('text', c))
                i += 1
                continue
            raise Unsupported('SQL piece %r' % (c,))
        if c in ' \t\n\r':
            i += 1
            continue
        if c == '-' and i + 1 < n and it[i + 1] == '-':
            while i < n and it[i] != '\n':
                if not isinstance(it[i], str):
                    raise SqlError('unknown text inside a comment')
                i += 1
            continue
        if c == '#' and 0:
            pass
        if c in '"`':
            j = i + 1
            while j < n and it[j] != c:
                j += 1
            if j >= n:
                raise SqlError('unterminated quoted name')
            body = it[i + 1:j]
            if not body:
                raise SqlError('empty name')
            if any(not isinstance(x, str) and not (isinstance(x, Atom) and x.kind in ('ident', 'digits')) and not isinstance(x, SubText) for x in body):
                raise Unsupported('name built from %r' % (body,))
            out.append(Tok('word', mkstr(body), True))
            i = j + 1
            continue
        if c == "'":
            j = i + 1
            while j < n and it[j] != "'":
                j += 1
            if j >= n:
                raise SqlError('unterminated text')
            out.append(Tok('str', mkstr(it[i + 1:j])))
            i = j + 1
            continue
        if c == '%' and i + 1 < n and it[i + 1] == 's':
            out.append(Tok('ph', None))
            i += 2
            continue
        if c in '0123456789':
            j = i
            while j < n and isinstance(it[j], str) and it[j] in '0123456789':
                j += 1
            if j < n and it[j] == '.' and j + 1 < n and isinstance(it[j + 1], str) and it[j + 1] in '0123456789':
                j += 1
                while j < n and isinstance(it[j], str) and it[j] in '0123456789':
                    j += 1
                out.append(Tok('num', float(''.join(it[i:j]))))
                i = j
                continue
            k = j
            while k < n and (it[k] in WORD if isinstance(it[k], str) else isinstance(it[k], Atom) and it[k].kind in ('ident', 'digits')):
                k += 1
            if k > j:
                # SQLite and PostgreSQL split '0x', MySQL allows names starting with digits: refuse to guess
                raise SqlError('number followed by a name: %r' % (mkstr(it[i:k]),))
            out.append(Tok('num', int(''.join(it[i:j]))))
            i = j
            continue
        if c in WORD:
            j = i
            while j < n and (it[j] in WORD if isinstance(it[j], str) else
                             isinstance(it[j], SubText) or isinstance(it[j], Atom) and it[j].kind in ('ident', 'digits')):
                j += 1
            out.append(Tok('word', mkstr(it[i:j])))
            i = j
            continue
        for op in OPS:
            if it[i:i + len(op)] == list(op):
                out.append(Tok('op', op))
                i += len(op)
                break
        else:
            raise SqlError('unexpected character %r' % c)
    return out


def key(name):
    return name if isinstance(name, str) else name.key()


class Parser(object):
    def __init__(self, toks, dialect):
        self.t = toks
        self.i = 0
        self.d = dialect

    # -- helpers
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else Tok('eof', None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def at(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t.kw() != w and not (t.kind == 'op' and t.val == w):
                return False
        return True

    def take(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def want(self, *words):
        if not self.take(*words):
            raise SqlError('expected %s, found %s' % (' '.join(words), ' '.join(repr(self.peek(k)) for k in range(5))))

    def name(self):
        t = self.next()
        if t.kind != 'word' or (t.kw() in KEYWORDS and not t.quoted):
            raise SqlError('expected a name, found %r' % (t,))
        return t.val

    # -- expressions
    def expr(self):
        return self.or_()

    def _join(self, seg, word):
        """A join of conditions: (('join', op, parts)) with separator OR, AND or ','."""
        sep = seg.sep if isinstance(seg.sep, str) else None
        if sep is None:
            raise Unsupported('separator %r' % (seg.sep,))
        op = sep.strip().lower()
        if op not in ('or', 'and', ','):
            raise Unsupported('conditions joined by %r' % sep)
        if op != ',' and sep.strip() == sep:
            pass        # "(a)OR(b)": fine only between parentheses, which the part parser sees
        parts = []
        for p in seg.parts:
            if isinstance(p, Gen):
                alts = []
                for conds, items in p.alts:
                    alts.append((conds, [self.part(x, op, sep) for x in items]))
                parts.append(('gen', p, alts))
            else:
                parts.append(self.part(p, op, sep))
        return op, parts

    def part(self, text, op, sep):
        if isinstance(text, (Lines, Gen)):
            raise Unsupported('part %r of a condition' % (text,))
        toks = tokenize(text)
        if op != ',' and sep.strip() == sep and not (toks and toks[0].val == '(' and toks[-1].val == ')'):
            raise SqlError('conditions joined without white space: %r' % (text,))
        p = Parser(toks, self.d)
        e = p.not_() if op == 'and' else p.and_() if op == 'or' else p.expr()
        if p.peek().kind != 'eof':
            # the separator binds looser than what the part contains
            if op == 'and' and p.at('or'):
                raise Unsupported('OR inside an AND list without parentheses')
            raise SqlError('unexpected %r in a condition' % (p.peek(),))
        return e

    def or_(self):
        parts = [self.and_()]
        while self.take('or'):
            parts.append(self.and_())
        return parts[0] if len(parts) == 1 else ('or', parts)

    def and_(self):
        parts = [self.not_()]
        if parts[0][0] == 'joinop':
            op, ps = parts[0][1:]
            if self.at('and') or self.at('or'):
                if op == 'or' and self.at('and'):
                    raise Unsupported('OR list followed by AND')
            parts[0] = ('join', op, ps)
        while self.take('and'):
            e = self.not_()
            if e[0] == 'joinop':
                if e[1] == 'or':
                    raise Unsupported('OR list after AND')
                e = ('join', e[1], e[2])
            parts.append(e)
        return parts[0] if len(parts) == 1 else ('and', parts)

    def not_(self):
        if self.take('not'):
            e = self.not_()
            if e[0] == 'joinop':
                raise Unsupported('NOT before a list')
            return ('not', e)
        return self.cmp()

    def cmp(self):
        if self.peek().kind == 'join':
            t = self.next()
            if isinstance(t.val, Reindented):
                raise Unsupported('unknown text as a condition')
            op, parts = self._join(t.val, None)
            if op == ',':
                raise Unsupported('comma list as a condition')
            return ('joinop', op, parts)
        a = self.add()
        while True:
            if self.take('<=>'):
                if self.d != 'mysql':
                    raise SqlError('<=> is not an operator of this database')
                a = ('cmp', 'nulleq', a, self.add())
            elif self.at('=') or self.at('==') or self.at('<>') or self.at('!=') or self.at('<') or self.at('>') or self.at('<=') or self.at('>='):
                op = self.next().val
                if op == '==':
                    if self.d != 'sqlite3':
                        raise SqlError('== is not an operator of this database')
                    op = '='
                if op == '!=':
                    op = '<>'
                a = ('cmp', op, a, self.add())
            elif self.take('is'):
                neg = self.take('not')
                if self.take('null'):
                    a = ('isnull', a, neg)
                elif self.take('distinct', 'from'):
                    a = ('cmp', 'nulleq' if neg else 'isdist', a, self.add())
                elif self.take('true'):
                    a = ('istrue', a, neg)
                elif self.take('false'):
                    a = ('isfalse', a, neg)
                else:
                    if self.d != 'sqlite3':
                        raise SqlError('IS with a value is not an operator of this database')
                    a = ('cmp', 'isdist' if neg else 'nulleq', a, self.add())
            elif self.at('not', 'in') or self.at('in'):
                neg = self.take('not')
                self.want('in')
                self.want('(')
                if self.at('select'):
                    s = self.select()
                    self.want(')')
                    a = ('in', a, s, neg)
                else:
                    l = self.exprs()
                    self.want(')')
                    a = ('inlist', a, l, neg)
            else:
                return a

    def exprs(self):
        out = [self.expr()]
        while self.take(','):
            out.append(self.expr())
        return out

    def add(self):
        a = self.mul()
        while self.at('+') or self.at('-') or self.at('||'):
            op = self.next().val
            a = ('arith', op, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.at('*') or self.at('/') or self.at('%'):
            op = self.next().val
            a = ('arith', op, a, self.unary())
        return a

    def unary(self):
        if self.take('-'):
            return ('neg', self.unary())
        if self.d == 'mysql' and self.take('binary'):
            return ('cast', self.unary(), 'binary')
        e = self.primary()
        while self.take('::'):
            t = self.name()
            e = ('cast', e, t.lower() if isinstance(t, str) else t)
        return e

    def primary(self):
        t = self.next()
        if t.kind == 'num':
            return ('num', t.val)
        if t.kind == 'str':
            return ('str', t.val)
        if t.kind == 'ph':
            return ('ph',)
        if t.kind == 'text':
            return ('text', t.val)
        if t.kind == 'op' and t.val == '(':
            if self.at('select'):
                e = ('scalar', self.select())
            else:
                e = self.expr()
                if e[0] == 'joinop':
                    e = ('join', e[1], e[2])
            self.want(')')
            return e
        if t.kind == 'word':
            k = t.kw()
            if k == 'null':
                return ('null',)
            if k in ('true', 'false'):
                return ('bool', k == 'true')
            if k == 'exists':
                self.want('(')
                s = self.select()
                self.want(')')
                return ('exists', s)
            if k == 'case':
                whens = []
                while self.take('when'):
                    c = self.expr()
                    self.want('then')
                    whens.append((c, self.expr()))
                els = self.expr() if self.take('else') else ('null',)
                self.want('end')
                if not whens:
                    raise Unsupported('CASE with an operand')
                return ('case', whens, els)
            if k == 'cast' and self.at('('):
                self.want('(')
                e = self.expr()
                self.want('as')
                ty = self.name()
                if self.take('('):
                    while not self.take(')'):
                        self.next()
                self.want(')')
                return ('cast', e, ty.lower() if isinstance(ty, str) else ty)
            if k in KEYWORDS and not (k in ('replace', 'if', 'left') and self.at('(')):
                raise SqlError('unexpected %s' % k)
            if self.take('('):
                args = [] if self.at(')') else self.exprs()
                self.want(')')
                return ('func', k or t.val, args)
            if self.take('.'):
                n = self.next()
                if n.kind != 'word':
                    raise SqlError('expected a column after %r., found %r' % (t.val, n))
                q = t.val
                if isinstance(q, str) and q.lower() in ('new', 'old') and not t.quoted:
                    q = q.lower()
                return ('col', q, n.val)
            return ('col', None, t.val)
        raise SqlError('unexpected %r' % (t,))

    # -- statements
    def select(self):
        self.want('select')
        distinct = self.take('distinct')
        if self.peek().kind == 'join':
            raise Unsupported('unbounded select list')
        cols = self.exprs()
        frm = None
        alias = None
        if self.take('from'):
            frm = self.name()
            if self.take('as'):
                alias = self.name()
            elif self.peek().kind == 'word' and (self.peek().kw() not in KEYWORDS):
                alias = self.name()
            if self.at(',') or self.at('inner') or self.at('join') or self.at('left'):
                raise Unsupported('join in a trigger select')
        where = None
        if self.take('where'):
            where = self.expr()
            if where[0] == 'joinop':
                where = ('join', where[1], where[2])
            if self.at(','):
                raise SqlError('comma in a WHERE clause')
        if self.take('limit'):
            raise Unsupported('LIMIT in a trigger')
        if self.at('order') or self.at('group') or self.at('union') or self.at('having'):
            raise Unsupported('%s in a trigger' % self.peek().val)
        return {'cols': cols, 'table': frm, 'alias': alias, 'where': where, 'distinct': distinct}

    def stmts(self, *stop):
        out = []
        while True:
            t = self.peek()
            if t.kind == 'eof':
                return out
            if t.kw() in stop:
                return out
            if t.kind == 'op' and t.val == ';':
                self.i += 1
                continue
            s, semi = self.stmt()
            out.append(s)
            if semi and not self.take(';'):
                if self.peek().kw() in ('on', 'returning', 'order', 'limit', 'using'):
                    raise Unsupported('%s after a statement' % self.peek().kw())
                raise SqlError('missing ; before %r' % (self.peek(),))

    def stmt(self):
        """(statement, needs a semicolon)"""
        t = self.peek()
        if t.kind in ('join', 'text'):
            self.i += 1
            return ('opaque', t.val), False
        k = t.kw()
        if k == 'insert':
            return self.insert(), True
        if k == 'replace':
            self.i += 1
            return self.insert_tail('replace'), True
        if k == 'update':
            return self.update(), True
        if k == 'delete':
            self.want('delete', 'from')
            tab = self.name()
            w = self.expr() if self.take('where') else None
            return ('delete', tab, w), True
        if k == 'begin':
            if self.d != 'postgresql':
                raise Unsupported('nested block')
            self.i += 1
            body = self.stmts('exception', 'end')
            handler = None
            if self.take('exception'):
                handler = []
                while self.take('when'):
                    cond = self.name()
                    self.want('then')
                    h = self.stmts('end', 'when')
                    handler.append((cond, h))
            self.want('end')
            return ('block', body, handler), True
        if k == 'if':
            self.i += 1
            branches = []
            c = self.cond()
            self.want('then')
            branches.append((c, self.stmts('elsif', 'elseif', 'else', 'end')))
            els = None
            while self.take('elsif') or self.take('elseif'):
                c = self.cond()
                self.want('then')
                branches.append((c, self.stmts('elsif', 'elseif', 'else', 'end')))
            if self.take('else'):
                els = self.stmts('end')
            self.want('end', 'if')
            return ('if', branches, els), True
        if k == 'return':
            self.i += 1
            e = self.name() if self.peek().kw() not in ('null',) else self.next().val
            return ('return', e), True
        if k == 'null':
            self.i += 1
            return ('nop',), True
        raise SqlError('unknown statement at %s' % ' '.join(repr(self.peek(j)) for j in range(4)))

    def cond(self):
        e = self.expr()
        if e[0] == 'joinop':
            e = ('join', e[1], e[2])
        return e

    def insert(self):
        self.want('insert')
        mode = 'plain'
        if self.take('or'):
            if self.d != 'sqlite3':
                raise SqlError('INSERT OR is not a statement of this database')
            mode = self.next().kw()
            if mode not in ('replace', 'ignore'):
                raise Unsupported('INSERT OR %s' % mode)
        elif self.take('ignore'):
            if self.d != 'mysql':
                raise SqlError('INSERT IGNORE is not a statement of this database')
            mode = 'ignore'
        elif self.peek().kw() in ('delayed', 'low_priority', 'high_priority', 'overwrite'):
            raise Unsupported('INSERT %s' % self.peek().kw())
        return self.insert_tail(mode)

    def insert_tail(self, mode):
        self.want('into')
        tab = self.name()
        self.want('(')
        cols = [self.name()]
        while self.take(','):
            cols.append(self.name())
        self.want(')')
        if self.take('values'):
            rows = []
            while True:
                self.want('(')
                rows.append(self.exprs())
                self.want(')')
                if not self.take(','):
                    break
            src = ('values', rows)
        elif self.take('('):
            src = ('select', self.select())
            self.want(')')
        else:
            src = ('select', self.select())
        if self.take('on', 'conflict'):
            while not self.at('do'):
                self.next()
            self.want('do', 'nothing')
            mode = 'ignore'
        return ('insert', tab, cols, src, mode)

    def update(self):
        self.want('update')
        tab = self.name()
        self.want('set')
        sets = []
        while True:
            c = self.name()
            self.want('=')
            sets.append((c, self.expr()))
            if not self.take(','):
                break
        where = self.cond() if self.take('where') else None
        if self.peek().kind == 'op' and self.peek().val == ',':
            raise SqlError('comma in a WHERE clause')
        return ('update', tab, sets, where)


class TriggerDef(object):
    def __init__(self):
        self.name = self.time = self.event = self.table = None
        self.when = None
        self.body = None
        self.fname = None

    def __repr__(self):
        return 'TRIGGER %s %s %s ON %s WHEN %s DO %s' % (self.name, self.time, self.event, self.table, self.when, self.body)


def parse_trigger(text, dialect):
    """The CREATE TRIGGER text of a backend as a TriggerDef."""
    p = Parser(tokenize(text), dialect)
    d = TriggerDef()
    fbody = None
    if dialect == 'postgresql':
        p.want('create')
        if p.take('or'):
            p.want('replace')
        p.want('function')
        d.fname = p.name()
        p.want('(', ')')
        p.want('returns', 'trigger')
        p.want('as')
        p.want('$$')
        p.want('begin')
        fbody = p.stmts('end')
        p.want('end')
        p.take(';')
        p.want('$$')
        p.want('language')
        if p.name() != 'plpgsql':
            raise SqlError('language')
        p.want(';')
        if p.at('drop', 'trigger'):
            raise Unsupported('DROP TRIGGER before CREATE')
    p.want('create')
    if p.take('or'):
        p.want('replace')
    p.want('trigger')
    if p.at('if'):
        raise Unsupported('CREATE TRIGGER IF NOT EXISTS')
    d.name = p.name()
    t = p.next().kw()
    if t not in ('after', 'before'):
        raise SqlError('trigger time %r' % t)
    d.time = t
    e = p.next().kw()
    if e not in ('insert', 'update', 'delete'):
        raise SqlError('trigger event %r' % e)
    d.event = e
    if e == 'update' and p.at('of'):
        raise Unsupported('UPDATE OF')
    p.want('on')
    d.table = p.name()
    if dialect != 'sqlite3' or p.at('for'):
        p.want('for', 'each', 'row')
    if p.take('when'):
        if dialect == 'mysql':
            raise SqlError('WHEN is not part of a MySQL trigger')
        p.want('(')
        d.when = p.cond()
        p.want(')')
    if dialect == 'postgresql':
        if not (p.take('execute', 'procedure') or p.take('execute', 'function')):
            raise SqlError('EXECUTE PROCEDURE expected')
        f = p.name()
        p.want('(', ')')
        if key(f) != key(d.fname):
            raise SqlError('trigger executes another function')
        if not fbody or fbody[-1][0] != 'return':
            raise SqlError('trigger function does not return')
        d.body = fbody[:-1]
    else:
        p.want('begin')
        d.body = p.stmts('end')
        p.want('end')
    p.take(';')
    if p.peek().kind != 'eof':
        raise SqlError('unexpected %r after the trigger' % (p.peek(),))
    if not d.body:
        if dialect == 'sqlite3':
            raise SqlError('empty trigger body')
    return d
