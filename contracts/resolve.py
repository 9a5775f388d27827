"""Contracts of the functions that find the relation a dependency is about."""
import z3

from pydv.core import SBool, SStr, Unsupported, ctx, mkstr, str_eq, symseq, zbool
from pydv.djstub import World, ident
from pydv.interp import Obj, PyExc
from .markers import python_error
from .schema import tag_model

KINDS = ('forward', 'backward', 'forward_m2m', 'backward_m2m')
CLASSES = ('CallbackDependOnRelated', 'CacheKeyDependOnRelated')
ASSUMED = [
    'model representations differ in more than letter case',
    'names and columns of the fields of one model differ (django checks it), so a name picks at most one field of each model',
    'a generic relation on the other model pointing back is not counted as a relation to follow',
    'django calls a function given to lazy_related_operation with the models once they exist, and not before',
]


class Relations(World):
    lazy = None

    def lazy_related(self, fn, model, rel, kw):
        ctx().effect('lazy', fn, model, rel, kw)

    # -- relation fields; attname of a foreign key is its name followed by _id
    def fk(self, src, name, dst, as_text=None, cls='ForeignKey'):
        f = self.field(src, name, cls, remote=dst)
        f.attrs['attname'] = mkstr([f.attrs['name'], '_id'])
        return self.named(f, as_text)

    def named(self, f, as_text):
        if as_text is not None:
            f.attrs['remote_field'].attrs['model'] = as_text
            f.attrs['related_model'] = as_text
            for a in ('foreign_related_fields', 'target_field', 'related_field'):
                f.attrs.pop(a, None)
        return f


def spelled(c, src, dst):
    """How a relation may name its model: the class, or a text when the class did not exist yet."""
    n = dst.ident_
    ways = [None, n, 'app.' + n, 'app.' + n.lower()] + (['self'] if src is dst else [])
    return ways[c.choose(len(ways), 'spelling')]


class Setup(object):
    def __init__(self, c, selfrel, naming, kind):
        self.c = c
        w = self.w = Relations('sqlite3')
        self.I = w.start()
        self.naming, self.selfrel = naming, selfrel
        self.third = tag_model(w)
        self.this = w.model('This', app_label='app')
        self.other = self.this if selfrel else w.model('Other', app_label='app')
        for m in (self.this, self.other):
            m.ctfield_ = w.field(m, 'ct', 'ForeignKey', remote=w.ContentType)
            m.oidfield_ = w.field(m, 'oid', 'PositiveIntegerField')
        self.name = ident('given') if naming == 'text' else None
        self.kind = kind
        self.matching = []
        self.varied = False
        self.sides = [('forward', self.this, self.other)] + ([] if selfrel else [('backward', self.other, self.this)])
        for d, src, dst in self.sides:
            self.noise(d, src, dst)
        self.relations()

    # -- fields that do not match
    def noise(self, d, src, dst):
        w, third = self.w, self.third
        src.fields_ += symseq(d + '_plain', lambda n: w.field(src, n), nmax=1, nmin=1)
        src.fields_ += symseq(d + '_away', lambda n: w.fk(src, n, third), nmax=1, nmin=1)
        src.fields_.append(w.fk(src, d + '_awaytext', third, as_text='Third'))
        src.fields_.append(w.fk(src, d + '_twin', third, as_text='elsewhere.' + dst.ident_))
        src.m2m_ += symseq(d + '_mmaway', lambda n: w.m2m(src, n, third), nmax=1, nmin=1)
        src.private_ += symseq(d + '_graway', lambda n: w.generic_relation(src, n, third), nmax=1, nmin=1)
        src.private_ += symseq(d + '_gfk', lambda n: w.generic_fk(src, n, third.ctfield_, third.oidfield_), nmax=1, nmin=1)
        if self.naming:
            src.fields_ += symseq(d + '_fkname', lambda n: self.unnamed(w.fk(src, n, dst)), nmax=1, nmin=1)
            src.m2m_ += symseq(d + '_mmname', lambda n: self.unnamed(w.m2m(src, n, dst)), nmax=1, nmin=1)

    def matches(self, f):
        return z3.Or([zbool(str_eq(f.attrs[a], self.name)) for a in ('name', 'attname')])

    def unnamed(self, f):
        if self.name is not None:
            self.c.axiom(z3.Not(self.matches(f)))
        else:
            self.unmatched = getattr(self, 'unmatched', []) + [f]
        return f

    # -- fields that match
    def relations(self):
        c, w = self.c, self.w
        groups = []
        for d, src, dst in self.sides:
            groups.append((d, src, dst, 'fk'))
            groups.append((d + '_m2m', src, dst, 'm2m'))
        if self.naming:
            for d, src, dst in self.sides:
                n = c.choose(3, 'the named field of ' + d)
                if n:
                    self.group(d + ('_m2m' if n == 2 else ''), src, dst, 'm2m' if n == 2 else 'fk', 1)
            return
        for g in groups:
            wanted = self.kind is None or (isinstance(self.kind, str) and (g[0] == self.kind or self.selfrel))
            self.group(*g, n=c.choose(3 if wanted and len(self.matching) < 2 else 2, 'number of %s relations' % g[0]))

    def group(self, kind, src, dst, what, n):
        """n matching relations of one kind; 2 stands for two or more."""
        c, w = self.c, self.w
        fields = src.fields_ if what == 'fk' else src.m2m_
        for i in range(n):
            text = None
            if not self.varied and n == 1:
                self.varied = True
                text = spelled(c, src, dst)
            nm = '%s_rel%d' % (kind, i)
            if what == 'fk':
                f = w.fk(src, nm, dst, text, 'OneToOneField' if i else 'ForeignKey')
                fields.append(f)
            elif kind.startswith('forward') and not i and c.choose(2, 'generic'):
                f = w.named(w.generic_relation(src, nm, dst), text)
                src.private_.append(f)
            else:
                f = w.named(w.m2m(src, nm, dst), text)
                fields.append(f)
            if self.naming == 'text':
                c.assume(self.matches(f))
            elif self.naming == 'field':
                if self.name is None:
                    self.name = f.attrs['attname']
                    self.given = f
                else:
                    c.assume(zbool(str_eq(f.attrs['attname'], self.name)))
            self.matching.append((kind, f))
        if n == 2:
            if what == 'fk':
                fields += symseq(kind + '_more', lambda k: w.fk(src, k, dst), nmax=1)
            else:
                fields += symseq(kind + '_more', lambda k: w.m2m(src, k, dst), nmax=1)

    def expected(self):
        out = list(self.matching)
        if self.selfrel and self.kind is not None:
            out += [(k.replace('forward', 'backward'), f) for k, f in out]
        if self.kind is not None:
            out = [x for x in out if x[0] == self.kind]
        return out


def given_kind(c, kind):
    if kind != 'unknown':
        return kind
    k = ident('kind')
    for n in KINDS:
        c.assume(z3.Not(zbool(str_eq(k, n))))
    return k


def resolve_unit(selfrel, naming, kind, cls='CallbackDependOnRelated'):
    def harness(c):
        k = given_kind(c, kind)
        s = Setup(c, selfrel, naming, k)
        I = s.I
        p = 'resolve/%s%s/%s: ' % ('itself/' if selfrel else '', naming or 'no name', kind or 'any kind')
        if naming == 'field':
            if s.name is None:
                return
            for f in getattr(s, 'unmatched', []):
                c.axiom(z3.Not(s.matches(f)))
        D = I.getattr(I.load('denorm.dependencies'), cls)
        kw = {}
        if naming:
            kw['foreign_key'] = s.given if naming == 'field' else s.name
        if kind is not None:
            kw['type'] = k
        way = c.choose(3 if selfrel else 2, 'target given as')
        if way == 1:
            target = 'app.' + s.other.ident_
        elif way == 2:
            target = 'self'
        else:
            target = s.other
        error = None
        try:
            d = I.call(D, (target,), kw)
            I.call(I.getattr(d, 'setup'), (s.this,))
            for e in list(c.effects):
                if e[0] != 'lazy':
                    continue
                _, fn, model, rel, kws = e
                got = [s.w.resolve_relation(model, r) for r in rel]
                if model is not s.this or got != [target]:
                    raise Unsupported('the models waited for')
                I.call(fn, (s.this, s.other), kws)
            if c.choose(2, 'another model is defined later'):
                # django announces every new model to every field
                I.call(I.getattr(d, 'setup'), (s.this,))
        except PyExc as e:
            if e.level == 0:
                raise
            error = e
        exp = s.expected()
        if len(exp) == 1:
            if error is not None:
                c.fail(p + 'the only matching relation is accepted', '%s, relation %s' % (python_error(error), exp[0]))
                return
            for a in ('type', 'field', 'other_model'):
                if a not in d.attrs:
                    raise Unsupported('the dependency does not tell its %s' % a)
            c.prove(p + 'the matching relation is taken', z3.BoolVal(d.attrs['field'] is exp[0][1]), '%r instead of %r' % (d.attrs['field'], exp[0][1]))
            c.prove(p + 'its kind and direction are kept', zbool(I.eq(d.attrs['type'], exp[0][0])), '%r instead of %r' % (d.attrs['type'], exp[0][0]))
            c.prove(p + 'the model depended on is the one named', z3.BoolVal(d.attrs.get('other_model') is s.other), repr(d.attrs.get('other_model')))
            c.cover('resolve: one relation matches')
        elif not exp:
            c.prove(p + 'a dependency without a matching relation is rejected', z3.BoolVal(error is not None), 'took %r' % (error or d.attrs.get('field'),))
            c.cover('resolve: no relation matches')
        else:
            c.prove(p + 'a dependency matching several relations is rejected', z3.BoolVal(error is not None),
                    'took %r of %r' % (error or d.attrs.get('field'), exp))
            c.cover('resolve: several relations match')
    return harness


def missing_unit(cls):
    """The model depended on never appears."""
    def harness(c):
        w = Relations('sqlite3')
        I = w.start()
        this = w.model('This', app_label='app')
        kinds = (None,) + KINDS + ('unknown',)
        kind = kinds[c.choose(len(kinds), 'kind')]
        kw = {}
        if kind is not None:
            kw['type'] = given_kind(c, kind)
        if c.choose(2, 'named'):
            kw['foreign_key'] = ident('given')
        D = I.getattr(I.load('denorm.dependencies'), cls)
        error = None
        trigs = None
        try:
            d = I.call(D, ('app.Missing',), kw)
            I.call(I.getattr(d, 'setup'), (this,))
            trigs = I.call(I.getattr(d, 'get_triggers'), (None,))
        except PyExc as e:
            if e.level == 0:
                raise
            error = e
        c.prove('missing/%s: a dependency on a model that never appears is rejected' % cls, z3.BoolVal(error is not None),
                'type %s: triggers %r' % (kind, trigs))
        c.cover('missing: %s' % (kind,))
    return harness
