"""Contracts of the parts of Django and the standard library that the verified code calls.

Everything here is an assumption about code outside the repository (listed by
`ASSUMED` for the evidence); attributes that are not declared raise Unsupported.
"""
import z3

from .core import Atom, SStr, SBool, SInt, Gen, Unsupported, ctx, symseq, mkstr, segs_of, str_eq, zbool, Base
from .interp import (Cls, Obj, NativeFn, Lazy, Cond, ABSENT, OBJECT, EXC, Unknown, Interp, ModuleObj, throw, make_exc,
                     ClassM, StaticM, Prop, Bound, PyExc, SubText)

ASSUMED = [
    'django.db connection.ops.quote_name(n) yields n between the quote characters of the backend (once)',
    'django model metadata (_meta.pk, db_table, fields, get_fields(), column, attname, m2m_* names) describes the database schema',
    'ContentType.objects.get_for_model(m).pk identifies the model m',
    'schema names contain no white space, quotes, dots, commas, semicolons, percent signs or parentheses',
]


def ident(name):
    return SStr((Atom(name, 'ident'),))


def text(name, kind='text', meta=None):
    return SStr((Atom(name, kind, meta=meta),))


def nat(fn, name=None):
    return NativeFn(fn, name)


QUOTE = {'sqlite3': '"', 'postgresql': '"', 'mysql': '`'}
ENGINE = {'sqlite3': 'django.db.backends.sqlite3', 'postgresql': 'django.db.backends.postgresql_psycopg2',
          'mysql': 'django.db.backends.mysql'}
VENDOR = {'sqlite3': 'sqlite', 'postgresql': 'postgresql', 'mysql': 'mysql'}


def quote_name(backend):
    q = QUOTE[backend]

    def quote(name):
        if not isinstance(name, (str, SStr)):
            if isinstance(name, Unknown):
                raise Unsupported('quote_name(%r)' % name)
            throw('AttributeError', 'quote_name of a non-text')
        segs = segs_of(name)
        if segs and isinstance(segs[0], str) and segs[0].startswith(q) and isinstance(segs[-1], str) and segs[-1].endswith(q):
            return name
        return mkstr([q, name, q])
    return nat(quote, 'quote_name')


def flag(name):
    """A yes-or-no option of a declaration, of which nothing is known."""
    return SBool(z3.Bool(name))


class World(object):
    """One Django project: a backend, models and their metadata."""

    def __init__(self, backend='sqlite3', settings=None):
        self.backend = backend
        self.ct = {}
        self.databases = {}
        self.effects_cursor = True
        C = self.C = {}

        def cls(name, *bases, **kw):
            ns = kw.pop('ns', {})
            c = Cls(name, [C[b] for b in bases] or [OBJECT], ns, native=True, **kw)
            C[name] = c
            return c
        cls('Field', absent=('rel', 'related', 'through_model', 'm2m_db_table', 'denorm', 'denorm_always_skip', 'virtual_fields'))
        for n in ('AutoField', 'CharField', 'TextField', 'IntegerField', 'BigIntegerField', 'PositiveIntegerField',
                  'SmallIntegerField', 'BooleanField', 'DateTimeField', 'FloatField', 'DecimalField'):
            cls(n, 'Field')
        cls('ForeignObject', 'Field')
        cls('ForeignKey', 'ForeignObject')
        cls('OneToOneField', 'ForeignKey')
        cls('RelatedField', 'Field')
        cls('ManyToManyField', 'RelatedField')
        cls('GenericRelation', 'ForeignObject')
        cls('GenericForeignKey', absent=('attname', 'column', 'denorm', 'get_attname_column'))
        cls('ForeignObjectRel', absent=('attname', 'column', 'denorm', 'db_type', 'get_attname_column', 'rel'))
        cls('ManyToOneRel', 'ForeignObjectRel')
        cls('OneToOneRel', 'ManyToOneRel')
        cls('ManyToManyRel', 'ForeignObjectRel')
        cls('Model', absent=('denorm_always_skip', 'rel'))
        cls('ModelMeta')
        cls('Manager')
        cls('QuerySet')
        cls('BaseCommand', ns={'stderr': Lazy(lambda: self.sink), 'stdout': Lazy(lambda: self.sink),
                               'style': Lazy(lambda: self.style)})
        cls('WhereNode')
        cls('Query')
        cls('SQLCompiler')
        cls('Plain')
        self.sink = Obj(C['Plain'], {'write': nat(lambda *a, **k: None)}, label='stream')
        self.style = Obj(C['Plain'], {'ERROR': nat(lambda s: s), 'SUCCESS': nat(lambda s: s), 'NOTICE': nat(lambda s: s),
                                      'WARNING': nat(lambda s: s)}, label='style')
        dberr = Cls('DatabaseError', [EXC['Exception']], {}, native=True)
        self.DatabaseError = dberr
        C['DatabaseError'] = dberr
        for n in ('OperationalError', 'IntegrityError', 'ProgrammingError', 'DataError', 'InternalError', 'NotSupportedError'):
            C[n] = Cls(n, [dberr], {}, native=True)
        C['Error'] = Cls('Error', [EXC['Exception']], {}, native=True)
        self.settings = Obj(C['Plain'], dict(settings or {}), label='settings',
                            absent=('DENORM_FLUSH_AFTER_REQUEST', 'DENORM_BULK_UNSAFE_TRIGGERS'))
        for k in list(self.settings.attrs):
            self.settings.absent.discard(k)
        self.connection = self.make_connection('default')
        self.connections = Obj(Cls('ConnectionHandler', [OBJECT], {
            '__getitem__': nat(lambda s, alias: self.conn_for(alias)),
        }, native=True), {}, label='connections')
        self.interp = None

        def finit(self_, *a, **k):
            self_.attrs['ctor_'] = (a, k)
        C['Field'].ns['__init__'] = nat(finit)
        C['Field'].ns['contribute_to_class'] = nat(self.contribute)
        C['GenericForeignKey'].ns['__init__'] = nat(finit)
        C['Model'].ns['__classhook__'] = self.class_hook
        self.stubs = self.make_stubs()

    # -- connections
    def make_connection(self, alias):
        C = self.C
        ops = Obj(C['Plain'], {
            'quote_name': quote_name(self.backend),
            'max_name_length': nat(lambda: 63 if self.backend == 'postgresql' else 64 if self.backend == 'mysql' else None),
            'field_cast_sql': Unknown('field_cast_sql'),
        }, label='ops')
        feat = Obj(C['Plain'], {'can_rollback_ddl': self.backend != 'mysql', 'autocommits_when_autocommit_is_off': self.backend == 'sqlite3'}, label='features')
        o = Obj(C['Plain'], {
            'ops': ops, 'vendor': VENDOR[self.backend], 'alias': alias, 'features': feat,
            'settings_dict': {'ENGINE': ENGINE[self.backend]},
            'cursor': nat(lambda: self.make_cursor(alias)),
        }, label='connection[%s]' % alias)
        return o

    def conn_for(self, alias):
        if isinstance(alias, str) and alias == 'default':
            return self.connection
        key = alias if isinstance(alias, str) else alias.key()
        if key not in self.databases:
            self.databases[key] = self.make_connection(alias)
        return self.databases[key]

    def make_cursor(self, alias):
        raise Unsupported('cursor')

    # -- schema
    def meta(self, cls_, **attrs):
        return Obj(self.C['ModelMeta'], attrs, label='meta', absent=('virtual_fields', 'get_fields_with_model'))

    def model(self, name, pk=None, **kw):
        """A model class: table, primary key and further fields are symbolic names."""
        C = self.C
        skip = kw.pop('always_skip', None)
        base = C['Model']
        if skip is not None:
            # the attribute may come from a base class
            base = Cls('Base', [base], {'denorm_always_skip': skip}, native=True, module='app')
        m = Cls(name, [base], {}, native=True, module='app')
        m.ident_ = name
        m.world_ = self
        table = kw.pop('table', None) or ident('table_' + name)
        m.pk_ = None
        meta = self.meta(m, db_table=table, app_label=kw.pop('app_label', None) or ident('app_' + name),
                         proxy=kw.pop('proxy', False), swapped=kw.pop('swapped', None), model=m,
                         object_name=name, model_name=name.lower(), abstract=False, auto_created=False,
                         concrete_model=m, parents={}, managed=kw.pop('managed', None) or flag('managed_' + name))
        m.fields_ = []
        m.m2m_ = []
        m.private_ = []
        m.rels_ = []
        m.inherited_ = []

        def own():
            return list(m.fields_)

        def allf():
            return list(m.inherited_) + list(m.fields_)
        A = meta.attrs
        A['fields'] = Lazy(lambda: tuple(allf()))
        A['local_fields'] = Lazy(own)
        A['concrete_fields'] = Lazy(lambda: tuple(allf()))
        A['local_concrete_fields'] = Lazy(lambda: tuple(own()))
        A['many_to_many'] = Lazy(lambda: tuple(m.m2m_))
        A['local_many_to_many'] = Lazy(lambda: list(m.m2m_))
        A['private_fields'] = Lazy(lambda: list(m.private_))
        A['related_objects'] = Lazy(lambda: tuple(m.rels_))
        A['get_fields'] = nat(lambda include_parents=True, include_hidden=False:
                              tuple(list(m.rels_) + (allf() if include_parents is True else own()) + list(m.m2m_) + list(m.private_)))
        A['get_field'] = nat(lambda n: self.get_field(m, n))
        A['pk'] = Lazy(lambda: m.pk_)
        A['label'] = mkstr([A['app_label'], '.', name])
        A['label_lower'] = mkstr([A['app_label'], '.', name.lower()])
        m.ns['_meta'] = meta
        m.ns['__name__'] = kw.pop('pyname', None) or name
        m.ns['DoesNotExist'] = Cls('DoesNotExist', [EXC['Exception']], {}, native=True)
        if pk is not False:
            m.pk_ = pk or self.field(m, 'pk', 'AutoField', primary_key=True)
            m.fields_.append(m.pk_)
        assert not kw, kw
        return m

    def get_field(self, m, n):
        """Looks a field up by the very name it carries (or a literal one); anything else is not known to exist."""
        k = n.key() if isinstance(n, SStr) else n
        for f in list(m.inherited_) + list(m.fields_) + list(m.m2m_) + list(m.private_) + list(m.rels_):
            for x in ([x for _, items in f.alts for x in items] if isinstance(f, Gen) else [f]):
                fn = x.attrs['name']
                if (fn.key() if isinstance(fn, SStr) else fn) == k:
                    return x
        raise Unsupported('get_field(%r)' % (n,))

    def field(self, model, name, cls='CharField', primary_key=False, remote=None, null=None, label=None, db_type='known', model_attr=None):
        C = self.C
        nm = '%s_%s' % (getattr(model, 'ident_', 'm'), name)
        f = Obj(C[cls], {}, label=label or nm)
        fname = ident('name_' + nm)
        col = ident('col_' + nm)
        att = ident('att_' + nm)
        A = f.attrs
        rel = C[cls].issub(C['ForeignKey'])
        A.update(name=fname, attname=att, column=col, model=model_attr or model, primary_key=primary_key, concrete=True,
                 is_relation=rel, one_to_one=cls == 'OneToOneField', many_to_one=rel and cls != 'OneToOneField',
                 many_to_many=False if rel else None, one_to_many=False if rel else None, auto_created=False,
                 related_model=remote if rel else None, null=flag('null_' + nm) if null is None else null,
                 blank=flag('blank_' + nm), editable=flag('editable_' + nm), hidden=False,
                 unique=True if primary_key else flag('unique_' + nm), db_index=flag('db_index_' + nm),
                 serialize=flag('serialize_' + nm), db_tablespace=Unknown('db_tablespace'), help_text=Unknown('help_text'),
                 db_column=None, remote_field=None, default=Unknown('default'), verbose_name=Unknown('verbose_name'))
        if not rel:
            A['one_to_one'] = None
            A['many_to_one'] = None
        f.absent.update(('denorm', 'rel', 'related', 'm2m_db_table'))
        if not rel:
            f.absent.update(('related_field', 'target_field'))
        A['get_attname_column'] = nat(lambda: (att, col))
        A['get_attname'] = nat(lambda: att)
        t = text('dbtype_' + nm) if db_type == 'known' else None
        if db_type == 'known':
            A['db_type'] = nat(lambda connection=None: t)
        elif db_type == 'maybe':
            b = SBool(z3.Bool('typed_' + nm))
            tt = text('dbtype_' + nm)
            A['db_type'] = nat(lambda connection=None: tt if ctx().branch(b) else None)
        else:
            A['db_type'] = nat(lambda connection=None: None)
        if rel:
            r = Obj(C['OneToOneRel' if cls == 'OneToOneField' else 'ManyToOneRel'], {
                'model': remote, 'field': f, 'on_delete': Unknown('on_delete'), 'parent_link': False,
                'multiple': cls != 'OneToOneField'}, label='rel')
            A['remote_field'] = r
            A['db_constraint'] = flag('db_constraint_' + nm)
            A['unique'] = A['unique'] if cls != 'OneToOneField' else True
            A['foreign_related_fields'] = Lazy(lambda: (remote.pk_,))
            A['target_field'] = Lazy(lambda: remote.pk_)
            A['related_field'] = Lazy(lambda: remote.pk_)
        return f

    def m2m(self, model, name, remote, through=None):
        C = self.C
        nm = '%s_%s' % (model.ident_, name)
        f = Obj(C['ManyToManyField'], {}, label='m2m ' + nm)
        fname = ident('name_' + nm)
        col, rev, table = ident('m2mcol_' + nm), ident('m2mrev_' + nm), ident('m2mtable_' + nm)
        f.attrs.update(name=fname, attname=fname, column=None, model=model, is_relation=True, many_to_many=True,
                       one_to_one=False, one_to_many=False, many_to_one=False, related_model=remote, concrete=False,
                       auto_created=False, hidden=False, primary_key=False, null=False, blank=flag('blank_' + nm),
                       editable=flag('editable_' + nm), unique=False, db_index=False, serialize=flag('serialize_' + nm),
                       m2m_db_table=nat(lambda: table), m2m_column_name=nat(lambda: col), m2m_reverse_name=nat(lambda: rev),
                       m2m_field_name=nat(lambda: ident('m2mfield_' + nm)),
                       m2m_reverse_field_name=nat(lambda: ident('m2mrevfield_' + nm)),
                       db_type=nat(lambda connection=None: None), get_attname=nat(lambda: fname),
                       get_attname_column=nat(lambda: (fname, None)))
        f.absent.update(('denorm', 'rel', 'related', 'object_id_field_name'))
        thr = Cls('Through' + nm, [C['Model']], {}, native=True)
        f.attrs['remote_field'] = Obj(C['ManyToManyRel'], {'model': remote, 'field': f, 'through': thr}, absent=('through_model',), label='rel')
        f.tables_ = (table, col, rev)
        return f

    def generic_relation(self, model, name, remote):
        """GenericRelation on model towards remote (which holds content type and object id columns)."""
        C = self.C
        nm = '%s_%s' % (model.ident_, name)
        f = Obj(C['GenericRelation'], {}, label='generic ' + nm)
        fname = ident('name_' + nm)
        ctf, oidf = remote.ctfield_, remote.oidfield_
        f.attrs.update(name=fname, attname=fname, column=None, model=model, is_relation=True, many_to_many=False,
                       one_to_one=False, one_to_many=True, many_to_one=False, related_model=remote, concrete=False,
                       auto_created=False, hidden=False, primary_key=False,
                       content_type_field_name=ctf.attrs['name'], object_id_field_name=oidf.attrs['name'],
                       db_type=nat(lambda connection=None: None), get_attname=nat(lambda: fname),
                       get_attname_column=nat(lambda: (fname, None)))
        f.absent.update(('denorm', 'rel', 'related', 'm2m_db_table', 'm2m_column_name', 'm2m_reverse_name'))
        f.attrs['remote_field'] = Obj(C['ForeignObjectRel'], {'model': remote, 'field': f}, absent=('through_model',), label='rel')
        return f

    def generic_fk(self, model, name, ctf, oidf):
        C = self.C
        f = Obj(C['GenericForeignKey'], {'name': ident('name_%s_%s' % (model.ident_, name)), 'model': model,
                                        'is_relation': True, 'many_to_one': True, 'one_to_one': False, 'one_to_many': False,
                                        'many_to_many': False, 'related_model': None, 'remote_field': None, 'concrete': False,
                                        'hidden': False, 'auto_created': False,
                                        'ct_field': ctf.attrs['name'], 'fk_field': oidf.attrs['name']}, label='gfk',
                absent=('attname', 'column', 'rel', 'db_type', 'denorm'))
        return f

    def contribute(self, f, cls_, name, *a, **k):
        """django.db.models.Field.contribute_to_class: the field becomes a column of the model."""
        ctx().effect('contribute', f, cls_, name, a, k)
        nm = '%s_%s' % (cls_.ident_, name if isinstance(name, str) else name.segs[0].name)
        col = ident('col_' + nm)
        att = name
        ctx().touch(f.attrs)
        f.attrs.update(name=name, attname=att, column=col, model=cls_, is_relation=False, concrete=True, primary_key=False,
                       get_attname_column=nat(lambda: (att, col)), db_type=nat(lambda connection=None: text('dbtype_' + nm)),
                       one_to_one=None, many_to_one=None, many_to_many=None, one_to_many=None, related_model=None,
                       auto_created=False, remote_field=None)
        ctx().touch(cls_.fields_)
        cls_.fields_.append(f)

    def reverse(self, model, name, remote, o2o=False, m2m=False):
        """A reverse relation object of model (ManyToOneRel, OneToOneRel or ManyToManyRel)."""
        C = self.C
        cls = 'ManyToManyRel' if m2m else 'OneToOneRel' if o2o else 'ManyToOneRel'
        nm = '%s_%s' % (model.ident_, name)
        return Obj(C[cls], {'name': ident('rname_' + nm), 'model': model, 'related_model': remote, 'is_relation': True,
                            'one_to_one': o2o, 'one_to_many': not o2o and not m2m, 'many_to_many': m2m, 'many_to_one': False,
                            'concrete': False, 'auto_created': True, 'hidden': False, 'remote_field': None,
                            'field': Lazy(lambda: Unknown('rel.field'))}, label='reverse ' + nm,
                   absent=('attname', 'column', 'db_type', 'denorm', 'rel'))

    def content_type(self, model):
        """The ContentType row of a model."""
        k = id(model)
        if k not in self.ct:
            n = 'ct_' + model.ident_
            o = Obj(self.C['Plain'], {'pk': SInt(z3.Int(n)), 'id': SInt(z3.Int(n)), 'model_class': nat(lambda: model)},
                    label=n)
            o.ct_of = model
            self.ct[k] = o
        return self.ct[k]

    def get_for_model(self, model, for_concrete_model=True):
        if isinstance(model, Obj) and model.cls.native:
            model = model.cls
        if not hasattr(model, 'ident_'):
            raise Unsupported('get_for_model(%r)' % (model,))
        m = getattr(model, 'concrete_', model) if for_concrete_model is True else model
        return self.content_type(m)

    def class_hook(self, interp, cls):
        """django.db.models.base.ModelBase: metadata of a model class declared in the repository."""
        meta = cls.ns.get('Meta')
        label = meta.ns.get('app_label') if meta is not None else None
        if not isinstance(label, str):
            label = cls.module.split('.')[-2]
        table = meta.ns.get('db_table') if meta is not None and 'db_table' in meta.ns else '%s_%s' % (label, cls.name.lower())
        cls.ident_ = cls.name
        cls.absent.update(('denorm_always_skip',))
        fields = []
        pk = Obj(self.C['AutoField'], {'name': 'id', 'attname': 'id', 'column': 'id', 'primary_key': True, 'model': cls,
                                       'get_attname_column': nat(lambda: ('id', 'id'))}, label='id')
        fields.append(pk)
        for n, f in list(cls.ns.items()):
            if isinstance(f, Obj) and f.cls.issub(self.C['Field']):
                att = n + '_id' if f.cls.issub(self.C['ForeignKey']) else n
                f.attrs.update(name=n, attname=att, column=f.attrs['ctor_'][1].get('db_column') or att, model=cls, primary_key=False)
                fields.append(f)
                del cls.ns[n]
            elif isinstance(f, Obj) and f.cls.issub(self.C['GenericForeignKey']):
                f.attrs.update(name=n, model=cls)
                cls.gfk_ = f
                del cls.ns[n]
        cls.ns['_meta'] = self.meta(cls, db_table=table, app_label=label, model=cls, pk=pk, fields=tuple(fields),
                                    proxy=False, swapped=None, object_name=cls.name, model_name=cls.name.lower(),
                                    get_field=nat(lambda n: [f for f in fields if f.attrs['name'] == n][0]))
        cls.ns.setdefault('objects', Lazy(lambda: self.manager(cls)))
        cls.columns_ = [f.attrs['column'] for f in fields]

    def manager(self, cls):
        raise Unsupported('%s.objects' % cls.name)

    # -- modules
    def make_stubs(self):
        C = self.C
        W = self
        ctmodel = Cls('ContentType', [C['Model']], {}, native=True)
        ctmodel.ident_ = 'ContentType'
        ctmodel.ns['objects'] = Obj(C['Manager'], {'get_for_model': nat(lambda m, **k: W.get_for_model(m, **k))}, label='ContentType.objects')
        self.ContentType = ctmodel
        models = {}
        for n in ('AutoField', 'CharField', 'TextField', 'IntegerField', 'BigIntegerField', 'PositiveIntegerField',
                  'SmallIntegerField', 'BooleanField', 'DateTimeField', 'FloatField', 'DecimalField', 'ForeignKey',
                  'OneToOneField', 'ManyToManyField', 'Field', 'Manager', 'QuerySet', 'Model'):
            models[n] = C[n]
        models['CASCADE'] = Unknown('CASCADE')
        C['F'] = Cls('F', [OBJECT], {'__init__': nat(lambda s, name: s.attrs.update(name=name))}, native=True)
        models['F'] = C['F']
        self.signals_log = []

        def signal(name):
            return Obj(C['Plain'], {'connect': nat(lambda f, sender=None, **k: ctx() and ctx().effect('connect', name, f, sender, k))},
                       label='signal ' + name)
        sig = ModuleObj('django.db.models.signals', dict((n, signal(n)) for n in ('class_prepared', 'pre_save', 'post_save')))
        models['signals'] = sig
        self.signals = sig
        sql = {'Query': C['Query']}
        transaction = {
            'atomic': nat(lambda using=None, savepoint=True: W.atomic(using)),
            'commit_unless_managed': ABSENT,
            'commit': nat(lambda using=None: W.tx('commit', using)),
            'rollback': nat(lambda using=None: W.tx('rollback', using)),
            'set_autocommit': nat(lambda flag, using=None: W.tx('autocommit', flag, using)),
            'get_autocommit': Unknown('get_autocommit'),
        }
        logger = Obj(C['Plain'], dict((n, nat(lambda *a, **k: W.log(*a))) for n in ('error', 'info', 'debug', 'warning', 'exception', 'warn')), label='logger')
        D = dict((n, C[n]) for n in ('DatabaseError', 'OperationalError', 'IntegrityError', 'ProgrammingError', 'DataError',
                                     'InternalError', 'NotSupportedError', 'Error'))
        route = nat(lambda model, **hints: W.route(model, hints))
        router = Obj(C['Plain'], {'db_for_write': route, 'db_for_read': route}, label='router')
        db = dict(D, router=router, connection=self.connection, connections=self.connections, DEFAULT_DB_ALIAS='default')
        stubs = {
            'django': {'VERSION': (2, 0, 13, 'final', 0)},
            'django.db': db,
            'django.db.utils': dict(D, DEFAULT_DB_ALIAS='default'),
            'django.db.models.expressions': {'F': C['F']},
            'django.db.models': models,
            'django.db.models.signals': sig.vars,
            'django.db.transaction': transaction,
            'django.db.models.fields': {},
            'django.db.models.fields.related': {
                'RECURSIVE_RELATIONSHIP_CONSTANT': 'self', 'ForeignObjectRel': C['ForeignObjectRel'],
                'ForeignKey': C['ForeignKey'], 'ManyToManyField': C['ManyToManyField'], 'OneToOneField': C['OneToOneField'],
                'lazy_related_operation': nat(lambda fn, model, *rel, **kw: W.lazy_related(fn, model, rel, kw)),
                'resolve_relation': nat(self.resolve_relation), 'add_lazy_relation': ABSENT},
            'django.db.models.fields.reverse_related': {'ForeignObjectRel': C['ForeignObjectRel']},
            'django.db.models.sql': sql,
            'django.db.models.sql.query': {'Query': C['Query']},
            'django.db.models.sql.where': {'WhereNode': C['WhereNode']},
            'django.db.models.sql.compiler': {'SQLCompiler': C['SQLCompiler']},
            'django.db.models.sql.datastructures': {'Join': Unknown('Join')},
            'django.db.models.aggregates': {'Sum': nat(lambda f: ('Sum', f))},
            'django.db.models.manager': {'Manager': C['Manager']},
            'django.db.models.query_utils': {'Q': Lazy(lambda: W.Q)},
            'django.db.models.functions': {},
            'django.db.models.related': ABSENT,
            'django.db.backends.utils': {'truncate_name': nat(lambda *a, **k: W.truncate_name(*a, **k))},
            'django.conf': {'settings': self.settings},
            'django.apps': {'apps': Lazy(lambda: W.apps)},
            'django.contrib': {},
            'django.contrib.contenttypes': {},
            'django.contrib.contenttypes.models': {'ContentType': ctmodel},
            'django.contrib.contenttypes.fields': {'GenericForeignKey': C['GenericForeignKey'], 'GenericRelation': C['GenericRelation']},
            'django.contrib.contenttypes.generic': ABSENT,
            'django.core.management.base': {'BaseCommand': C['BaseCommand'],
                                            'CommandError': Cls('CommandError', [EXC['Exception']], {}, native=True)},
            'django.core.signals': {},
            'django.utils': {},
            'django.utils.deprecation': {'MiddlewareMixin': self.middleware_mixin()},
            'six': {'string_types': Lazy(lambda: (W.interp.builtins['str'],)),
                    'iteritems': nat(lambda d: W.interp.call(W.interp.getattr(d, 'items')))},
            'logging': {'getLogger': nat(lambda *a: logger)},
            'abc': {'ABCMeta': Unknown('ABCMeta'), 'abstractmethod': nat(lambda f: f), 'ABC': OBJECT},
            'decimal': {'Decimal': Unknown('Decimal')},
            'copy': {'copy': nat(lambda o: W.copy(o))},
            'random': {'choice': nat(lambda *a: W.random_choice(*a)), 'randint': nat(lambda a, b: W.randint(a, b)),
                       'randrange': nat(lambda a, b=None: W.randint(0, a - 1) if b is None else W.randint(a, b - 1)),
                       'getrandbits': nat(lambda n: W.randint(0, 2 ** n - 1)),
                       'sample': Unknown('random.sample')},
            'string': {'ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'digits': '0123456789',
                       'ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'},
            'functools': {'update_wrapper': nat(lambda w, f, *a, **k: w),
                          'wraps': nat(lambda f, *a, **k: nat(lambda g: g)),
                          'partial': nat(lambda f, *a, **k: nat(lambda *b, **k2: W.interp.call(f, tuple(a) + tuple(b), dict(k, **k2))))},
            'itertools': {'chain': self.make_chain()},
            'collections': {'OrderedDict': Lazy(lambda: W.interp.builtins['dict']), 'namedtuple': Unknown('namedtuple'),
                            'defaultdict': Unknown('defaultdict')},
            'optparse': {'make_option': Unknown('make_option')},
            'warnings': {'warn': nat(lambda *a, **k: None)},
            'os': Lazy(lambda: W.os_module()),
            'sys': Lazy(lambda: W.sys_module()),
            'time': {'sleep': nat(lambda s: W.sleep(s)), 'time': Unknown('time.time')},
            'errno': {'EPERM': 1, 'ENOENT': 2, 'ESRCH': 3, 'EACCES': 13},
        }
        for k in ('os', 'sys'):
            stubs[k] = {}
        return stubs

    def middleware_mixin(self):
        """django.utils.deprecation.MiddlewareMixin"""
        W = self

        def init(s, get_response=None):
            s.attrs['get_response'] = get_response

        def call(s, request):
            I = W.interp
            response = None
            if s.cls.lookup('process_request') is not ABSENT:
                response = I.call(I.getattr(s, 'process_request'), (request,))
            if response is None:
                response = I.call(s.attrs['get_response'], (request,))
            if s.cls.lookup('process_response') is not ABSENT:
                response = I.call(I.getattr(s, 'process_response'), (request, response))
            return response
        return Cls('MiddlewareMixin', [OBJECT], {'__init__': nat(init), '__call__': nat(call)}, native=True)

    def make_chain(self):
        def chain(*ls):
            out = []
            for l in ls:
                out.extend(self.interp.iterate(l))
            return out
        f = nat(chain, 'chain')
        f.attrs['from_iterable'] = nat(lambda ls: chain(*self.interp.iterate(ls)))
        return f

    def start(self):
        self.interp = Interp(self.stubs)
        self.interp.world = self
        return self.interp

    def copy(self, o):
        """copy.copy of a plain object: a new object with the same attributes."""
        if isinstance(o, Obj):
            n = Obj(o.cls, dict(o.attrs), label=o.label, absent=tuple(o.absent))
            return n
        if isinstance(o, (list, dict, set)):
            return type(o)(o)
        raise Unsupported('copy.copy(%r)' % (o,))

    # -- behaviour that harnesses refine
    def route(self, model, hints):
        """django.db.router without routers: the database of the instance, or the default one."""
        inst = hints.get('instance')
        alias = None
        if inst is not None:
            alias = self.interp.getattr(self.interp.getattr(inst, '_state'), 'db')
        return 'default' if alias is None else alias

    def atomic(self, using):
        raise Unsupported('transaction.atomic')

    def tx(self, *a):
        raise Unsupported('transaction control')

    def log(self, *a):
        return None

    def resolve_relation(self, scope_model, relation):
        """django.db.models.fields.related.resolve_relation"""
        if relation == 'self':
            relation = scope_model
        if isinstance(relation, str) and '.' not in relation:
            relation = mkstr([scope_model.ns['_meta'].attrs['app_label'], '.', relation])
        elif isinstance(relation, SStr):
            raise Unsupported('relation named by %r' % (relation,))
        return relation

    def lazy_related(self, fn, model, rel, kw):
        raise Unsupported('lazy_related_operation')

    def truncate_name(self, name, length=None, hash_len=4):
        if isinstance(name, str):
            if length is None or len(name) <= length:
                return name
        n = self.interp.call(self.interp.builtins['len'], (name,))
        c = ctx()
        if length is None or c.branch(SBool(n.z <= length) if isinstance(n, SInt) else n <= length):
            return name
        # (a digest of the whole name: names that differ stay different)
        h = Atom(c.fresh('digest'), 'ident')
        old = segs_of(name)
        if not hasattr(self, 'digests'):
            self.digests = []
        for other, g in self.digests:
            c.axiom((g.z == h.z) == zbool(str_eq(mkstr(old), mkstr(other))))
        self.digests.append((old, h))
        c.axiom(z3.Length(h.z) == hash_len)
        return mkstr([self.interp.getitem(name, slice(None, length - hash_len)), SStr((h,))])

    def random_choice(self, seq):
        c = ctx()
        return SStr((Atom(c.fresh('rnd') if c else 'rnd', 'ident'),))

    def randint(self, a, b):
        c = ctx()
        v = c.int('randint')
        c.assume(SBool(z3.And(v.z >= a, v.z <= b)))
        c.effect('randint', a, b, v)
        return v

    def sleep(self, s):
        raise Unsupported('sleep')

    def get_models(self, *a, **k):
        raise Unsupported('apps.get_models')

    @property
    def apps(self):
        return Obj(self.C['Plain'], {'get_models': nat(lambda *a, **k: self.get_models(*a, **k))}, label='apps')

    @property
    def Q(self):
        return Unknown('Q')
