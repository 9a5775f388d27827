"""Which contract units decide which property."""
from pydv.runner import Unit
from .schema import BACKENDS
from .markers import RELATIONS
from . import aggregates, catalog, commands, fieldops, flushing, resolve, trigset


def units_C01():
    out = []
    for b in BACKENDS:
        for r in RELATIONS:
            for s in (False, True):
                out.append(Unit('markers/%s/%s%s' % (b, r, '/skips' if s else ''), 'markers', 'dependency_unit', (b, r, s),
                                {'complete': True, 'precise': False}, backend=b))
    out.append(Unit('denormalized field', 'markers', 'wiring_unit', ('sqlite3',), bound=1))
    return out


def units_C02():
    out = []
    for b in BACKENDS:
        for s in (False, True):
            out.append(Unit('own row/%s%s' % (b, '/skips' if s else ''), 'markers', 'own_unit', (b, s),
                            {'complete': True, 'precise': False}, backend=b))
        for f in ('CharField', 'ForeignKey'):
            out.append(Unit('denormalized field/%s/%s' % (b, f), 'markers', 'wiring_unit', (b, f), backend=b, bound=1))
    return out


def units_C03():
    out = []
    for b in BACKENDS:
        for r in RELATIONS:
            for s in (False, True):
                sfx = '/skips' if s else ''
                out.append(Unit('markers/%s/%s%s' % (b, r, sfx), 'markers', 'dependency_unit', (b, r, s),
                                {'complete': False, 'precise': True}, backend=b))
                out.append(Unit('cache keys/%s/%s%s' % (b, r, sfx), 'cachekeys', 'dependency_unit', (b, r, s),
                                {'complete': False, 'precise': True}, backend=b))
        for s in (False, True):
            out.append(Unit('own row/%s%s' % (b, '/skips' if s else ''), 'markers', 'own_unit', (b, s),
                            {'complete': False, 'precise': True}, backend=b))
    return out


def units_C10():
    out = []
    for b in BACKENDS:
        for r in RELATIONS:
            for s in (False, True):
                out.append(Unit('cache keys/%s/%s%s' % (b, r, '/skips' if s else ''), 'cachekeys', 'dependency_unit', (b, r, s),
                                {'complete': True, 'precise': True}, backend=b))
    out.append(Unit('cache key field', 'cachekeys', 'wiring_unit'))
    out.append(Unit('cached field', 'cachekeys', 'wiring_unit', ('sqlite3', 'CachedField')))
    out.append(Unit('cache key field: save', 'cachekeys', 'save_unit'))
    return out



def aggregate_units(cls):
    out = []
    for b in BACKENDS:
        for s in (False, True):
            out.append(Unit('%s/%s%s' % (cls, b, '/skips' if s else ''), 'aggregates', 'unit', (b, cls, s), backend=b))
        if b != 'mysql':
            out.append(Unit('%s/%s/self' % (cls, b), 'aggregates', 'unit', (b, cls, False, True), backend=b))
    out.append(Unit('%s/inherited' % cls, 'aggregates', 'inherit_unit', (cls,)))
    return out


def units_C07():
    return aggregate_units('CountField')


def units_C08():
    return aggregate_units('SumField')


def units_C04():
    return [Unit('flush', 'flushing', 'flush_unit', (False,)), Unit('command denorm_flush', 'flushing', 'command_unit', ('denorm_flush',))]


def units_C05():
    return [Unit('flush', 'flushing', 'flush_unit', (True,))]


def units_C20():
    return [Unit('flush with other connections', 'flushing', 'flush_unit', (True,), {'concurrent': True, 'prefix': 'flush with other connections: '}),
            Unit('flush with changes just after a save', 'flushing', 'flush_unit', (True,),
                 {'concurrent': True, 'window': True, 'prefix': 'flush with changes just after a save: '})]


def units_C06():
    return [Unit('rebuild', 'flushing', 'rebuild_unit'), Unit('command denorm_rebuild', 'flushing', 'command_unit', ('denorm_rebuild',))]


def units_C12():
    out = [Unit('all fields', 'trigset', 'denorms_unit')]
    for b in BACKENDS:
        out.append(Unit('trigger set/%s' % b, 'trigset', 'build_unit', (b,), backend=b))
        out.append(Unit('merging/%s' % b, 'trigset', 'append_unit', (b,), backend=b))
        out.append(Unit('trigger names/%s' % b, 'trigset', 'name_unit', (b,), backend=b))
        for g in (False, True):
            out.append(Unit('installed names/%s%s' % (b, '/generic' if g else ''), 'trigset', 'installed_unit', (b, g), backend=b))
        for e in trigset.EVENTS:
            out.append(Unit('trigger text/%s/%s' % (b, e), 'trigset', 'sql_unit', (b, e), backend=b, bound=2))
        out.append(Unit('install/%s' % b, 'catalog', 'install_unit', (b,), backend=b))
    out.append(Unit('command denorm_init', 'catalog', 'command_unit', ('denorm_init', 'install_triggers')))
    return out


def units_C13():
    out = []
    for b in BACKENDS:
        for f in (False, True):
            sfx = '/failing' if f else ''
            out.append(Unit('drop/%s%s' % (b, sfx), 'catalog', 'drop_unit', (b, f), backend=b))
            out.append(Unit('install/%s%s' % (b, sfx), 'catalog', 'install_unit', (b, f), backend=b))
        out.append(Unit('installed names/%s' % b, 'trigset', 'installed_unit', (b,), backend=b))
    out.append(Unit('command denorm_init', 'catalog', 'command_unit', ('denorm_init', 'install_triggers')))
    out.append(Unit('command denorm_drop', 'catalog', 'command_unit', ('denorm_drop', 'drop_triggers')))
    return out


def units_C14():
    out = []
    for selfrel in (False, True):
        for naming in (None, 'text'):
            for kind in (None,) + resolve.KINDS + ('unknown',):
                out.append(Unit('resolve/%s/%s/%s' % (selfrel, naming, kind), 'resolve', 'resolve_unit', (selfrel, naming, kind), bound=1))
        out.append(Unit('resolve/%s/field' % selfrel, 'resolve', 'resolve_unit', (selfrel, 'field', None), bound=1))
        out.append(Unit('resolve/%s/cachekey' % selfrel, 'resolve', 'resolve_unit', (selfrel, 'text', None, resolve.CLASSES[1]), bound=1))
    for c in resolve.CLASSES:
        out.append(Unit('missing/' + c, 'resolve', 'missing_unit', (c,), bound=1))
    return out


def units_C17():
    return [Unit('middleware', 'commands', 'middleware_unit', bound=1)]


def units_C18():
    out = [Unit('daemonize', 'commands', 'daemonize_unit', bound=1)]
    for b in ('sqlite3', 'postgresql'):
        for state in ('absent', 'dead', 'alive', 'foreign'):
            for fg in (False, True):
                out.append(Unit('daemon/%s/%s/%s' % (b, state, fg), 'commands', 'handle_unit', (b, state, fg), backend=b))
    return out


def units_C09():
    return [Unit('save of a ' + k, 'fieldops', 'aggregate_unit', (k,), bound=1) for k in ('CountField', 'SumField')]


def units_C11():
    return [Unit('cached attribute', 'fieldops', 'cached_unit', bound=1), Unit('cached attribute in migrations', 'fieldops', 'uncached_unit', bound=1)]


def units_C15():
    return [Unit('save of a denormalized ' + k, 'fieldops', 'value_unit', (k,), bound=1) for k in ('CharField', 'ForeignKey', 'OneToOneField')]


def units_C16():
    return [Unit('many-to-many/' + k, 'fieldops', 'links_unit', (k,), bound=1) for k in ('own', 'proxy', 'child', 'plain')] + \
        [Unit('flush', 'flushing', 'flush_unit', (False,))]


def units_C19():
    return [Unit('description of a denormalized field', 'fieldops', 'denorm_description_unit', bound=1)] + \
        [Unit('description of a ' + k, 'fieldops', 'aggregate_description_unit', (k,), bound=1) for k in ('CountField', 'SumField', 'CacheKeyField', 'CachedField')]


UNITS = dict((k[6:], v) for k, v in list(globals().items()) if k.startswith('units_'))

# properties whose real-code scenarios do not depend on the database
ONLY_SQLITE = set()
LEVEL = {}
TRUSTED = {}
EXPLAIN = {}
ASSUME = {
    'C04': flushing.ASSUMED,
    'C05': flushing.ASSUMED,
    'C06': flushing.REBUILD_ASSUMED,
    'C07': aggregates.ASSUMED,
    'C08': aggregates.ASSUMED,
    'C09': fieldops.ASSUMED_AGG,
    'C11': fieldops.ASSUMED_CACHE,
    'C12': trigset.ASSUMED,
    'C13': catalog.ASSUMED,
    'C14': resolve.ASSUMED,
    'C15': fieldops.ASSUMED_SAVE,
    'C16': fieldops.ASSUMED_M2M,
    'C17': commands.ASSUMED_MIDDLEWARE,
    'C18': commands.ASSUMED_DAEMON,
    'C19': fieldops.ASSUMED_DECONSTRUCT,
    'C20': flushing.ASSUMED + ['other connections act between statements of the flush; the gap between the save of an instance and the statement '
                               'that clears its markers is a known finding'],
}
