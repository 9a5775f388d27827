"""Writes properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe or [], 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}

DB3 = ['denorm/db/sqlite3/triggers.py', 'denorm/db/postgresql/triggers.py', 'denorm/db/mysql/triggers.py']
DIRTY = ('dirty marker table', 'rows (content type, object id) of instances that still have to be recomputed', 'denorm/models.py DirtyInstance')

props = [
P('C01', 'Changing a related row marks every dependent instance dirty',
  'Whenever a row that a denormalized field depends on through a declared relation is inserted, deleted or has a tracked column changed (to, from or between any values including NULL), every instance related to that row before or after the change has a dirty marker once the statement completes. This holds for foreign keys in both directions, many-to-many relations in both directions (both for the link table and for the far table) and generic relations, on every supported database, and no matter whether the change was made through the ORM, in bulk or with raw SQL.',
  ['inputs', 'programs', 'configurations', 'histories'],
  'for every pair of models with any table/column names, every relation kind and direction, every backend, every database content and every single insert/update/delete of a related row',
  'The suite runs a few dozen hand-picked histories over one fixed set of models per backend; it never varies the schema, and it does not reach re-linking through the link table, NULL transitions, or bulk/raw changes for most relation kinds and backends.',
  ['denorm/dependencies.py', 'denorm/db/base.py', 'denorm/denorms.py'] + DB3,
  [('trigger actions of a dependency', 'denorm/dependencies.py CallbackDependOnRelated.get_triggers'),
   ('trigger text and its change condition', 'denorm/db/*/triggers.py Trigger.sql, TriggerActionInsert.sql, TriggerNestedSelect.sql'),
   ('columns watched', 'denorm/db/base.py Trigger.__init__')],
  [DIRTY], ['dirty marker table after each SQL statement']),
P('C02', 'Inserting or updating a row marks its own instance dirty',
  'After any insert of a row of a model with a denormalized field, and after any update that changes one of its tracked columns, the instance stored in that row has a dirty marker, even if the ORM was bypassed (bulk create, queryset update, raw SQL). Projects that opt out of this with the documented bulk-unsafe setting get no such markers but keep all dependency tracking.',
  ['inputs', 'programs', 'configurations'],
  'for every model with denormalized fields, any table, primary key and column names, any row values, every backend, and both values of the opt-out setting',
  'Tests update two models in bulk on a fixed schema; custom primary keys, column names, NULL transitions and the opt-out setting are never exercised.',
  ['denorm/denorms.py', 'denorm/fields.py', 'denorm/db/base.py'] + DB3,
  [('self triggers', 'denorm/denorms.py CallbackDenorm.get_triggers'), ('opt-out', 'denorm/fields.py denormalized.contribute_to_class'),
   ('change condition', 'denorm/db/*/triggers.py Trigger.sql')],
  [DIRTY], ['dirty marker table after each SQL statement']),
P('C03', 'Triggers never mark without cause: skipped columns and unrelated rows',
  'An update that changes no tracked column of a row (nothing changed, or only columns excluded for that dependency or model) adds no dirty marker and renews no cache key. A change that does count marks no instance other than the ones related to the changed row before or after the change (on MySQL, instances of other models sharing the same generic relation table may additionally be marked).',
  ['inputs', 'programs', 'configurations'],
  'for every model, every set of tracked and excluded columns, every database content, every backend and every update',
  'Tests check two excluded-column declarations on one model; flush terminating at all depends on this for every schema, and over-marking is invisible to tests that only look at final values.',
  ['denorm/db/base.py', 'denorm/dependencies.py', 'denorm/denorms.py'] + DB3,
  [('tracked columns = own columns minus excluded', 'denorm/db/base.py Trigger.__init__'), ('change condition', 'denorm/db/*/triggers.py Trigger.sql')],
  [DIRTY], ['dirty marker table after each SQL statement']),
P('C04', 'Flush returns only when nothing is left to recompute',
  'When a flush returns normally, no dirty markers are left and every instance that was marked when it started, or became marked while it ran, has been saved again after it was marked. Markers whose instance no longer exists are discarded without an error.',
  ['inputs', 'histories', 'configurations'],
  'for every content of the marker table (any number of markers, duplicates, vanished instances, unset object ids), every cascade of new markers that saving instances produces, verbose or not, with and without DISTINCT ON support',
  'Tests flush tables with a handful of markers and cascades of depth two; loops over arbitrary many markers and passes need an invariant, not examples.',
  ['denorm/denorms.py', 'denorm/models.py'],
  [('multi-pass loop', 'denorm/denorms.py flush')], [DIRTY], ['dirty marker table when flush returns', 'save() calls']),
P('C05', 'Interrupting a flush never loses a pending recomputation',
  'If a flush is cut short at any point (an exception in a recomputation, a crash, a killed process), every marked instance that had not yet been saved again still has its dirty marker, so that the next flush recomputes it. Clearing the markers of one instance never clears those of any other instance.',
  ['crash_points', 'fault_sequences', 'histories'],
  'for every marker table content and every prefix of the database operations a flush performs',
  'No test interrupts a flush.',
  ['denorm/denorms.py'], [('save before clear, clear per instance', 'denorm/denorms.py flush')], [DIRTY],
  ['dirty marker table between any two database operations of flush']),
P('C06', 'Rebuild recomputes every instance of every selected model',
  'A rebuild marks every existing instance of every model that declares a denormalized field and is selected by the given application label, model name, qualified model name and field name (or of all such models when nothing is given), no other models, and then flushes.',
  ['inputs', 'programs', 'configurations'],
  'for any set of models and denormalized fields, any number of instances, and any selection',
  'Tests rebuild everything or one model of the fixed test application and only look at a few rows.',
  ['denorm/denorms.py', 'denorm/management/commands/denorm_rebuild.py'],
  [('selection and marking', 'denorm/denorms.py rebuildall'), ('command', 'denorm/management/commands/denorm_rebuild.py')], [DIRTY],
  ['dirty marker table when the rebuild starts flushing']),
P('C07', 'Count fields always equal the number of matching related rows',
  'If a count field is correct before an insert, update, delete or re-parenting of a related row, it is correct after it for every instance: equal to the number of related rows that satisfy the declared filter and not the declared exclusion. No other column of any row is changed by it.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'for every model pair connected by a foreign key, every filter and exclusion over the columns of the related row, every old and new row value including NULL, every backend',
  'Tests increment and decrement fixed models a few times; filters with exclusions, changes of the filtered column together with re-parenting, and NULL values are a matter of all row values.',
  ['denorm/denorms.py', 'denorm/fields.py', 'denorm/db/base.py'] + DB3,
  [('incremental update triggers', 'denorm/denorms.py AggregateDenorm.get_triggers, CountDenorm')],
  [('count column', 'number of matching related rows', 'column of the declaring model')], ['count column after each SQL statement']),
P('C08', 'Sum fields always equal the sum over matching related rows',
  'If a sum field is correct before an insert, update, delete or re-parenting of a related row, it is correct after it for every instance: equal to the sum of the summed column over the related rows that satisfy the declared filter and not the declared exclusion, where rows without a value count as zero.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'for every model pair connected by a foreign key, every filter and exclusion, every old and new row value including NULL, every backend',
  'Tests sum three fixed rows; changes of value, filter column and parent in one statement and rows without a value are not covered.',
  ['denorm/denorms.py', 'denorm/fields.py', 'denorm/db/base.py'] + DB3,
  [('incremental update triggers', 'denorm/denorms.py AggregateDenorm.get_triggers, SumDenorm')],
  [('sum column', 'sum over matching related rows', 'column of the declaring model')], ['sum column after each SQL statement']),
P('C09', 'Saving an instance never overwrites an aggregate with a stale value',
  'Saving a model instance, however old the copy in memory, leaves the count and sum columns of its row at their current database value, and the instance then shows that value. A newly created instance starts at zero, including when its primary key was assigned by the application.',
  ['inputs', 'histories'],
  'for every in-memory value, every database value, new and existing instances, and application-assigned keys',
  'Tests save one stale instance after one insert; the unbounded set of stale values and application-assigned keys is not covered.',
  ['denorm/fields.py'], [('re-read before write', 'denorm/fields.py AggregateField.pre_save')],
  [('aggregate column', 'value maintained by triggers', 'column of the declaring model')], ['value written by save()']),
P('C10', 'Cache keys are renewed at once for exactly the dependent instances',
  'Whenever a row that a cache key depends on through a declared relation is inserted, deleted or has a tracked column changed, the cache key of every instance related to it before or after the change is replaced by a new random value within the same statement, without a flush, and no other column or instance is touched. Saving an instance renews its own key, and keys are drawn from the whole 64-bit range.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'for every pair of models, relation kind and direction, backend, database content and change',
  'Tests change one related row per relation kind on fixed models; re-linking, bulk changes and other backends/kinds are not crossed.',
  ['denorm/dependencies.py', 'denorm/fields.py', 'denorm/denorms.py', 'denorm/db/base.py'] + DB3,
  [('key-renewing triggers', 'denorm/dependencies.py CacheKeyDependOnRelated.get_triggers'), ('renewal on save', 'denorm/fields.py CacheKeyField.pre_save')],
  [('cache key column', 'random 64-bit value naming the current version of the instance', 'column of the declaring model')],
  ['cache key column after each SQL statement']),
P('C11', 'A cached attribute shows the value stored for its current cache key',
  'Loading an instance gives a cached attribute the value stored in the cache under the cache key read from the database, computing and storing it under exactly that key when the cache has none; the value computed for one key is never shown for another key. Loading never fails because the cache is empty or has evicted the entry.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every cache key, every cache content (missing, evicted, present) and every computed value',
  'Tests load one instance with a warm and a cold cache; arbitrary keys and evictions are not covered.',
  ['denorm/fields.py'], [('attribute access', 'denorm/fields.py CacheWrapper.__set__, CachedField.contribute_to_class')],
  [('cache entry', 'value computed for a cache key', 'cache backend')], ['attribute value after loading', 'cache reads and writes']),
P('C12', 'The installed triggers perform every action of every declared field',
  'After initialisation each table and event (insert, update, delete) has one trigger that performs the actions of all denormalized, aggregate and cache key fields of all installed models that need that event, each distinct action exactly once, and none that belongs to another table, event or generic content type. No field of any installed, non-proxy, non-swapped model is left out.',
  ['inputs', 'programs', 'configurations'],
  'for any number of models and fields, any sharing of tables and events between them, any list of actions with duplicates, every backend',
  'Tests install the triggers of one fixed application; merging of arbitrary many triggers and de-duplication of arbitrary action lists needs an inductive argument.',
  ['denorm/denorms.py', 'denorm/db/base.py'] + DB3,
  [('collecting fields', 'denorm/denorms.py get_alldenorms, build_triggerset'), ('merging', 'denorm/db/base.py TriggerSet.append, Trigger.append, Trigger.name'),
   ('de-duplication', 'denorm/db/*/triggers.py Trigger.sql')],
  [('trigger set', 'one trigger per table, event and generic content type', 'denorm/db/base.py TriggerSet')], ['SQL statements executed by initialisation']),
P('C13', 'Dropping removes all of its own triggers and nothing else',
  'Dropping triggers removes every trigger that initialisation installed, whatever tables they are on, and no trigger of the project itself (one whose name lacks the reserved prefix denorm_); it does so on the selected database. Initialisation and dropping are all-or-nothing where the database has transactional schema changes (SQLite and PostgreSQL).',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every set of existing triggers with arbitrary names, every table name, every backend and every failure of one of the statements',
  'Tests drop triggers only in databases that contain nothing else and never fail half-way.',
  DB3 + ['denorm/denorms.py', 'denorm/management/commands/denorm_drop.py', 'denorm/management/commands/denorm_init.py'],
  [('dropping', 'denorm/db/*/triggers.py TriggerSet.drop'), ('installing', 'denorm/db/*/triggers.py TriggerSet.install'), ('naming', 'denorm/db/base.py Trigger.name')],
  [('trigger catalogue', 'triggers existing in the database', 'database')], ['statements executed']),
P('C14', 'A dependency resolves to the one matching relation or is rejected',
  'Declaring a dependency selects the single relation between the two models that matches the optional relation name and the optional kind and direction; if no relation or more than one matches, the declaration is rejected with an error instead of tracking the wrong relation or nothing. A dependency whose target model never appears is rejected when triggers are built.',
  ['inputs', 'programs'],
  'for any two models (also the same one) with any number of foreign keys, many-to-many and generic relations between them and any relation name and kind given',
  'Tests declare one ambiguous and one missing relation; all combinations of relations, names and kinds are not covered.',
  ['denorm/dependencies.py', 'denorm/helpers.py'],
  [('candidate search', 'denorm/dependencies.py DependOnRelated.resolved_model, denorm/helpers.py find_fks, find_m2ms')],
  [], ['relation chosen or error raised']),
P('C15', 'Saving stores exactly the value its function computes at that moment',
  'Whenever an instance is saved, every denormalized column is written with the value its function computes from the instance at that moment, never with a value assigned to the attribute or computed earlier, and the instance then shows the same value. For a denormalized foreign key the function may return the related object, its primary key, or nothing.',
  ['inputs', 'programs'],
  'for every computed value, every previous attribute value and every field type',
  'Tests save a few instances with fixed values and one foreign key.',
  ['denorm/fields.py'], [('compute on save', 'denorm/fields.py denormalized.DenormDBField.pre_save')],
  [], ['value written by save()', 'attribute after save()']),
P('C16', 'Denormalized many-to-many relations equal what their function returns',
  'After an instance has been saved, newly created or not, each of its denormalized many-to-many relations contains exactly the objects its function returned for it, and many-to-many relations that are not denormalized are left alone.',
  ['inputs', 'programs', 'histories'],
  'for every number of many-to-many relations, every previous and new content, new and existing instances',
  'Tests use one such relation on one model.',
  ['denorm/denorms.py', 'denorm/fields.py'],
  [('set before save, re-save after creation', 'denorm/denorms.py many_to_many_pre_save, many_to_many_post_save'), ('signal wiring', 'denorm/fields.py denormalized.contribute_to_class')],
  [], ['relation content after save()']),
P('C17', 'The middleware flushes every response and never withholds one',
  'With the middleware installed every response leads to exactly one flush before it is handed on, and the very same response is returned even when that flush fails with a database error. Errors other than database errors are not hidden.',
  ['inputs', 'fault_sequences'],
  'for every request and response and every outcome of the flush',
  'Tests send one request whose flush succeeds; failing flushes are not covered.',
  ['denorm/middleware.py'], [('flush in the response phase', 'denorm/middleware.py DenormMiddleware.process_response')], [],
  ['response returned', 'flush calls']),
P('C18', 'The daemon commits what each cycle flushed and refuses a second instance',
  'The daemon flushes and then commits in every cycle, waits the requested interval between cycles, and stops with its work committed when interrupted. It does nothing when the process named in the pid file is alive, and starts normally when the pid file is absent or names a process that no longer exists.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for any number of cycles, any interval, an interruption at any point of a cycle and every state of the pid file and of the process it names',
  'Tests never run a cycle of the daemon.',
  ['denorm/management/commands/denorm_daemon.py'],
  [('main loop', 'denorm/management/commands/denorm_daemon.py Command.handle'), ('single instance', 'denorm/management/commands/denorm_daemon.py Command.pid_exists')],
  [], ['flush, commit and sleep calls in order', 'system calls about the pid']),
P('C19', 'Migrations record denormalized fields as their plain database field',
  'The migration description of a denormalized field names the ordinary field class it was declared with and carries all of its column options, so that applying the migration creates the same column without needing the function, and cloning the field reproduces it. Aggregate fields can be reconstructed from their own description, with the same manager and column options.',
  ['inputs', 'programs'],
  'for every field class and every set of options',
  'Tests create two fields and migrate once.',
  ['denorm/fields.py'], [('description', 'denorm/fields.py denormalized.DenormDBField.deconstruct, AggregateField.deconstruct')], [],
  ['result of deconstruct()']),
P('C20', 'Changes committed while a flush is running are not lost',
  'A dirty marker added by another connection while a flush is running is either processed by that flush or still present when it returns: the flush never clears markers of an instance it has not saved after the marker appeared.',
  ['schedules', 'histories'],
  'for every interleaving of marker additions by other connections with the database operations of a flush',
  'Tests are single-threaded.',
  ['denorm/denorms.py'], [('clear only what was processed', 'denorm/denorms.py flush')], [DIRTY],
  ['dirty marker table between any two database operations of flush']),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
