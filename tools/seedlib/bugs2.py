"""Planted bugs, second batch."""
from bugs1 import HEAD, DEN, DEP, FLD, BASE

SQLITE, PG, MYSQL = ('denorm/db/%s/triggers.py' % n for n in ('sqlite3', 'postgresql', 'mysql'))
HELP, MID, DAEMON, BG = ('denorm/helpers.py', 'denorm/middleware.py', 'denorm/management/commands/denorm_daemon.py', 'denorm/daemon.py')
NONE = HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField)
    def twice(self):
        return 2 * self.a
'''

BUGS = [
    dict(id='b10', property='C09', edits=[
        (FLD, '''            value = 0
        else:
            # if we're updating, get''', '''            # (a value given to it is for instance that of an imported row)
            value = getattr(model_instance, self.attname) or 0
        else:
            # if we're updating, get''')],
        needs='a new instance made from an existing one, by clearing the primary key of a loaded copy',
        breaks='the new instance starts with the count of the one it was copied from',
        models=HEAD + '''
class Forum(models.Model):
    name = models.CharField(max_length=20)
    posts = CountField('post_set')


class Post(models.Model):
    forum = models.ForeignKey(Forum, on_delete=models.CASCADE)
''', demo='''
setup()
from demoapp.models import *
f = Forum.objects.create(name='a')
for i in range(3):
    Post.objects.create(forum=f)
f = Forum.objects.get(pk=f.pk)
expect(f.posts == 3, 'three posts')
f.pk = None
f.name = 'copy'
f.save()
expect(Forum.objects.get(name='copy').posts == 0, 'a forum without posts has a count')
expect(Forum.objects.get(name='a').posts == 3, 'original')
'''),
    dict(id='b11', property='C11', edits=[
        (FLD, '''        key = 'CachedField_%s' % value
''', '''        # keys are 64 bits wide, half of that is more than enough and fits every cache
        key = 'CachedField_%d' % (value % 4294967296)
''')],
        needs='two instances whose cache keys differ only in the upper half',
        breaks='one of the instances shows the value computed for the other one',
        models=HEAD + '''
from django.core.cache import cache


class Shelf(models.Model):
    pass


class Book(models.Model):
    title = models.CharField(max_length=20)
    shelf = models.ForeignKey(Shelf, on_delete=models.CASCADE)

    @cached(cache)
    @depend_on_related(Shelf)
    def shout(self):
        return self.title.upper()
''', demo='''
setup()
from demoapp.models import *
s = Shelf.objects.create()
a, b = Book.objects.create(title='a', shelf=s), Book.objects.create(title='b', shelf=s)
sql('UPDATE demoapp_book SET shout = %s WHERE id = %s', 7, a.pk)
sql('UPDATE demoapp_book SET shout = %s WHERE id = %s', 7 + 2 ** 40, b.pk)
expect(Book.objects.get(pk=a.pk).shout == 'A', 'first')
expect(Book.objects.get(pk=b.pk).shout == 'B', 'the value of another instance is shown')
'''),
    dict(id='b12', property='C12', edits=[
        (DEN, '''        if not model._meta.proxy:
''', '''        if model._meta.managed and not model._meta.proxy:
''')],
        needs='a denormalized field of a model whose table Django does not manage',
        breaks='no triggers are installed for the fields of that model',
        models=HEAD + '''
class Owner(models.Model):
    name = models.CharField(max_length=20)


class Legacy(models.Model):
    owner = models.ForeignKey(Owner, on_delete=models.CASCADE)

    @denormalized(models.CharField, max_length=20)
    @depend_on_related(Owner)
    def owner_name(self):
        return self.owner.name

    class Meta:
        managed = False
''', demo='''
setup(init=False)
from demoapp.models import *
from denorm import flush
from denorm.denorms import install_triggers
sql('CREATE TABLE demoapp_legacy (id integer PRIMARY KEY AUTOINCREMENT, owner_id integer NOT NULL, owner_name varchar(20) NOT NULL)')
install_triggers()
o = Owner.objects.create(name='x')
Legacy.objects.create(owner=o)
flush()
Owner.objects.update(name='y')
flush()
expect(Legacy.objects.get().owner_name == 'y', 'the name of the owner is outdated')
'''),
    dict(id='b13', property='C13', edits=[
        (SQLITE, '''        for trigger_name, table_name in cursor.fetchall():
            cursor.execute(''', '''        tables = self.connection.introspection.django_table_names()
        for trigger_name, table_name in cursor.fetchall():
            if table_name not in tables:
                continue
            cursor.execute(''')],
        needs='a trigger on a table whose model was removed from the project since the triggers were installed',
        breaks='the trigger of the removed model stays and goes on marking',
        models=NONE, demo='''
setup()
from demoapp.models import *
sql('CREATE TABLE old_thing (id integer PRIMARY KEY)')
sql("CREATE TRIGGER denorm_after_row_insert_on_old_thing AFTER INSERT ON old_thing FOR EACH ROW BEGIN "
    "INSERT INTO denorm_dirtyinstance (content_type_id, object_id) VALUES (1, NEW.id); END")
sql("CREATE TRIGGER mine AFTER INSERT ON old_thing FOR EACH ROW BEGIN SELECT 1; END")
from denorm.denorms import drop_triggers
drop_triggers()
left = [n for n, in sql("SELECT name FROM sqlite_master WHERE type = 'trigger'")]
expect(left == ['mine'], 'triggers left: %s' % left)
'''),
    dict(id='b14', property='C13', edits=[
        ('denorm/management/commands/denorm_drop.py', '''        using = options['database']
''', '''        using = options.get('using') or DEFAULT_DB_ALIAS
''')],
        needs='the command denorm_drop for a database other than the default one',
        breaks='the triggers of the default database are dropped, those of the selected one stay',
        models=NONE, demo='''
setup()
from demoapp.models import *
from django.core.management import call_command
from django.db import connections
from denorm.denorms import install_triggers
install_triggers(using='second')
call_command('denorm_drop', database='second')
left = []
for alias in ('default', 'second'):
    with connections[alias].cursor() as c:
        c.execute("SELECT count(*) FROM sqlite_master WHERE type = 'trigger'")
        left.append(c.fetchone()[0] > 0)
expect(left == [True, False], 'triggers left on default, second: %s' % left)
'''),
    dict(id='b15', property='C14', edits=[
        (HELP, '''        fkeys = [x for x in fkeys if x.attname in (fk_name, fk_name + '_id')]
''', '''        fkeys = [x for x in fkeys if x.attname.startswith(fk_name)]
''')],
        needs='two foreign keys to the same model, the name of one being the beginning of the name of the other',
        breaks='the named foreign key is rejected as ambiguous',
        models=HEAD + '''
class Person(models.Model):
    name = models.CharField(max_length=20)


class Letter(models.Model):
    sender = models.ForeignKey(Person, on_delete=models.CASCADE, related_name='+')
    sender_deputy = models.ForeignKey(Person, on_delete=models.CASCADE, related_name='+', null=True)

    @denormalized(models.CharField, max_length=20)
    @depend_on_related(Person, foreign_key='sender')
    def from_name(self):
        return self.sender.name
''', demo='''
try:
    setup()
    from demoapp.models import *
except ValueError as e:
    expect(False, str(e))
from denorm import flush
p = Person.objects.create(name='a')
Letter.objects.create(sender=p)
flush()
Person.objects.update(name='b')
flush()
expect(Letter.objects.get().from_name == 'b', 'outdated')
'''),
    dict(id='b16', property='C14', edits=[
        (DEP, '''        candidates += [('forward_m2m', fk) for fk in find_m2ms(self.this_model, self.other_model, self.fk_name)]
        if self.other_model != self.this_model or self.type:
''', '''        candidates += [('forward_m2m', fk) for fk in find_m2ms(self.this_model, self.other_model, self.fk_name)]
        if self.other_model != self.this_model:
''')],
        needs='a many-to-many relation of a model to itself, depended on from the far end (type backward_m2m)',
        breaks='the declaration is rejected although the relation exists',
        models=HEAD + '''
class Person(models.Model):
    name = models.CharField(max_length=20)
    follows = models.ManyToManyField('self', symmetrical=False, related_name='followers')

    @denormalized(models.TextField)
    @depend_on_related('self', type='backward_m2m')
    def fans(self):
        return ','.join(sorted(p.name for p in self.followers.all())) if self.pk else ''
''', demo='''
try:
    setup()
    from demoapp.models import *
except ValueError as e:
    expect(False, str(e))
from denorm import flush
a, b = Person.objects.create(name='a'), Person.objects.create(name='b')
a.follows.add(b)
flush()
expect(Person.objects.get(pk=b.pk).fans == 'a', 'outdated')
'''),
    dict(id='b17', property='C15', edits=[
        (FLD, '''            value = self.denorm.func(model_instance)

            if hasattr(self, "remote_field")''', '''            value = self.denorm.func(model_instance)
            if value is None:
                # nothing was computed, use what is there
                value = getattr(model_instance, self.attname)

            if hasattr(self, "remote_field")''')],
        needs='a nullable denormalized field whose function returned something for an earlier save and returns None now',
        breaks='the earlier value stays in the row',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(null=True)

    @denormalized(models.IntegerField, null=True)
    def twice(self):
        return 2 * self.a if self.a is not None else None
''', demo='''
setup()
from demoapp.models import *
i = Item.objects.create(a=1)
expect(Item.objects.get().twice == 2, 'stored')
i.a = None
i.save()
expect(Item.objects.get().twice is None, 'the value of an earlier save is still stored')
'''),
    dict(id='b18', property='C16', edits=[
        (DEN, '''                    values = m2m.denorm.func(instance)
                    try:
                        getattr(instance, m2m.attname).set(values)
''', '''                    values = m2m.denorm.func(instance)
                    if not values:
                        continue
                    try:
                        getattr(instance, m2m.attname).set(values)
''')],
        needs='a denormalized many-to-many relation that becomes empty again',
        breaks='the former links stay',
        models=HEAD + '''
class Tag(models.Model):
    name = models.CharField(max_length=20)


class Post(models.Model):
    text = models.CharField(max_length=20)

    @denormalized(models.ManyToManyField, Tag)
    def tags(self):
        return list(Tag.objects.filter(name__in=self.text.split()))
''', demo='''
setup()
from demoapp.models import *
Tag.objects.create(name='x')
p = Post.objects.create(text='x y')
expect(p.tags.count() == 1, 'tagged')
p.text = 'nothing'
p.save()
expect(p.tags.count() == 0, 'the tag is still linked')
'''),
    dict(id='b19', property='C16', edits=[
        (DEN, '''                if hasattr(m2m, 'denorm'):
                    return True
            return False
''', '''                return hasattr(m2m, 'denorm')
            return False
''')],
        needs='a model with an ordinary many-to-many field declared before its denormalized one',
        breaks='a newly created instance has no links',
        models=HEAD + '''
class Tag(models.Model):
    name = models.CharField(max_length=20)


class Post(models.Model):
    text = models.CharField(max_length=20)
    friends = models.ManyToManyField('self')

    @denormalized(models.ManyToManyField, Tag)
    def tags(self):
        return list(Tag.objects.filter(name__in=self.text.split()))
''', demo='''
setup()
from demoapp.models import *
Tag.objects.create(name='x')
p = Post.objects.create(text='x y')
expect(p.tags.count() == 1, 'a new instance is not linked to its tag')
'''),
    dict(id='b20', property='C17', edits=[
        (MID, '''        try:
            flush()
''', '''        if request.method in ('HEAD', 'OPTIONS', 'TRACE'):
            # safe requests change nothing
            return response
        try:
            flush()
''')],
        needs='a change made while answering an OPTIONS or HEAD request (or left over from a failed flush)',
        breaks='the response goes out without a flush',
        models=NONE, demo='''
setup()
from demoapp.models import *
from django.test import RequestFactory
from django.http import HttpResponse
from denorm.middleware import DenormMiddleware
Item.objects.create(a=1)


def view(request):
    Item.objects.update(a=5)
    return HttpResponse('x')


for method in ('get', 'post', 'head', 'options'):
    sql('UPDATE demoapp_item SET twice = 0')
    clear()
    DenormMiddleware(view)(getattr(RequestFactory(), method)('/'))
    sql('UPDATE demoapp_item SET a = 1')
    DenormMiddleware(view)(getattr(RequestFactory(), method)('/'))
    expect(Item.objects.get().twice == 10, 'nothing was flushed during a %s request' % method)
'''),
    dict(id='b21', property='C17', edits=[
        (MID, '''        try:
            flush()
        except DatabaseError as e:
''', '''        try:
            if response.status_code < 400:
                flush()
        except DatabaseError as e:
''')],
        needs='a response with an error status although data was changed',
        breaks='the changes made by that request are not flushed',
        models=NONE, demo='''
setup()
from demoapp.models import *
from django.test import RequestFactory
from django.http import HttpResponse
from denorm.middleware import DenormMiddleware
Item.objects.create(a=1)


def view(request):
    Item.objects.update(a=5)
    return HttpResponse('x', status=422)


DenormMiddleware(view)(RequestFactory().get('/'))
expect(Item.objects.get().twice == 10, 'nothing was flushed')
'''),
    dict(id='b22', property='C18', edits=[
        (DAEMON, '''            except KeyboardInterrupt:
                transaction.commit()
                sys.exit()
''', '''            except KeyboardInterrupt:
                sys.exit()
''')],
        needs='the daemon being interrupted while it waits for its next cycle (PostgreSQL or MySQL)',
        breaks='what was recomputed in the last cycle is rolled back when the process ends',
        models=NONE, demo='''
setup('postgres')
from demoapp.models import *
from django.db import connections, connection
from denorm.management.commands import denorm_daemon
Item.objects.create(a=1)
Item.objects.update(a=5)
pidfile = os.path.join(tempfile.mkdtemp(prefix='demo-'), 'pid')


def interrupted(seconds):
    raise KeyboardInterrupt()


denorm_daemon.sleep = interrupted
try:
    denorm_daemon.Command().handle(foreground=True, interval=1, pidfile=pidfile, run_once=False)
except SystemExit:
    pass
shutil.rmtree(os.path.dirname(pidfile))
connection.close()
expect(Item.objects.get().twice == 10, 'the last cycle was not committed')
'''),
    dict(id='b23', property='C18', edits=[
        (BG, '''                print(pid)
''', '''                pid = os.getpid()
                print(pid)
''')],
        needs='the daemon being started twice in the background',
        breaks='the pid file names a process that has ended, so that the second daemon does not notice the first one',
        models=NONE, demo='''
setup()
from denorm import daemon
d = tempfile.mkdtemp(prefix='demo-')
pidfile = os.path.join(d, 'pid')


class Gone(BaseException):
    pass


def gone(code):
    raise Gone()


# only the process between the caller and the daemon is played, nothing is forked
real, forks, ends, setsid = os.fork, [0, 4242], [], os.setsid
os.fork, os._exit, os.setsid = (lambda: forks.pop(0)), gone, (lambda: None)
try:
    daemon.daemonize(noClose=True, pidfile=pidfile)
except Gone:
    pass
pid = open(pidfile).read()
shutil.rmtree(d)
expect(int(pid) == 4242, 'the pid file does not name the daemon')
'''),
    dict(id='b24', property='C19', edits=[
        (FLD, '''            return name, super_path, args, kwargs

        def clone''', '''            return name, super_path, [], kwargs

        def clone''')],
        needs='a field class that describes itself with positional arguments',
        breaks='the description and clones of the denormalized field lose those arguments',
        models=HEAD + '''
class Rating(models.DecimalField):
    def __init__(self, digits=3, **kwargs):
        self.digits = digits
        kwargs.update(max_digits=digits, decimal_places=1)
        super(Rating, self).__init__(**kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super(Rating, self).deconstruct()
        kwargs.pop('max_digits')
        kwargs.pop('decimal_places')
        return name, path, [self.digits] + list(args), kwargs


class Item(models.Model):
    @denormalized(Rating, 9)
    def rating(self):
        return 1
''', demo='''
setup()
from demoapp.models import *
f = Item._meta.get_field('rating')
name, path, args, kwargs = f.deconstruct()
expect(Rating(*args, **kwargs).max_digits == 9, 'a migration creates a narrower column')
expect(f.clone().max_digits == 9, 'clone')
'''),
    dict(id='b25', property='C04', edits=[
        (DEN, '''    while True:
        # Get all dirty markers
''', '''    # (give up at some point, the dependencies might be circular)
    for turn in range(20):
        # Get all dirty markers
''')],
        needs='a chain of dependencies that is longer than twenty instances, in an order that takes one pass for each of them',
        breaks='the flush returns with markers left',
        models=HEAD + '''
class Node(models.Model):
    parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=5)

    @denormalized(models.TextField)
    @depend_on_related('self', foreign_key='parent', type='forward')
    def path(self):
        return (self.parent.path + '/' if self.parent_id else '') + self.name
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
p = None
for i in range(40):
    p = Node.objects.create(pk=100 - i, parent=p, name=str(i))
flush()
Node.objects.filter(parent=None).update(name='top')
flush()
expect(marked() == set(), 'markers left')
expect(Node.objects.get(pk=p.pk).path.startswith('top/'), 'outdated')
'''),
    dict(id='b26', property='C16', edits=[
        (DEN, '''                dirty_instance.content_object.save()
''', '''                # nothing else can have changed
                dirty_instance.content_object.save(update_fields=[
                    f.name for f in dirty_instance.content_object._meta.fields if hasattr(f, 'denorm')])
''')],
        needs='a model whose only denormalized field is a many-to-many relation, recomputed by a flush',
        breaks='the links are not updated and the marker is gone',
        models=HEAD + '''
class Tag(models.Model):
    name = models.CharField(max_length=20)


class Post(models.Model):
    text = models.CharField(max_length=20)

    @denormalized(models.ManyToManyField, Tag)
    def tags(self):
        return list(Tag.objects.filter(name__in=self.text.split()))
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
Tag.objects.create(name='x')
p = Post.objects.create(text='y')
flush()
Post.objects.update(text='x')
flush()
expect(p.tags.count() == 1, 'the flush did not link the tag')
'''),
    dict(id='b27', property='C05', edits=[
        (DEN, '''                dirty_instance.content_object.save()

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''', '''                try:
                    dirty_instance.content_object.save()
                except Exception:
                    # do not stumble over this one again
                    dirty_instance.delete()
                    raise

            DirtyInstance.objects.filter(
                content_type_id=dirty_instance.content_type_id,
                object_id=dirty_instance.object_id
            ).delete()
''')],
        needs='a flush that is interrupted while it saves an instance',
        breaks='the instance is no longer marked and stays outdated',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)
    broken = False

    @denormalized(models.IntegerField)
    def twice(self):
        if Item.broken:
            raise RuntimeError('interrupted')
        return 2 * self.a
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
Item.objects.create(a=1)
flush()
Item.objects.update(a=5)
Item.broken = True
try:
    flush()
except RuntimeError:
    pass
Item.broken = False
flush()
expect(Item.objects.get().twice == 10, 'an interrupted flush lost a marker')
'''),
    dict(id='b28', property='C20', edits=[
        (DEN, '''        if not qs:
            break
''', '''        if not qs:
            # get rid of markers without an object, too
            DirtyInstance.objects.all().delete()
            break
''')],
        needs='a marker added by another connection between the last look at the markers and the end of the flush',
        breaks='the marker is deleted without a save',
        models=NONE, demo='''
setup()
from demoapp.models import *
from django.db import connection
from denorm import flush
Item.objects.create(a=1)
flush()
state = []

# the change happens after the query was answered: fetch everything at once
from django.db.models.sql import compiler
real = compiler.SQLCompiler.execute_sql


def fetched(self, *a, **k):
    r = real(self, *a, **k)
    r = list(r) if r is not None and hasattr(r, '__iter__') else r
    if self.query.model.__name__ == 'DirtyInstance' and self.query.__class__.__name__ == 'Query' and not state and not r:
        state.append(1)
        connection.connection.execute('UPDATE demoapp_item SET a = 5')
    return r


compiler.SQLCompiler.execute_sql = fetched
flush()
compiler.SQLCompiler.execute_sql = real
expect(state, 'nothing happened')
flush()
expect(Item.objects.get().twice == 10, 'a change made during a flush was forgotten')
'''),
    dict(id='b29', property='C07', edits=[
        (DEN, '''        trigger_list = [
            triggers.Trigger(related_model, "after", "update", [increment, decrement], content_type, using, self.skip),
''', '''        moves = [increment, decrement]
        if isinstance(self, CountDenorm) and not inc_filter_where:
            # as long as the row stays where it is there is nothing to count
            moves = [
                triggers.TriggerActionUpdate(
                    model=self.model,
                    columns=(self.fieldname,),
                    values=(value,),
                    where=' AND '.join(where + ["NEW.%s <> OLD.%s" % (fk_name, fk_name)]),
                ) for value, where in (
                    (self.get_increment_value(using), inc_where), (self.get_decrement_value(using), dec_where))
            ]
        trigger_list = [
            triggers.Trigger(related_model, "after", "update", moves, content_type, using, self.skip),
''')],
        needs='a row that is moved from no parent to one, or from one to none, by an update',
        breaks='the count of that parent is not adjusted',
        models=HEAD + '''
class Forum(models.Model):
    posts = CountField('post_set')


class Post(models.Model):
    forum = models.ForeignKey(Forum, null=True, on_delete=models.CASCADE)
''', demo='''
setup()
from demoapp.models import *
f = Forum.objects.create()
Post.objects.create(forum=f)
Post.objects.create()
expect(Forum.objects.get().posts == 1, 'one post')
Post.objects.update(forum=f)
expect(Forum.objects.get().posts == 2, 'a post that got a forum is not counted')
'''),
    dict(id='b30', property='C08', edits=[
        (DEN, '''        trigger_list = [
            triggers.Trigger(related_model, "after", "update", [increment, decrement], content_type, using, self.skip),
''', '''        skip = list(self.skip or [])
        if isinstance(self, SumDenorm):
            # only these columns can change a sum
            used = [related_field.attname, self.sum_field] + [name.split('__')[0] for name in self.filter]
            skip += [f.attname for f in related_model._meta.fields if f.attname not in used]
        trigger_list = [
            triggers.Trigger(related_model, "after", "update", [increment, decrement], content_type, using, skip),
''')],
        needs='a sum field with an exclusion, and an update of the column it is about only (PostgreSQL or MySQL)',
        breaks='the sum is not adjusted when a row becomes excluded',
        models=HEAD + '''
class Forum(models.Model):
    total = SumField('post_set', field='points', exclude={'level__lt': 3})


class Post(models.Model):
    forum = models.ForeignKey(Forum, on_delete=models.CASCADE)
    points = models.IntegerField(default=0)
    level = models.IntegerField(default=0)
''', demo='''
setup('postgres')
from demoapp.models import *
f = Forum.objects.create()
Post.objects.create(forum=f, points=7, level=5)
Post.objects.create(forum=f, points=4, level=1)
expect(Forum.objects.get().total == 7, 'one post')
Post.objects.filter(points=4).update(level=4)
expect(Forum.objects.get().total == 11, 'a post that matches now is not in the sum')
'''),
    dict(id='b31', property='C01', edits=[
        (DEP, '''                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                )
            )
            return [
                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
            ]
''', '''                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                )
            )
            trigger_list = [
                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
            ]
            if self.field.null:
                # otherwise the dependent rows are deleted as well
                trigger_list.append(triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip))
            return trigger_list
''')],
        needs='the deletion of a row that a foreign key without a constraint in the database points to',
        breaks='the instances that refer to the deleted row are not marked',
        models=HEAD + '''
class Owner(models.Model):
    name = models.CharField(max_length=20)


class Thing(models.Model):
    owner = models.ForeignKey(Owner, on_delete=models.DO_NOTHING, db_constraint=False)

    @denormalized(models.CharField, max_length=20)
    @depend_on_related(Owner)
    def owner_name(self):
        o = Owner.objects.filter(pk=self.owner_id).first()
        return o.name if o else 'nobody'
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
o = Owner.objects.create(name='x')
Thing.objects.create(owner=o)
flush()
Owner.objects.all().delete()
flush()
expect(Thing.objects.get().owner_name == 'nobody', 'the owner is gone, but the name is still there')
'''),
    dict(id='b32', property='C12', edits=[
        (PG, '''        name = truncate_name(self.name(), self.connection.ops.max_name_length() - 5)
''', '''        name = self.name()[:self.connection.ops.max_name_length() - 5]
''')],
        needs='two tables whose names agree in their first thirty characters (PostgreSQL)',
        breaks='both triggers run the same function, the one made for the second table',
        models=HEAD + '''
class Owner(models.Model):
    name = models.CharField(max_length=20)


class Red(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField)
    def twice(self):
        return 2 * self.a

    class Meta:
        db_table = 'a_table_with_a_name_that_is_much_longer_than_usual_red'


class Blue(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField)
    def twice(self):
        return 2 * self.a

    class Meta:
        db_table = 'a_table_with_a_name_that_is_much_longer_than_usual_blue'
''', demo='''
setup('postgres')
from demoapp.models import *
from denorm import flush
Red.objects.bulk_create([Red(a=1)])
Blue.objects.bulk_create([Blue(a=1)])
flush()
Red.objects.update(a=2)
Blue.objects.update(a=2)
flush()
expect(Red.objects.get().twice == 4 and Blue.objects.get().twice == 4, 'an update was not noticed')
'''),
    dict(id='b33', property='C14', edits=[
        (DEP, '''        candidates = [x for x in candidates if not self.type or self.type == x[0]]
''', '''        candidates = [x for x in candidates if x[0].startswith(self.type or '')]
''')],
        needs='a foreign key and a many-to-many relation in the same direction, and a dependency of type forward',
        breaks='the declaration is rejected as ambiguous',
        models=HEAD + '''
class Person(models.Model):
    name = models.CharField(max_length=20)


class Letter(models.Model):
    sender = models.ForeignKey(Person, on_delete=models.CASCADE, related_name='+')
    readers = models.ManyToManyField(Person, related_name='+')

    @denormalized(models.CharField, max_length=20)
    @depend_on_related(Person, type='forward')
    def from_name(self):
        return self.sender.name
''', demo='''
try:
    setup()
    from demoapp.models import *
except ValueError as e:
    expect(False, str(e))
from denorm import flush
p = Person.objects.create(name='a')
Letter.objects.create(sender=p)
flush()
Person.objects.update(name='b')
flush()
expect(Letter.objects.get().from_name == 'b', 'outdated')
'''),
    dict(id='b34', property='C02', edits=[
        (DEN, '''        trigger_list = [
            triggers.Trigger(self.model, "after", "update", [action], content_type, using, self.skip),
            triggers.Trigger(self.model, "after", "insert", [action], content_type, using, self.skip),
        ]

        return trigger_list + super(CallbackDenorm, self)''', '''        # a new value of the field itself is no reason to compute it again
        skip = tuple(self.skip or ()) + (self.model._meta.get_field(self.fieldname).attname,)
        trigger_list = [
            triggers.Trigger(self.model, "after", "update", [action], content_type, using, skip),
            triggers.Trigger(self.model, "after", "insert", [action], content_type, using, self.skip),
        ]

        return trigger_list + super(CallbackDenorm, self)''')],
        needs='an update of the denormalized column itself with SQL or a queryset',
        breaks='the row is not marked and keeps a value the function would not compute',
        models=NONE, demo='''
setup()
from demoapp.models import *
from denorm import flush
Item.objects.create(a=4)
flush()
Item.objects.update(twice=1)
flush()
expect(Item.objects.get().twice == 8, 'a wrong value was not put right')
'''),
    dict(id='b35', property='C10', edits=[
        (FLD, '''        value = self.denorm.func(model_instance)
        setattr(model_instance, self.attname, value)
        return value

    def south''', '''        value = getattr(model_instance, self.attname, None)
        if add or not isinstance(value, int):
            value = self.denorm.func(model_instance)
        setattr(model_instance, self.attname, value)
        return value

    def south''')],
        needs='an instance with a cache key that is changed and saved again',
        breaks='its key stays the same',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)
    key = CacheKeyField()
''', demo='''
setup()
from demoapp.models import *
i = Item.objects.create()
k = Item.objects.get().key
i.a = 5
i.save()
expect(Item.objects.get().key != k, 'the key was not renewed')
'''),
    dict(id='b36', property='C03', edits=[
        (SQLITE, '''            if event == "DELETE":
                when.append("(OLD.%s == %s)" % (ct_field, content_type))
            elif event == "INSERT":
''', '''            if event == "INSERT":
''')],
        needs='the deletion of a row that belongs, through a generic relation, to an instance of another model (SQLite)',
        breaks='the instance with the same primary key is marked although nothing it depends on changed',
        models=HEAD + '''
class Note(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    owner = GenericForeignKey()


class Shelf(models.Model):
    notes = GenericRelation(Note)

    @denormalized(models.IntegerField)
    @depend_on_related(Note)
    def number(self):
        return self.notes.count() if self.pk else 0


class Box(models.Model):
    pass
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
s, b = Shelf.objects.create(), Box.objects.create()
expect(s.pk == b.pk, 'same key')
Note.objects.create(owner=b)
flush()
Note.objects.all().delete()
expect(marked() == set(), 'a shelf is marked for a note of a box')
'''),
    dict(id='b37', property='C18', edits=[
        (DAEMON, '''        if self.pid_exists(pidfile):
            return
''', '''        if not foreground and self.pid_exists(pidfile):
            return
''')],
        needs='the daemon being started in the foreground while another one is running',
        breaks='the second daemon runs beside the first one',
        models=NONE, demo='''
setup()
from demoapp.models import *
from denorm.management.commands import denorm_daemon
Item.objects.create(a=1)
Item.objects.update(a=5)
d = tempfile.mkdtemp(prefix='demo-')
pidfile = os.path.join(d, 'pid')
open(pidfile, 'w').write(str(os.getpid()))
denorm_daemon.sleep = lambda seconds: None
denorm_daemon.Command(stderr=open(os.devnull, 'w')).handle(foreground=True, interval=1, pidfile=pidfile, run_once=True)
shutil.rmtree(d)
expect(marked() == set([('item', str(Item.objects.get().pk))]), 'a second daemon was started')
'''),
]
