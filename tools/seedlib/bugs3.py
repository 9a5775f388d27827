"""Planted bugs, third batch."""
from bugs1 import HEAD, DEN, DEP, FLD, BASE
from bugs2 import SQLITE, PG, MYSQL, HELP, MID, DAEMON, BG, NONE

BUGS = [
    dict(id='b38', property='C04', edits=[
        (DEN, '''    # Loop until break.
''', '''    # how often each instance has been saved
    saves = {}

    # Loop until break.
'''), (DEN, '''                dirty_instance.content_object.save()
''', '''                key = (dirty_instance.content_type_id, dirty_instance.object_id)
                saves[key] = saves.get(key, 0) + 1
                # values that never settle must not keep the loop going
                if saves[key] <= 5:
                    dirty_instance.content_object.save()
''')],
        needs='an instance that is marked more than five times in one flush, because the instances it depends on settle one after the other',
        breaks='its last marker is cleared without recomputing the instance',
        models=HEAD + '''
class Node(models.Model):
    parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
    b = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='forward')
    def total(self):
        return self.b + (Node.objects.get(pk=self.parent_id).total if self.parent_id else 0)
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
nodes = [Node.objects.create(b=1) for i in range(9)]
for n, above in zip(nodes, nodes[1:]):
    Node.objects.filter(pk=n.pk).update(parent=above)
    flush()
flush()
Node.objects.update(b=2)
flush()
for i, n in enumerate(Node.objects.order_by('pk')):
    expect(n.total == 2 * (9 - i), 'node %d has the total %s' % (i, n.total))
'''),
    dict(id='b39', property='C06', edits=[
        (DEN, '''                DirtyInstance.objects.create(
                    content_type=content_type,
                    object_id=instance.pk,
                )
''', '''                # it may have been changed just now
                if not DirtyInstance.objects.filter(object_id=instance.pk).exists():
                    DirtyInstance.objects.create(
                        content_type=content_type,
                        object_id=instance.pk,
                    )
''')],
        needs='a rebuild of one model while an instance of another model with the same number is marked and gone',
        breaks='the instance is not rebuilt',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * self.a


class Other(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * self.a
''', demo='''
setup()
from demoapp.models import *
from denorm import flush, rebuildall
Item.objects.create(pk=1, a=1)
Other.objects.create(pk=1, a=1)
flush()
Item.objects.update(twice=7)
clear()
Other.objects.update(a=3)
rebuildall(model_name='Item')
expect(Item.objects.get().twice == 2, 'the value is still %s after the rebuild' % Item.objects.get().twice)
'''),
    dict(id='b40', property='C01', edits=[
        (BASE, '''            if f.concrete and (
                not f.is_relation
                or f.one_to_one
                or (f.many_to_one and f.related_model)
            )
''', '''            if f.concrete and (
                not f.is_relation
                or (f.many_to_one and f.related_model)
            )
''')],
        needs='a change of a one-to-one column of the depended on row, and of nothing else',
        breaks='the instances that depend on the row are not marked',
        models=HEAD + '''
class Seat(models.Model):
    name = models.CharField(max_length=20)


class Guest(models.Model):
    seat = models.OneToOneField(Seat, null=True, on_delete=models.CASCADE)


class Bill(models.Model):
    guest = models.ForeignKey(Guest, on_delete=models.CASCADE)

    @denormalized(models.CharField, max_length=20)
    @depend_on_related(Guest)
    def seat_name(self):
        g = Guest.objects.get(pk=self.guest_id)
        return g.seat.name if g.seat else 'none'
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
s = Seat.objects.create(name='window')
g = Guest.objects.create(seat=s)
Bill.objects.create(guest=g)
flush()
Guest.objects.update(seat=None)
flush()
expect(Bill.objects.get().seat_name == 'none', 'the bill still names the seat %s' % Bill.objects.get().seat_name)
'''),
    dict(id='b41', property='C12', edits=[
        (MYSQL, '''            name = name[:45] + ''.join(
                random.choice(string.ascii_uppercase + string.digits)
                for x in range(5)
            )
''', '''            # the last part, which tells the tables apart
            name = name[:25] + name[-25:]
''')],
        needs='two long table names that only differ in the middle (MySQL)',
        breaks='the triggers of both tables get the same name, so that they cannot be installed',
        models=HEAD + '''
class Red(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * self.a

    class Meta:
        db_table = 'shop_red_positions_of_the_yearly_report'


class Blue(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * self.a

    class Meta:
        db_table = 'shop_blue_positions_of_the_yearly_report'
''', demo='''
setup('mysql', init=False)
from demoapp.models import *
from denorm import flush
from denorm.denorms import install_triggers
from django.db import DatabaseError
try:
    install_triggers()
except DatabaseError as e:
    expect(False, 'the triggers cannot be installed: %s' % e)
Red.objects.bulk_create([Red(a=1)])
Blue.objects.bulk_create([Blue(a=1)])
flush()
expect(Red.objects.get().twice == 2 and Blue.objects.get().twice == 2, 'an insert was not noticed')
'''),
    dict(id='b42', property='C16', edits=[
        (DEN, '''    if created:
        def check_resave():
''', '''    if created and not sender._meta.proxy:
        def check_resave():
''')],
        needs='an instance that is created through a proxy of the model',
        breaks='the new instance has no links',
        models=HEAD + '''
class Tag(models.Model):
    name = models.CharField(max_length=20)


class Item(models.Model):
    name = models.CharField(max_length=20)

    @denormalized(models.ManyToManyField, to=Tag)
    def tags(self):
        return list(Tag.objects.filter(name=self.name))


class SpecialItem(Item):
    class Meta:
        proxy = True
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
t = Tag.objects.create(name='x')
Item.objects.create(name='x')
i = SpecialItem.objects.create(name='x')
expect([x.pk for x in Item.objects.get(pk=i.pk).tags.all()] == [t.pk], 'the new item has no tags')
'''),
    dict(id='b43', property='C18', edits=[
        (DAEMON, '''                sleep(interval)
''', '''                # changes should not wait longer than this
                sleep(min(interval, 600))
''')],
        needs='an interval of more than ten minutes',
        breaks='the daemon flushes more often than it was told to',
        models=NONE, demo='''
setup()
import tempfile
from denorm.management.commands import denorm_daemon
slept = []


def wait(seconds):
    slept.append(seconds)
    raise KeyboardInterrupt()


denorm_daemon.sleep = wait
d = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, d, True)
try:
    denorm_daemon.Command().handle(foreground=True, interval=86400, pidfile=os.path.join(d, 'pid'), run_once=False)
except SystemExit:
    pass
expect(slept == [86400], 'the daemon waits %s seconds' % slept)
'''),
    dict(id='b44', property='C17', edits=[
        (MID, '''        try:
            flush()
''', '''        if getattr(response, 'streaming', False):
            # the content is still to come
            return response
        try:
            flush()
''')],
        needs='a streaming response',
        breaks='the changes made by the view are not flushed',
        models=NONE, demo='''
setup()
from demoapp.models import *
from denorm.middleware import DenormMiddleware
from django.http import StreamingHttpResponse
from django.test import RequestFactory


def view(request):
    Item.objects.update(a=4)
    return StreamingHttpResponse(iter(['x']))


Item.objects.create(a=1)
DenormMiddleware(view)(RequestFactory().get('/'))
expect(Item.objects.get().twice == 8, 'the response went out without a flush')
'''),
    dict(id='b45', property='C10', edits=[
        (DEP, '''                action_new = triggers.TriggerActionUpdate(
                    model=self.this_model,
                    columns=(self.fieldname,),
                    values=(triggers.RandomBigInt(),),
                    where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                )
                trigger_list.append(triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip))
''', '''                action_new = triggers.TriggerActionUpdate(
                    model=self.this_model,
                    columns=(self.fieldname,),
                    values=(triggers.RandomBigInt(),),
                    where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                )
                if self.other_model is not self.this_model:
                    # otherwise the triggers would call each other
                    trigger_list.append(triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip))
''')],
        needs='a cache key that depends on other rows of its own table through many-to-many links',
        breaks='the keys of the linked instances are not renewed',
        models=HEAD + '''
class Person(models.Model):
    name = models.CharField(max_length=20)
    friends = models.ManyToManyField('self', symmetrical=False)
    version = CacheKeyField()
    version.depend_on_related('self', type='forward_m2m', skip=('version',))
''', demo='''
setup()
from demoapp.models import *
a = Person.objects.create(name='a')
b = Person.objects.create(name='b')
a.friends.add(b)
before = Person.objects.get(pk=a.pk).version
Person.objects.filter(pk=b.pk).update(name='c')
expect(Person.objects.get(pk=a.pk).version != before, 'a friend changed, the key did not')
'''),
    dict(id='b47', property='C05', edits=[
        (DEN, '''                dirty_instance.content_object.save()
''', '''                instance = dirty_instance.content_object
                # the markers go first: whoever changes the instance from now on marks it again
                marker = {'content_type_id': dirty_instance.content_type_id, 'object_id': dirty_instance.object_id}
                DirtyInstance.objects.filter(**marker).delete()
                try:
                    instance.save()
                except Exception:
                    DirtyInstance.objects.create(**marker)
                    raise
''')],
        needs='a flush that is ended by an interrupt (not an error) while it recomputes an instance',
        breaks='the marker is gone although the instance was not saved',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        if Item.interrupt:
            raise KeyboardInterrupt()
        return 2 * self.a

    interrupt = False
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
Item.objects.create(a=1)
flush()
Item.objects.update(a=5)
Item.interrupt = True
try:
    flush()
except KeyboardInterrupt:
    pass
Item.interrupt = False
flush()
expect(Item.objects.get().twice == 10, 'the interrupted recomputation is never made up for')
'''),
]
