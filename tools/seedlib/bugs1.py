"""Planted bugs, first batch."""
HEAD = '''
from django.db import models
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from denorm import denormalized, depend_on_related, CountField, CacheKeyField, cached
from denorm.fields import SumField

'''
DEN, DEP, FLD, BASE = 'denorm/denorms.py', 'denorm/dependencies.py', 'denorm/fields.py', 'denorm/db/base.py'

BUGS = [
    dict(id='b01', property='C05', edits=[
        (DEN, '''                dirty_instance.content_object.save()
''', '''                try:
                    dirty_instance.content_object.save()
                except DatabaseError:
                    # one bad row must not block all the others
                    if connection.in_atomic_block:
                        raise
'''), (DEN, '''from django.db import connections, connection
''', '''from django.db import DatabaseError, connections, connection
''')],
        needs='a recomputed value that the database rejects outside a transaction (the conflict goes away later)',
        breaks='the marker of an instance that could not be saved is cleared, so the next flush does not recompute it',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, unique=True)
    def twice(self):
        return 2 * self.a
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
from django.db import DatabaseError
i, j = Item.objects.create(a=1), Item.objects.create(a=2)
flush()
Item.objects.filter(pk=i.pk).update(a=2)
try:
    flush()
except DatabaseError:
    pass
Item.objects.filter(pk=j.pk).delete()
flush()
expect(Item.objects.get().twice == 4, 'an update was not recomputed after a failed flush')
'''),
    dict(id='b02', property='C01', edits=[
        (BASE, '''            self.fields = [(subject.m2m_column_name(), ''), (subject.m2m_reverse_name(), '')]
''', '''            # a link belongs to the side that declares it
            self.fields = [(subject.m2m_column_name(), '')]
''')],
        needs='an update of a link row that changes the far end of the link only',
        breaks='the instance whose link now leads elsewhere is not marked',
        models=HEAD + '''
class Tag(models.Model):
    name = models.CharField(max_length=20)


class Post(models.Model):
    tags = models.ManyToManyField(Tag)

    @denormalized(models.TextField)
    @depend_on_related(Tag)
    def names(self):
        return ','.join(sorted(t.name for t in self.tags.all())) if self.pk else ''
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
t, u = Tag.objects.create(name='x'), Tag.objects.create(name='y')
p = Post.objects.create()
p.tags.add(t)
flush()
Post.tags.through.objects.filter(post=p).update(tag=u)
flush()
expect(Post.objects.get().names == 'y', 'the names are those of the former tag')
'''),
    dict(id='b03', property='C10', edits=[
        (DEP, '''                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(column_name),
                ),
            )

            trigger_list = [
                triggers.Trigger(self.field, "after", "update", [action_m2m_new, action_m2m_old], content_type, using, self.skip),
''', '''                    qn(self.this_model._meta.pk.get_attname_column()[1]),
                    qn(column_name),
                ),
            )

            trigger_list = [
                triggers.Trigger(self.field, "after", "update", [action_m2m_new], content_type, using, self.skip),
''')],
        needs='a cache key that depends on a generic relation, and a row moved from one instance to another',
        breaks='the cache key of the former owner is not renewed',
        models=HEAD + '''
class Shelf(models.Model):
    notes = GenericRelation('Note')
    key = CacheKeyField()
    key.depend_on_related('Note')


class Note(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    owner = GenericForeignKey()
''', demo='''
setup()
from demoapp.models import *
a, b = Shelf.objects.create(), Shelf.objects.create()
n = Note.objects.create(owner=a)
before = Shelf.objects.get(pk=a.pk).key
n.owner = b
n.save()
expect(Shelf.objects.get(pk=a.pk).key != before, 'the key of the former shelf was not renewed')
'''),
    dict(id='b04', property='C07', edits=[
        (DEN, '''        inc_query.add_q(~Q(**self.exclude))
''', '''        for name, value in self.exclude.items():
            inc_query.add_q(~Q(**{name: value}))
'''), (DEN, '''        dec_query.add_q(~Q(**self.exclude))
''', '''        for name, value in self.exclude.items():
            dec_query.add_q(~Q(**{name: value}))
''')],
        needs='a count field with an exclusion of two conditions (PostgreSQL or MySQL)',
        breaks='rows that match only one of the two conditions are not counted',
        models=HEAD + '''
class Board(models.Model):
    open_count = CountField('topic_set', exclude={'state': 1, 'hidden': True})


class Topic(models.Model):
    board = models.ForeignKey(Board, on_delete=models.CASCADE)
    state = models.IntegerField(default=0)
    hidden = models.BooleanField(default=False)
''', demo='''
setup('postgres')
from demoapp.models import *
b = Board.objects.create()
Topic.objects.create(board=b)
t = Topic.objects.create(board=b, state=1)
Topic.objects.create(board=b, state=1, hidden=True)
expect(Board.objects.get().open_count == b.topic_set.exclude(state=1, hidden=True).count() == 2, 'wrong count')
'''),
    dict(id='b05', property='C06', edits=[
        (DEN, "if model_name is None or model_name in (current_app_label, current_model_name, current_app_model):",
         "if model_name is None or model_name in '%s %s' % (current_app_model, current_model_name):")],
        needs='a rebuild of one model whose name is part of the name of another model',
        breaks='instances of models that were not selected are marked and saved too',
        models=HEAD + '''
SAVED = []


class Band(models.Model):
    @denormalized(models.IntegerField, default=0)
    def one(self):
        SAVED.append('Band')
        return 1


class BandTour(models.Model):
    @denormalized(models.IntegerField, default=0)
    def one(self):
        SAVED.append('BandTour')
        return 1
''', demo='''
setup()
from demoapp import models as m
from denorm import flush, rebuildall
m.Band.objects.create()
m.BandTour.objects.create()
flush()
del m.SAVED[:]
rebuildall(model_name='Band')
expect(set(m.SAVED) == {'Band'}, 'rebuilding Band recomputed %s' % sorted(set(m.SAVED)))
'''),
    dict(id='b06', property='C20', edits=[
        (DEN, '''        for dirty_instance in qs.iterator():
            if verbose:
''', '''        dangling = []
        for dirty_instance in qs.iterator():
            if verbose:
'''), (DEN, '''                dirty_instance.content_object.save()

''', '''                dirty_instance.content_object.save()
            else:
                dangling.append(dirty_instance.object_id)
                continue

'''), (DEN, '''                object_id=dirty_instance.object_id
            ).delete()
''', '''                object_id=dirty_instance.object_id
            ).delete()
        # the instances of these are gone
        for object_id in dangling:
            DirtyInstance.objects.filter(object_id=object_id).delete()
''')],
        needs='a marker of a deleted instance, and an instance of another model with the same primary key that changes during that pass of the flush',
        breaks='the marker of that change is cleared although its instance was not saved since',
        models=HEAD + '''
HOOK = []


class Item(models.Model):
    a = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * self.a


class Other(models.Model):
    @denormalized(models.IntegerField, default=0)
    def one(self):
        for f in HOOK:
            f()
        return 1
''', demo='''
setup()
from demoapp import models as m
from denorm import flush
i = m.Item.objects.create(pk=1, a=1)
m.Other.objects.create(pk=1)
m.Other.objects.create(pk=2)
flush()
m.Other.objects.filter(pk=1).delete()
clear()
from denorm.models import DirtyInstance
from django.contrib.contenttypes.models import ContentType
ct = ContentType.objects.get_for_model(m.Other)
DirtyInstance.objects.create(content_type=ct, object_id='1')
DirtyInstance.objects.create(content_type=ct, object_id='2')
m.HOOK.append(lambda: m.Item.objects.filter(twice=2).update(a=50))
flush()
expect(m.Item.objects.get().twice == 100 or marked(), 'a change made during the flush was lost')
'''),
    dict(id='b07', property='C02', edits=[
        ('denorm/db/sqlite3/triggers.py', '"(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f))', '"(OLD.%s <> NEW.%s)" % (qn(f), qn(f))')],
        needs='SQLite, and a bulk update from or to NULL',
        breaks='the row that changed is not marked',
        models=HEAD + '''
class Item(models.Model):
    a = models.IntegerField(null=True)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return 2 * (self.a or 0)
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
i = Item.objects.create(a=None)
flush()
Item.objects.all().update(a=4)
expect(('item', str(i.pk)) in marked(), 'an update from NULL to a value does not mark the row')
'''),
    dict(id='b08', property='C03', edits=[
        (DEP, '''                values=(
                    content_type,
                    "OLD.%s" % self.field.get_attname_column()[1],
                ),
            )
            return [
                triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
''', '''                values=(
                    content_type,
                    "OLD.%s" % self.field.get_attname_column()[1],
                ),
            )
            return [
                triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using),
''')],
        needs='a dependency on a reverse foreign key that skips a column, and an update of that column only',
        breaks='the skipped column marks the instance',
        models=HEAD + '''
class Shelf(models.Model):
    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Book', skip=('hits',))
    def books(self):
        return self.book_set.count() if self.pk else 0


class Book(models.Model):
    shelf = models.ForeignKey(Shelf, on_delete=models.CASCADE)
    hits = models.IntegerField(default=0)
''', demo='''
setup()
from demoapp.models import *
from denorm import flush
a = Shelf.objects.create()
Book.objects.create(shelf=a)
flush()
Book.objects.all().update(hits=3)
expect(not marked(), 'a change of a skipped column marked %s' % sorted(marked()))
'''),
    dict(id='b09', property='C08', edits=[
        (DEN, '''            triggers.Trigger(related_model, "after", "delete", [decrement], content_type, using, self.skip),
        ]
        if isinstance(related_field, ManyToManyField):
''', '''            triggers.Trigger(related_field, "after", "delete", [decrement], content_type, using, self.skip),
        ]
        if isinstance(related_field, ManyToManyField):
'''), (DEN, '''            pk_name = qn(self.model._meta.pk.get_attname_column()[1])
            fk_name''', '''            pk_name = qn(self.model._meta.pk.get_attname_column()[0])
            fk_name''')],
        needs='a sum field on a model whose primary key column is named differently from its attribute',
        breaks='the sum is not maintained (the triggers name a column that does not exist, or another column)',
        models=HEAD + '''
class Account(models.Model):
    number = models.IntegerField(primary_key=True, db_column='nr')
    other = models.IntegerField(db_column='number', default=0)
    total = SumField('entry_set', field='amount')


class Entry(models.Model):
    account = models.ForeignKey(Account, on_delete=models.CASCADE)
    amount = models.IntegerField()
''', demo='''
setup()
from demoapp.models import *
a = Account.objects.create(number=5)
b = Account.objects.create(number=6, other=5)
Entry.objects.create(account=a, amount=30)
expect([x.total for x in Account.objects.order_by('number')] == [30, 0], 'the amount went to the wrong account')
'''),
]
