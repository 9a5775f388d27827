"""Models that exercise every relation kind, with names that differ from the attribute names.

Models whose rows are marked (M...), whose cache keys are renewed (K...) and that carry aggregates are
kept apart, so that what a change has to cause can be stated without cascades.  Dependencies on the same
table exclude the same columns.
"""
import uuid

from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.core.cache import cache
from django.db import connection, models

from denorm import denormalized, depend_on_related, CountField, CacheKeyField, cached
from denorm.fields import SumField


def char(**kw):
    return models.CharField(max_length=50, null=True, **kw)


class Aux(models.Model):
    name = char()


def names(qs):
    return ','.join(sorted(str(x.name) for x in qs))


# -- foreign key towards the depended on model ---------------------------------------

class Far(models.Model):
    id = models.AutoField(primary_key=True, db_column='far_key')
    name = char(db_column='far_name')
    number = models.IntegerField(null=True, db_column='far_number')
    aux = models.ForeignKey(Aux, null=True, db_column='far_aux', related_name='+', on_delete=models.CASCADE)
    hushed = models.IntegerField(null=True, db_column='far_hushed')
    mute = models.ForeignKey(Aux, null=True, related_name='+', on_delete=models.CASCADE)
    quiet = models.IntegerField(null=True)
    auxes = models.ManyToManyField(Aux, related_name='fars')
    denorm_always_skip = ('quiet',)

    class Meta:
        db_table = 'far_rows'


class FarExtra(models.Model):
    """Gives Far a reverse one-to-one relation."""
    far = models.OneToOneField(Far, on_delete=models.CASCADE, related_name='extra')


class MFar(models.Model):
    code = models.AutoField(primary_key=True, db_column='mfar_key')
    far = models.ForeignKey(Far, null=True, db_column='my_far', on_delete=models.CASCADE)
    name = char()

    @denormalized(models.TextField, default='', db_column='far_text')
    @depend_on_related(Far, skip=('hushed', 'mute_id'))
    def text(self):
        return str(self.far.name) if self.far else ''


class KFar(models.Model):
    far = models.ForeignKey(Far, null=True, db_column='my_far', on_delete=models.CASCADE)
    other_far = models.ForeignKey(Far, null=True, related_name='+', on_delete=models.CASCADE)
    key = CacheKeyField(db_column='far_cache_key')
    key.depend_on_related('Far', foreign_key='far', skip=('hushed', 'mute_id'))


# -- foreign key of the depended on model --------------------------------------------

class MKid(models.Model):
    id = models.AutoField(primary_key=True, db_column='mkid_key')
    name = char()

    @denormalized(models.TextField, default='')
    @depend_on_related('Kid', skip=('hushed', 'mute_id'))
    def text(self):
        return names(self.kids.all()) if self.pk else ''


class KKid(models.Model):
    name = char()
    key = CacheKeyField(db_column='kid_cache_key')
    key.depend_on_related('Kid', skip=('hushed', 'mute_id'))


class Hush(models.Model):
    quiet = models.IntegerField(null=True, db_column='kid_quiet')
    denorm_always_skip = ('quiet',)

    class Meta:
        abstract = True


class Kid(Hush):
    owner = models.ForeignKey(MKid, null=True, related_name='kids', db_column='kid_of', on_delete=models.CASCADE)
    keeper = models.ForeignKey(KKid, null=True, related_name='kids', db_column='kept_by', on_delete=models.CASCADE)
    name = char(db_column='kid_name')
    number = models.IntegerField(null=True)
    hushed = models.IntegerField(null=True)
    mute = models.ForeignKey(Aux, null=True, related_name='+', on_delete=models.CASCADE)


# -- many-to-many field towards the depended on model --------------------------------

class Tag(models.Model):
    id = models.AutoField(primary_key=True, db_column='tag_key')
    name = char(db_column='tag_name')
    hushed = models.IntegerField(null=True)
    quiet = models.IntegerField(null=True)
    denorm_always_skip = ('quiet',)


class MTag(models.Model):
    id = models.AutoField(primary_key=True, db_column='mtag_key')
    name = char()
    tags = models.ManyToManyField(Tag, related_name='mtags')

    @denormalized(models.TextField, default='')
    @depend_on_related(Tag, skip=('hushed',))
    def text(self):
        return names(self.tags.all()) if self.pk else ''


class KTag(models.Model):
    name = char()
    tags = models.ManyToManyField(Tag, related_name='ktags', db_table='ktag_links')
    key = CacheKeyField(db_column='tag_cache_key')
    key.depend_on_related('Tag', skip=('hushed',))


# -- many-to-many field of the depended on model -------------------------------------

class MClub(models.Model):
    id = models.AutoField(primary_key=True, db_column='mclub_key')
    name = char()

    @denormalized(models.TextField, default='')
    @depend_on_related('Club', skip=('hushed',))
    def text(self):
        return names(self.clubs.all()) if self.pk else ''


class KClub(models.Model):
    name = char()
    key = CacheKeyField(db_column='club_cache_key')
    key.depend_on_related('Club', skip=('hushed',))


class Club(models.Model):
    id = models.AutoField(primary_key=True, db_column='club_key')
    name = char()
    members = models.ManyToManyField(MClub, related_name='clubs')
    guests = models.ManyToManyField(KClub, related_name='clubs')
    hushed = models.IntegerField(null=True, db_column='club_hushed')
    quiet = models.IntegerField(null=True)
    denorm_always_skip = ('quiet',)


# -- generic relations ---------------------------------------------------------------

class Note(models.Model):
    ctype = models.ForeignKey(ContentType, db_column='note_type', on_delete=models.CASCADE, null=True)
    oid = models.PositiveIntegerField(db_column='note_object', null=True)
    target = GenericForeignKey('ctype', 'oid')
    text = char(db_column='note_text')
    hushed = models.IntegerField(null=True)
    mute = models.ForeignKey(Aux, null=True, related_name='+', on_delete=models.CASCADE)
    quiet = models.IntegerField(null=True, db_column='note_quiet')
    denorm_always_skip = ('quiet',)


class MNote(models.Model):
    id = models.AutoField(primary_key=True, db_column='mnote_key')
    name = char()
    notes = GenericRelation(Note, content_type_field='ctype', object_id_field='oid')

    @denormalized(models.TextField, default='')
    @depend_on_related(Note, skip=('hushed', 'mute_id'))
    def text(self):
        return ','.join(sorted(str(r.text) for r in self.notes.all())) if self.pk else ''


class MNote2(models.Model):
    name = char()
    notes = GenericRelation(Note, content_type_field='ctype', object_id_field='oid')

    @denormalized(models.TextField, default='')
    @depend_on_related(Note, skip=('hushed', 'mute_id'))
    def text(self):
        return ','.join(sorted(str(r.text) for r in self.notes.all())) if self.pk else ''


class KNote(models.Model):
    name = char()
    notes = GenericRelation(Note, content_type_field='ctype', object_id_field='oid')
    key = CacheKeyField(db_column='note_cache_key')
    key.depend_on_related('Note', skip=('hushed', 'mute_id'))


# -- relations of a model to itself --------------------------------------------------

class SUp(models.Model):
    id = models.AutoField(primary_key=True, db_column='sup_key')
    parent = models.ForeignKey('self', null=True, related_name='children', db_column='up', on_delete=models.CASCADE)
    name = char()
    quiet = models.IntegerField(null=True)
    denorm_always_skip = ('quiet',)

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward')
    def path(self):
        return (self.parent.path if self.parent else '') + '/' + str(self.name)


class SDown(models.Model):
    id = models.AutoField(primary_key=True, db_column='sdown_key')
    parent = models.ForeignKey('self', null=True, related_name='children', db_column='up', on_delete=models.CASCADE)
    name = char()
    quiet = models.IntegerField(null=True)
    denorm_always_skip = ('quiet',)

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='backward')
    def below(self):
        return names(self.children.all()) if self.pk else ''


class SLike(models.Model):
    id = models.AutoField(primary_key=True, db_column='slike_key')
    name = char()
    likes = models.ManyToManyField('self', symmetrical=False, related_name='liked_by')

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward_m2m')
    def liked(self):
        return names(self.likes.all()) if self.pk else ''


if connection.vendor == 'sqlite':
    # elsewhere the triggers of a table cannot update rows of that table, or start one another
    class KLike(models.Model):
        id = models.AutoField(primary_key=True, db_column='klike_key')
        name = char()
        likes = models.ManyToManyField('self', symmetrical=False, related_name='liked_by')
        key = CacheKeyField(db_column='like_cache_key')
        key.depend_on_related('self', type='forward_m2m', skip=('key',))

    class KFan(models.Model):
        id = models.AutoField(primary_key=True, db_column='kfan_key')
        name = char()
        likes = models.ManyToManyField('self', symmetrical=False, related_name='fans')
        key = CacheKeyField(db_column='fan_cache_key')
        key.depend_on_related('self', type='backward_m2m', skip=('key',))


class SFan(models.Model):
    id = models.AutoField(primary_key=True, db_column='sfan_key')
    name = char()
    likes = models.ManyToManyField('self', symmetrical=False, related_name='liked_by')

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='backward_m2m')
    def fans(self):
        return names(self.liked_by.all()) if self.pk else ''


# -- own rows ------------------------------------------------------------------------

class Box(models.Model):
    """Excluded columns given for the field and for the model; instances are false."""
    name = char()
    number = models.IntegerField(null=True, db_column='box_number')
    aux = models.ForeignKey(Aux, null=True, related_name='+', on_delete=models.CASCADE)
    hidden = models.IntegerField(null=True, db_column='box_hidden')
    hushed = models.IntegerField(null=True)
    mute = models.ForeignKey(Aux, null=True, related_name='+', on_delete=models.CASCADE)

    @denormalized(models.TextField, default='', skip=('hidden',))
    def upper(self):
        return str(self.name).upper()

    denorm_always_skip = ('hushed', 'mute_id')

    def __len__(self):
        return 0


class Columns(models.Model):
    class Meta:
        abstract = True


for i in range(70):
    Columns.add_to_class('c%02d' % i, models.IntegerField(null=True))


class Wide(Columns):
    """More columns than any other table."""
    @denormalized(models.TextField, default='')
    def total(self):
        return str(sum(getattr(self, 'c%02d' % i) or 0 for i in range(70)))


class MWide(models.Model):
    wide = models.ForeignKey(Wide, null=True, on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related(Wide)
    def text(self):
        return self.wide.total if self.wide else ''


class BoxExtra(models.Model):
    box = models.OneToOneField(Box, on_delete=models.CASCADE, related_name='extra')


class Slip(models.Model):
    """Primary key that is no number."""
    code = models.CharField(max_length=20, primary_key=True, db_column='slip_code')
    name = char()

    @denormalized(models.TextField, default='')
    def upper(self):
        return str(self.name).upper()


class Plain(models.Model):
    """Hidden from the default manager unless shown."""
    name = char()
    shown = models.BooleanField(default=True)

    class Shown(models.Manager):
        def get_queryset(self):
            return super(Plain.Shown, self).get_queryset().filter(shown=True)
    objects = Shown()
    everything = models.Manager()

    @denormalized(models.TextField, default='')
    def loud(self):
        return str(self.name) + '!'


class PlainProxy(Plain):
    class Meta:
        proxy = True


class Bare(models.Model):
    """No denormalized field at all."""
    name = char()


# -- aggregates ----------------------------------------------------------------------

class Owner(models.Model):
    id = models.AutoField(primary_key=True, db_column='owner_key')
    name = char()
    item_total = CountField('items', db_column='total_of_items')
    item_sum = SumField('items', field='number', db_column='sum_of_items')
    gift_total = CountField('gifts')


class Item(models.Model):
    owner = models.ForeignKey(Owner, null=True, related_name='items', db_column='belongs_to', on_delete=models.CASCADE)
    giver = models.ForeignKey(Owner, null=True, related_name='gifts', on_delete=models.CASCADE)
    number = models.IntegerField(null=True, db_column='item_number')
    name = char()


class Badge(models.Model):
    """Primary keys assigned by the application."""
    code = models.CharField(max_length=20, primary_key=True, db_column='badge_code')
    uses = CountField('badge_uses')


class BadgeUse(models.Model):
    badge = models.ForeignKey(Badge, null=True, related_name='badge_uses', on_delete=models.CASCADE)


class Token(models.Model):
    id = models.UUIDField(primary_key=True, default=uuid.uuid4)
    uses = CountField('token_uses')


class TokenUse(models.Model):
    token = models.ForeignKey(Token, null=True, related_name='token_uses', on_delete=models.CASCADE)


class Countable(models.Model):
    """An aggregate and a cache key in an abstract model."""
    parts = CountField('items')
    worth = SumField('items', field='number')
    part_key = CacheKeyField()

    class Meta:
        abstract = True


class Car(Countable):
    name = char()


class Cart(Countable):
    name = char()


class CarPart(models.Model):
    owner = models.ForeignKey(Car, null=True, related_name='items', on_delete=models.CASCADE)
    number = models.IntegerField(null=True)


class CartPart(models.Model):
    owner = models.ForeignKey(Cart, null=True, related_name='items', on_delete=models.CASCADE)
    number = models.IntegerField(null=True)


# one aggregate alone: its triggers are not merged with those of another

class Purse(models.Model):
    amount = SumField('coins', field='value')


class Coin(models.Model):
    purse = models.ForeignKey(Purse, null=True, related_name='coins', on_delete=models.CASCADE)
    value = models.IntegerField(null=True)
    metal = char()


if connection.vendor != 'sqlite':
    class Till(models.Model):
        taken = SumField('slips', field='amount', filter={'paid__exact': True}, exclude={'void__exact': True})

    class TillSlip(models.Model):
        till = models.ForeignKey(Till, null=True, related_name='slips', db_column='slip_till', on_delete=models.CASCADE)
        amount = models.IntegerField(null=True, db_column='slip_amount')
        paid = models.BooleanField(default=True, db_column='slip_paid')
        void = models.BooleanField(default=False, db_column='slip_void')

    class Jar(models.Model):
        good = CountField('beans', filter={'ripe__exact': True}, exclude={'bad__exact': True})

    class Bean(models.Model):
        jar = models.ForeignKey(Jar, null=True, related_name='beans', db_column='bean_jar', on_delete=models.CASCADE)
        ripe = models.BooleanField(default=True, db_column='bean_ripe')
        bad = models.BooleanField(default=False, db_column='bean_bad')

    class Stock(models.Model):
        live = CountField('wares', filter={'live__exact': True}, exclude={'tag': 'x'})
        worth = SumField('wares', field='price', filter={'price__gte': 10}, exclude={'live__exact': False})
        rest = CountField('wares', exclude={'price__gte': 10})
        kept = CountField('wares', exclude={'live__exact': True, 'tag': 'x'})

    class Ware(models.Model):
        stock = models.ForeignKey(Stock, null=True, related_name='wares', db_column='kept_in', on_delete=models.CASCADE)
        live = models.BooleanField(default=False)
        tag = models.CharField(max_length=10, default='')
        price = models.IntegerField(null=True, db_column='ware_price')


# -- denormalized relations ----------------------------------------------------------

class Crate(models.Model):
    """Denormalized foreign key."""
    name = char()

    @denormalized(models.ForeignKey, Aux, null=True, default=None, related_name='+', on_delete=models.CASCADE)
    def aux(self):
        return Crate.compute(self)

    @denormalized(models.CharField, max_length=50, default='', db_column='crate_label')
    def label(self):
        return Crate.label_of(self)

    compute = staticmethod(lambda o: None)
    label_of = staticmethod(lambda o: str(o.name))


class Band(models.Model):
    name = char()
    plain = models.ManyToManyField('Player', related_name='plain_bands')

    @denormalized(models.ManyToManyField, 'Player', blank=True, related_name='denorm_bands')
    @depend_on_related('Player', foreign_key='band', type='backward')
    def members(self):
        return list(Player.objects.filter(band=self))

    @denormalized(models.ManyToManyField, 'Player', blank=True, related_name='star_bands')
    def stars(self):
        return list(Player.objects.filter(band=self, name__startswith='*'))


class Player(models.Model):
    band = models.ForeignKey(Band, null=True, related_name='players', on_delete=models.CASCADE)
    name = char()


class Quote(models.Model):
    source = models.ForeignKey('Origin', null=True, on_delete=models.CASCADE)

    @cached(cache)
    @depend_on_related('Origin')
    def shown(self):
        return Quote.compute(self)

    compute = staticmethod(lambda q: {'of': str(q.source_id)})


class Origin(models.Model):
    name = char()


# -- chains --------------------------------------------------------------------------

class Link1(models.Model):
    name = char()

    @denormalized(models.TextField, default='')
    def a(self):
        return 'a' + str(self.name)


class Link2(models.Model):
    up = models.ForeignKey(Link1, null=True, on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related(Link1)
    def b(self):
        if Link2.broken:
            raise ValueError('broken')
        return 'b' + (self.up.a if self.up else '')

    broken = False


class Link3(models.Model):
    up = models.ForeignKey(Link2, null=True, on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related(Link2)
    def c(self):
        return 'c' + (self.up.b if self.up else '')


# -- declarations with unusual options -----------------------------------------------

class Shape(models.TextField):
    """A column that somebody else created."""
    def db_type(self, connection):
        return None


class Ground(models.Model):
    """Rows that can go away while others still point at them."""
    name = char()
    shape = Shape(null=True)
    mate = models.OneToOneField('self', null=True, related_name='+', db_constraint=False, on_delete=models.DO_NOTHING)


class MSure(models.Model):
    ground = models.ForeignKey(Ground, related_name='+', editable=False, db_constraint=False, on_delete=models.DO_NOTHING)

    @denormalized(models.TextField, default='')
    @depend_on_related(Ground)
    def text(self):
        return ''


class KSure(models.Model):
    ground = models.ForeignKey(Ground, related_name='+', db_index=False, db_constraint=False, on_delete=models.DO_NOTHING)
    fresh = CacheKeyField()
    fresh.depend_on_related(Ground)


class MOne(models.Model):
    ground = models.OneToOneField(Ground, related_name='one', db_constraint=False, on_delete=models.DO_NOTHING)

    @denormalized(models.TextField, default='')
    @depend_on_related(Ground)
    def text(self):
        return ''


class MHost(models.Model):
    name = char()

    @denormalized(models.TextField, default='')
    @depend_on_related('Guest')
    def text(self):
        return ''


class Guest(models.Model):
    host = models.ForeignKey(MHost, editable=False, db_constraint=False, on_delete=models.DO_NOTHING)
    name = char()


class Shelf(models.Model):
    books = CountField('book_set', editable=True)
    pages = SumField('book_set', field='pages')


class Book(models.Model):
    shelf = models.ForeignKey(Shelf, db_constraint=False, on_delete=models.DO_NOTHING)
    pages = models.PositiveIntegerField(default=0)


class MOld(models.Model):
    """A table that migrations do not create."""
    far = models.ForeignKey(Ground, null=True, related_name='olds', db_constraint=False, on_delete=models.DO_NOTHING)
    name = char()
    shape = Shape(null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related(Ground)
    def text(self):
        return ''

    class Meta:
        managed = False
        db_table = 'old_rows'


class LongA(models.Model):
    """Tables whose long names differ at the end only."""
    name = char()

    @denormalized(models.TextField, default='')
    def text(self):
        return ''

    class Meta:
        db_table = 'archive_of_everything_that_was_ever_recorded_here_before_1'


class LongB(models.Model):
    name = char()

    @denormalized(models.TextField, default='')
    def text(self):
        return ''

    class Meta:
        db_table = 'archive_of_everything_that_was_ever_recorded_here_before_2'
