"""Models called like some of vapp."""
from django.db import models

from denorm.fields import denormalized


class Plain(models.Model):
    name = models.CharField(max_length=20, default='')

    @denormalized(models.TextField, default='')
    def loud(self):
        return self.name + '?'
