import os

_db = os.environ.get('VREPLAY_DB', 'sqlite')
_host = os.environ.get('VREPLAY_HOST', '')
_engine = {'sqlite': 'django.db.backends.sqlite3', 'postgres': 'django.db.backends.postgresql_psycopg2',
           'mysql': 'django.db.backends.mysql'}[_db]


def _conf(name):
    if _db == 'sqlite':
        return {'ENGINE': _engine, 'NAME': ':memory:'}
    d = {'ENGINE': _engine, 'NAME': name, 'USER': 'postgres' if _db == 'postgres' else 'root', 'PASSWORD': ''}
    if _db == 'postgres':
        d['HOST'] = _host
    else:
        d['OPTIONS'] = {'unix_socket': _host}
    return d


DATABASES = {'default': _conf('vreplay'), 'second': _conf('vreplay2')}
INSTALLED_APPS = ['django.contrib.contenttypes', 'denorm', 'vapp', 'vapp2']
SECRET_KEY = 'x'
USE_TZ = False
CACHES = {'default': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache'}}
MIDDLEWARE = []
ROOT_URLCONF = None
LOGGING_CONFIG = None
if os.environ.get('VREPLAY_UNSAFE'):
    DENORM_BULK_UNSAFE_TRIGGERS = True
