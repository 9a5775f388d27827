"""A small Django project on a throw-away database, around the models of demoapp beside this file."""
import os
import sys
import tempfile
import shutil
import subprocess
import time
import atexit

HERE = os.path.dirname(os.path.abspath(__file__))
PG = '/usr/lib/postgresql/16/bin/'
QUIET = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def server(db):
    d = tempfile.mkdtemp(prefix='demo-')
    os.chmod(d, 0o755)
    w = os.path.join(d, 'db')
    os.mkdir(w)
    if db == 'postgres':
        shutil.chown(w, 'postgres', 'postgres')
        pre = ['env', 'HOME=' + w, 'setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups']

        def run(*a):
            subprocess.run(pre + list(a), check=True, cwd=w, **QUIET)
        run(PG + 'initdb', '-D', w + '/data', '-A', 'trust', '-U', 'postgres', '-E', 'UTF8', '--locale=C.UTF-8', '-N')
        run(PG + 'pg_ctl', '-D', w + '/data', '-w', '-t', '120', '-l', w + '/log', '-o',
            '-c listen_addresses= -c unix_socket_directories=%s -c fsync=off' % w, 'start')

        def stop():
            subprocess.run(pre + [PG + 'pg_ctl', '-D', w + '/data', '-m', 'immediate', '-w', 'stop'], cwd=w, **QUIET)
            shutil.rmtree(d, ignore_errors=True)
        atexit.register(stop)
        for n in ('demo', 'demo2'):
            run(PG + 'createdb', '-h', w, '-U', 'postgres', n)
        return w
    shutil.chown(w, 'mysql', 'mysql')
    subprocess.run(['mariadb-install-db', '--no-defaults', '--user=mysql', '--datadir=' + w + '/data',
                    '--auth-root-authentication-method=normal', '--skip-test-db'], check=True, **QUIET)
    p = subprocess.Popen(['/usr/sbin/mariadbd', '--no-defaults', '--user=mysql', '--datadir=' + w + '/data', '--socket=' + w + '/sock',
                          '--pid-file=' + w + '/pid', '--skip-networking', '--character-set-server=utf8mb4'], **QUIET)

    def stop():
        p.terminate()
        p.wait()
        shutil.rmtree(d, ignore_errors=True)
    atexit.register(stop)
    for i in range(240):
        if subprocess.run(['mariadb-admin', '--no-defaults', '-uroot', '-S', w + '/sock', 'ping'], **QUIET).returncode == 0:
            break
        time.sleep(0.25)
    for n in ('demo', 'demo2'):
        subprocess.run(['mariadb', '--no-defaults', '-uroot', '-S', w + '/sock', '-e', 'CREATE DATABASE ' + n], check=True, **QUIET)
    return w + '/sock'


def setup(db='sqlite', init=True, **extra):
    import django
    from django.conf import settings

    host = '' if db == 'sqlite' else server(db)

    def conf(n):
        if db == 'sqlite':
            return {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}
        if db == 'postgres':
            return {'ENGINE': 'django.db.backends.postgresql_psycopg2', 'NAME': n, 'USER': 'postgres', 'HOST': host}
        return {'ENGINE': 'django.db.backends.mysql', 'NAME': n, 'USER': 'root', 'OPTIONS': {'unix_socket': host}}
    opts = dict(DATABASES={'default': conf('demo'), 'second': conf('demo2')},
                INSTALLED_APPS=['django.contrib.contenttypes', 'denorm', 'demoapp'], SECRET_KEY='x', USE_TZ=False,
                CACHES={'default': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache'}}, LOGGING_CONFIG=None)
    opts.update(extra)
    settings.configure(**opts)
    django.setup()
    from django.core.management import call_command
    from django.db import connections
    for alias in ('default', 'second'):
        call_command('migrate', run_syncdb=True, verbosity=0, database=alias)
    atexit.register(connections.close_all)
    if init:
        from denorm.denorms import install_triggers
        install_triggers()


def sql(stmt, *params):
    from django.db import connection
    with connection.cursor() as c:
        c.execute(stmt, params)
        return c.fetchall() if c.description else None


def marked():
    """The set of (model name, primary key) with a dirty marker."""
    from denorm.models import DirtyInstance
    return set((m.content_type.model, str(m.object_id)) for m in DirtyInstance.objects.all())


def clear():
    from denorm.models import DirtyInstance
    DirtyInstance.objects.all().delete()


def expect(cond, what):
    if not cond:
        print('FAILED: ' + what)
        sys.stdout.flush()
        sys.exit(1)
