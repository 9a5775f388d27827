"""The middleware and the daemon on the real code; nothing is forked or signalled, stand-ins record the calls."""
import errno
import os
import shutil
import sys
import tempfile
import time

from django.core.management import call_command
from django.db import DatabaseError, DataError, IntegrityError, InternalError, NotSupportedError, OperationalError, ProgrammingError
from django.db import connection, transaction
from django.http import Http404, HttpResponse, StreamingHttpResponse
from django.test import RequestFactory

import dbx
import vapp.models as V
from scenarios import scenario, expect

DB = ('sqlite',)


class patched(object):
    """Replaces attributes for a while: (object, name, value) each."""

    def __init__(self, *what):
        self.what = what

    def __enter__(self):
        self.old = [(o, n, getattr(o, n)) for o, n, _ in self.what]
        for o, n, v in self.what:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)


def everywhere(name, value, *modules):
    """All names of the package, in whatever module, that stand for the function the first of the modules calls so."""
    f = getattr([m for m in modules if hasattr(m, name)][0], name)
    out = []
    for n, m in sorted(sys.modules.items()):
        if m is not None and (n == 'denorm' or n.startswith('denorm.')):
            out += [(m, k, value) for k, v in sorted(vars(m).items()) if v is f]
    return out


# -- middleware -----------------------------------------------------------------------

@scenario('every response is flushed and handed on', 'C17', dbs=DB)
def responses():
    import denorm
    from denorm import denorms, middleware
    n = 0
    rf = RequestFactory()

    class Odd(Exception):
        pass

    responses = [lambda: HttpResponse('ok'), lambda: HttpResponse('no', status=404), lambda: HttpResponse('', status=500),
                 lambda: HttpResponse(status=304), lambda: HttpResponse(status=302), lambda: StreamingHttpResponse(iter(['a']))]
    requests = [rf.get('/'), rf.post('/x', {'a': 1}), rf.head('/'), rf.options('/'), rf.delete('/d'), rf.put('/p'),
                rf.get('/', HTTP_X_REQUESTED_WITH='XMLHttpRequest')]
    outcomes = [None, DatabaseError, DataError, IntegrityError, InternalError, NotSupportedError, OperationalError, ProgrammingError,
                ValueError, RuntimeError, Odd, AttributeError, KeyError, Http404]
    for make in responses:
        for request in requests:
            for outcome in outcomes:
                events = []

                def flush(*a, **k):
                    events.append('flush')
                    if outcome is not None:
                        raise outcome(*given)
                given = [('injected',), (1205, 'injected'), ()][n % 3]
                response = make()

                def view(r):
                    events.append('view')
                    return response
                got = error = None
                with patched(*everywhere('flush', flush, denorms)):
                    try:
                        got = middleware.DenormMiddleware(view)(request)
                    except Exception as e:
                        error = e
                what = '%s %s answered %s, flush %s' % (request.method, request.path, response.status_code, outcome and 'raises ' + outcome.__name__)
                expect(events == ['view', 'flush'], '%s: %s', what, events)
                if outcome is None or issubclass(outcome, DatabaseError):
                    expect(error is None, '%s: %r', what, error)
                    expect(got is response, '%s: handed on %r', what, got)
                else:
                    expect(isinstance(error, outcome), '%s: the error was hidden (%r)', what, error)
                n += 1
    yield 'every response is flushed and handed on', True, n, ''


@scenario('what a view changed is up to date when its response is handed on', 'C17')
def up_to_date():
    from denorm import middleware
    dbx.ready()
    dbx.clear()
    dbx.populate(2)
    n = 0

    def view(request):
        V.Far.objects.update(name='changed by a view')
        return response
    for status in (200, 404, 500):
        response = HttpResponse('x', status=status)
        V.Far.objects.update(name='before')
        got = middleware.DenormMiddleware(view)(RequestFactory().get('/'))
        expect(got is response, 'handed on %r', got)
        expect(dbx.dirty() == [] or not dbx.dirty(), 'markers are left after the response')
        for m in V.MFar.objects.exclude(far=None):
            expect(m.text == 'changed by a view', 'the stored text is %r', m.text)
            n += 1
    dbx.clear()
    yield 'what a view changed is up to date when its response is handed on', True, n, ''


# -- daemon ---------------------------------------------------------------------------

class Left(BaseException):
    """os._exit was called"""


class Endless(BaseException):
    pass


class Run(object):
    """One run of the daemon, interrupted at the given operation."""

    def __init__(self, pid_state, foreground, interval, once, stop_at, cycles=4):
        self.pid_state, self.foreground, self.interval, self.once, self.stop_at = pid_state, foreground, interval, once, stop_at
        self.events, self.n, self.cycles = [], 0, cycles

    def op(self, name, *a):
        self.n += 1
        stop = self.n == self.stop_at
        self.events.append((name,) + a + (('interrupted',) if stop else ()))
        if stop:
            raise KeyboardInterrupt()
        if len(self.events) > 200:
            raise Endless()

    def kill(self, pid, sig):
        self.events.append(('kill', pid, sig))
        if self.pid_state == 'dead':
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        if self.pid_state == 'foreign':
            raise PermissionError(errno.EPERM, 'Operation not permitted')

    def fork(self):
        self.events.append(('fork',))
        return 0

    def go(self):
        import denorm
        from denorm import daemon, denorms
        from denorm.management.commands import denorm_daemon as M
        scratch = tempfile.mkdtemp(prefix='vdaemon')
        pidfile = os.path.join(scratch, 'pid')
        if self.pid_state != 'absent':
            with open(pidfile, 'w') as f:
                f.write('4999999\n' if self.interval % 2 else '4999999')

        def leave(code=0):
            raise Left()
        flush = lambda *a, **k: self.op('flush')                                       # noqa
        sleep = lambda s: self.op('sleep', s)                                          # noqa
        args = ['-i', str(self.interval), '-f', pidfile] + (['-n'] if self.foreground else []) + (['-o'] if self.once else [])
        self.how = 'returned'
        auto = []
        self.pidfile = pidfile
        self.daemonized = []

        def daemonize(noClose=False, pidfile=None):
            self.events.append(('daemonize',))
            self.daemonized.append(pidfile)
        try:
            with patched((os, 'kill', self.kill), (os, 'fork', self.fork), (os, '_exit', leave), (os, 'setsid', lambda: None),
                         (os, 'umask', lambda m: 0), (os, 'chdir', lambda d: None), (time, 'sleep', sleep),
                         (transaction, 'commit', lambda using=None: self.op('commit')),
                         (transaction, 'rollback', lambda using=None: self.op('rollback')),
                         (transaction, 'set_autocommit', lambda flag, using=None: auto.append(flag)),
                         *(everywhere('flush', flush, denorms) + everywhere('sleep', sleep, time) +
                           everywhere('daemonize', daemonize, daemon))):
                try:
                    call_command('denorm_daemon', *args, stderr=open(os.devnull, 'w'))
                except SystemExit:
                    self.how = 'left'
                except KeyboardInterrupt:
                    self.how = 'interrupted'
                except Endless:
                    self.how = 'endless'
                except Left:
                    self.how = 'process ended'
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        self.autocommit = auto[-1] if auto else True
        self.manual = bool(auto) and auto[0] is False
        return self

    def judge(self):
        what = 'pid file %s, %s, interval %s%s, interrupted at operation %s: %s, then %s' % (
            self.pid_state, 'foreground' if self.foreground else 'background', self.interval, ', once' if self.once else '', self.stop_at,
            [e for e in self.events][:14], self.how)
        for e in self.events:
            if e[0] == 'kill':
                expect(e[1:] == (4999999, 0), 'a signal is sent: %s; %s', e, what)
        ops = [e for e in self.events if e[0] in ('flush', 'sleep', 'commit', 'rollback', 'fork', 'daemonize')]
        if self.pid_state in ('alive', 'foreign'):
            expect(not [e for e in ops if e[0] in ('flush', 'sleep', 'fork', 'daemonize')], 'a second daemon works: %s', what)
            return 1
        for f in self.daemonized:
            expect(f == self.pidfile, 'the daemon notes its process in %r instead of the pid file it was given: %s', f, what)
        expect([e for e in ops if e[0] == 'flush'] or ops[0][-1] == 'interrupted', 'the daemon does not flush: %s', what)
        pending, first, waited, interrupted, complete = False, True, 0, False, False
        for e in ops:
            if e[0] in ('flush', 'sleep'):
                expect(not interrupted, 'the daemon goes on after an interruption: %s', what)
            stop = e[-1] == 'interrupted'
            if e[0] == 'flush':
                expect(not pending, 'the work of a cycle is not committed before the next: %s', what)
                expect(first or waited == self.interval, 'waited %s instead of %s between two cycles: %s', waited, self.interval, what)
                first, waited, pending, complete = False, 0, self.manual, not stop
            elif e[0] == 'sleep':
                waited += e[1]
            elif e[0] == 'commit' and not stop:
                pending = False
            elif e[0] == 'rollback' and not stop:
                expect(not (pending and complete), 'finished work is rolled back: %s', what)
                pending = False
            interrupted = interrupted or stop
        if self.how == 'endless':
            expect(not self.once and not interrupted, 'the daemon does not stop: %s', what)
        else:
            expect(interrupted or self.once, 'the daemon stops by itself: %s', what)
            expect(not pending, 'the daemon stops with work not committed: %s', what)
            if self.once and not interrupted:
                expect(len([e for e in ops if e[0] == 'flush']) == 1, 'told to run once: %s', what)
        return 1


@scenario('the daemon flushes, commits and waits', 'C18', dbs=('sqlite', 'postgres'))
def cycles():
    n = 0
    for state in ('absent', 'dead', 'alive', 'foreign'):
        for foreground in (True, False):
            for once in (False, True):
                for interval in (0, 1, 7, 100000):
                    for stop in (None, 1, 2, 3, 4, 5, 6, 7, 8, 9):
                        n += Run(state, foreground, interval, once, stop).go().judge()
    yield 'the daemon flushes, commits and waits', True, n, ''


@scenario('the pid file names the process that goes on', 'C18', dbs=DB)
def pid():
    from denorm import daemon
    scratch = tempfile.mkdtemp(prefix='vdaemon')
    n = 0
    try:
        for given in (True, False):
            written = {}
            for role in ([31], [0, 32], [0, 0]):
                path = os.path.join(scratch, 'pid')
                if os.path.exists(path):
                    os.remove(path)
                left = list(role)
                own = [40]

                def fork():
                    expect(left, 'a third fork')
                    expect(len(left) == len(role) or role[0] == 0, 'the first process forks again')
                    v = left.pop(0)
                    own[0] = {0: 31, 1: 32}[len(role) - 1 - len(left)] if v == 0 else own[0]
                    return v

                def leave(code=0):
                    raise Left()
                ended = False
                out = sys.stdout
                with patched((os, 'fork', fork), (os, '_exit', leave), (os, 'setsid', lambda: None), (os, 'umask', lambda m: 0),
                             (os, 'chdir', lambda d: None), (os, 'getpid', lambda: own[0])):
                    sys.stdout = open(os.devnull, 'w')
                    try:
                        daemon.daemonize(noClose=True, pidfile=path if given else None)
                    except Left:
                        ended = True
                    finally:
                        sys.stdout = out
                expect(ended == (role[-1] != 0), 'the process %s %s', role, 'ends' if ended else 'goes on')
                if os.path.exists(path):
                    with open(path) as f:
                        written[len(role)] = f.read().strip()
                n += 1
            if given:
                expect(set(written.values()) == {'32'}, 'the daemon runs as 32, the pid file says %s', written)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    yield 'the pid file names the process that goes on', True, n, ''


@scenario('the daemon saves and commits what was marked', 'C18')
def real_cycle():
    """One cycle on the real database, run once."""
    dbx.ready()
    dbx.clear()
    dbx.populate(3)
    scratch = tempfile.mkdtemp(prefix='vdaemon')
    n = 0
    try:
        V.Far.objects.update(name='changed')
        expect(dbx.dirty(), 'nothing was marked')
        call_command('denorm_daemon', '-n', '-o', '-i', '0', '-f', os.path.join(scratch, 'pid'))
        expect(connection.get_autocommit(), 'autocommit is left switched off')
        connection.rollback()
        expect(not dbx.dirty(), 'markers are left: %s', dbx.dirty())
        for m in V.MFar.objects.exclude(far=None):
            expect(m.text == 'changed', 'the stored text is %r', m.text)
            n += 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        dbx.clear()
    yield 'the daemon saves and commits what was marked', True, n, ''
