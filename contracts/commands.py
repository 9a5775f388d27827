"""Contracts of the middleware and of the daemon."""
import z3

from pydv.core import Atom, PathEnd, SBool, SInt, SStr, Unsupported, ctx, mkstr, str_eq, zbool, zint
from pydv.djstub import World, ident, nat, text
from pydv.interp import EXC, Cls, Obj, OBJECT, PyExc, Unknown, make_exc, throw
from .markers import guarded, python_error

ASSUMED_MIDDLEWARE = [
    'django calls a middleware with the request and passes on what it returns (django.utils.deprecation.MiddlewareMixin)',
    'flush by its contract: it returns, or raises any error',
    'django.db.Error and InterfaceError, which are not DatabaseErrors, are not judged',
]
ASSUMED_DAEMON = [
    'flush by its contract (C04, C05): it may be interrupted at any point of its work',
    'os.kill with signal 0 tells whether a process exists (PermissionError: it does); a missing file raises FileNotFoundError',
    'the daemon is interrupted while it flushes, waits or commits, not between two of its statements',
    'a pid file holds a number; other contents are not judged',
    'the child a fork returned is the process that goes on where the fork returned 0',
]

DATABASE = ('DatabaseError', 'DataError', 'OperationalError', 'IntegrityError', 'InternalError', 'ProgrammingError', 'NotSupportedError')
OTHER = ('Exception', 'ValueError', 'RuntimeError', 'AttributeError', 'KeyError', 'KeyboardInterrupt', 'SystemExit')


# -- middleware -----------------------------------------------------------------------

def middleware_unit():
    def harness(c):
        w = World('sqlite3')
        I = w.start()
        p = 'middleware: '
        outcomes = (None,) + DATABASE + OTHER
        outcome = outcomes[c.choose(len(outcomes), 'outcome of flush')]
        db = I.load('django.db')
        raised = []

        def flush(*a, **k):
            c.effect('flush')
            if outcome is not None:
                cls = I.getattr(db, outcome) if outcome in DATABASE else EXC[outcome]
                args = [(), (text('message'),), (SInt(z3.Int('number')), text('message'))][c.choose(3, 'arguments of the error')]
                e = make_exc(cls, *args)
                raised.append(e)
                raise PyExc(e)
        I.contracts['denorm.denorms:flush'] = flush
        request = Obj(w.C['Plain'], {'method': text('method'), 'path': text('path'), 'META': Unknown('META'), 'user': Unknown('user')}, label='request')
        response = Obj(w.C['Plain'], {'status_code': SInt(z3.Int('status')), 'streaming': SBool(z3.Bool('streaming')),
                                      'content': text('content'), 'closed': SBool(z3.Bool('closed'))}, label='response')
        error = got = None

        def view(r):
            c.effect('view', r)
            return response
        try:
            M = I.getattr(I.load('denorm.middleware'), 'DenormMiddleware')
            m = I.call(M, (nat(view),))
            got = I.call(m, (request,))
        except PyExc as e:
            if e.level == 0:
                raise
            error = e
        kinds = [e[0] for e in c.effects if e[0] in ('flush', 'view')]
        d = 'flush %s: %s' % ('succeeds' if outcome is None else 'raises ' + outcome, kinds)
        c.prove(p + 'the view is called once with the request', z3.BoolVal(kinds.count('view') == 1 and
                all(e[1] is request for e in c.effects if e[0] == 'view')), d)
        c.prove(p + 'every response is followed by exactly one flush', z3.BoolVal(kinds == ['view', 'flush']), d)
        if outcome is None or outcome in DATABASE:
            c.prove(p + 'the response is handed on %s' % ('' if outcome is None else 'when the flush fails with a database error'),
                    z3.BoolVal(error is None), d + ('' if error is None else ' then ' + python_error(error)))
            if error is None:
                c.prove(p + 'the response handed on is the very one of the view', z3.BoolVal(got is response), '%s: %r' % (d, got))
        else:
            c.prove(p + 'other errors are not hidden', z3.BoolVal(error is not None and raised and error.obj is raised[0] or
                    (error is not None and error.obj.cls.issub(EXC[outcome]))), d)
        c.cover('middleware: %s' % outcome)
    return harness


# -- daemon ---------------------------------------------------------------------------

class Cycle(object):
    """What the daemon has done so far: flushed, committed, waited."""
    while_cut = True

    def __init__(self, c, prefix, heads, interval, once, sqlite):
        self.sqlite = sqlite
        self.c, self.prefix, self.heads, self.interval, self.once = c, prefix, heads, interval, once
        self.while_limit = c.mode + 1 if isinstance(c.mode, int) else 1
        self.first, self.pending, self.complete = True, False, False
        self.waited = 0                      # multiples of the interval, or None: something else
        self.autocommit = True
        self.interrupted = False
        self.flushes = 0
        self.bad = False

    def containers(self):
        return []

    def state(self):
        return (self.first, self.pending, self.complete, self.waited, self.autocommit, self.interrupted)

    def loop_entry(self, name):
        pass

    def havoc(self):
        # the first cycle, or a later one that starts as a cycle explored before left things
        if self.c.choose(2, 'a later cycle') == 0:
            return
        known = sorted(self.heads)
        if not known:
            raise PathEnd()
        (self.first, self.pending, self.complete, self.waited, self.autocommit, self.interrupted) = known[self.c.choose(len(known), 'state')]
        self.flushes = 1
        self.later = True

    def loop_end(self, name):
        if getattr(self, 'later', False) and self.state() not in self.heads:
            raise Unsupported('cycles that differ from one another')
        self.heads.add(self.state())

    # -- operations; each may be interrupted once
    def interrupt(self, where):
        if not self.interrupted and self.c.choose(2, 'interrupted while %s' % where):
            self.interrupted = True
            throw('KeyboardInterrupt')

    def check(self, what, cond, detail=''):
        self.c.prove(self.prefix + what, z3.BoolVal(bool(cond)), detail)

    def flush(self):
        self.check('the database can save: SQLite cannot while autocommit is off', self.autocommit or not self.sqlite)
        self.check('an interrupted daemon does not go on', not self.interrupted)
        self.check('what a cycle flushed is committed before the next', not self.pending)
        if not self.first:
            self.check('the requested interval passes between two cycles', self.waited == 1, 'waited %s' % (self.waited,))
        self.first = False
        self.waited = 0
        self.flushes += 1
        self.pending = not self.autocommit
        self.complete = False
        self.interrupt('flushing')
        self.complete = True

    def sleep(self, t):
        self.check('an interrupted daemon does not go on', not self.interrupted)
        same = self.c.valid(zint(t) == self.interval) if not isinstance(t, float) else False
        self.waited = self.waited + 1 if same and self.waited is not None else None
        self.interrupt('waiting')

    def commit(self):
        self.interrupt('committing')
        self.pending = False

    def rollback(self):
        self.check('no finished work is rolled back', not (self.pending and self.complete))
        self.pending = False

    def end(self, how):
        self.check('it stops with its work committed', not self.pending, how)
        self.check('it stops only when interrupted or told to run once', self.interrupted or self.once, how)
        if not self.interrupted:
            self.check('told to run once it flushes once', self.flushes == 1, '%d flushes' % self.flushes)


class Process(World):
    """The operating system as the daemon sees it."""

    def process(self, pidfile, state):
        c = ctx()
        self.pidfile, self.state = pidfile, state
        I = self.interp
        self.pid = SInt(z3.Int('int_pid'))
        I.builtins['open'] = nat(self.open)
        I.builtins['print'] = nat(lambda *a, **k: None)
        I.load('os').vars.update(
            kill=nat(self.kill), getpid=nat(lambda: SInt(z3.Int('own_pid'))), name='posix', devnull='/dev/null',
            errno=I.load('errno'), error=EXC['OSError'], linesep='\n')
        I.load('os').vars['path'] = Obj(self.C['Plain'], {'exists': nat(self.exists), 'isfile': nat(self.exists)}, label='os.path')
        I.load('sys').vars.update(exit=nat(self.exit), stderr=self.sink, stdout=self.sink)

    def is_pidfile(self, name):
        if not (name is self.pidfile or ctx().valid(zbool(str_eq(name, self.pidfile)))):
            raise Unsupported('another file')

    def exists(self, name):
        self.is_pidfile(name)
        return self.state != 'absent'

    def oserror(self, cls, number):
        e = make_exc(cls, number, text('strerror'))
        e.attrs.update(errno=number, strerror=text('strerror'))
        e.absent.discard('errno')
        raise PyExc(e)

    def open(self, name, mode='r', *a, **k):
        self.is_pidfile(name)
        if mode not in ('r', 'rt'):
            if mode in ('w', 'wt'):
                return self.file_for_writing(name)
            raise Unsupported('opened with mode %r' % (mode,))
        if self.state == 'absent':
            self.oserror('FileNotFoundError', 2)
        segs = (Atom('pid', 'digits'),)
        content = SStr(segs) if not ctx().choose(2, 'a line') else mkstr(list(segs) + ['\n'])
        f = Obj(self.C['Plain'], {'read': nat(lambda *a: content), 'readline': nat(lambda *a: content), 'close': nat(lambda: None)}, label='pid file')
        f.cls = self.file_class()
        return f

    def file_class(self):
        return Cls('File', [OBJECT], {'__enter__': nat(lambda s: s), '__exit__': nat(lambda s, *a: None)}, native=True)

    def file_for_writing(self, name):
        def write(t):
            ctx().effect('write', t)
        return Obj(self.file_class(), {'write': nat(write), 'close': nat(lambda: None), 'flush': nat(lambda: None)}, label='pid file')

    def kill(self, pid, sig):
        c = ctx()
        c.prove(c.ghost.prefix + 'it asks for the process named in the pid file and sends it no signal',
                z3.And(zint(pid) == self.pid.z, zint(sig) == 0), repr((pid, sig)))
        if self.state == 'dead':
            self.oserror('ProcessLookupError', 3)
        if self.state == 'foreign':
            self.oserror('PermissionError', 1)

    def exit(self, code=None):
        throw('SystemExit', code)

    def sleep(self, t):
        ctx().ghost.sleep(t)

    def tx(self, what, *a):
        g = ctx().ghost
        if what == 'autocommit':
            g.autocommit = a[0]
            return
        getattr(g, what)()


def handle_unit(backend, state, foreground):
    p = 'daemon/%s/%s%s: ' % (backend, {'alive': 'named process runs', 'foreign': 'named process runs as another user', 'dead': 'named process is gone',
                            'absent': 'no pid file'}[state], '/foreground' if foreground else '')
    heads = {False: set(), True: set()}

    def harness(c):
        once = bool(c.choose(2, 'run once'))
        w = Process(backend)
        I = w.start()
        interval = z3.Int('interval')
        c.add(interval >= 0)
        g = c.ghost = Cycle(c, p, heads[once], interval, once, backend == 'sqlite3')
        pidfile = text('pidfile')
        c.assume(zbool(pidfile.truth()))
        w.process(pidfile, state)
        daemons = []

        def daemonize(noClose=False, pidfile=None):
            c.prove(p + 'it goes to the background before it works', z3.BoolVal(g.flushes == 0))
            daemons.append(pidfile)
        I.contracts['denorm.daemon:daemonize'] = daemonize
        I.contracts['denorm.denorms:flush'] = lambda *a, **k: g.flush()
        M = I.load('denorm.management.commands.denorm_daemon')
        cmd = Obj(I.getattr(M, 'Command'), {}, label='command')
        how = 'it returns'
        try:
            I.call(I.getattr(cmd, 'handle'), (), {'foreground': foreground, 'interval': SInt(interval), 'pidfile': pidfile, 'run_once': once,
                                                  'verbosity': 1})
        except PyExc as e:
            if e.level == 0:
                raise
            how = python_error(e)
            if not (e.obj.cls.issub(EXC['KeyboardInterrupt']) or e.obj.cls.issub(EXC['SystemExit'])):
                c.fail(p + 'it does not fail', how, soft=True)
                return
        if state in ('alive', 'foreign'):
            c.prove(p + 'a second daemon does nothing', z3.BoolVal(g.flushes == 0 and not daemons and g.waited == 0), how)
            c.cover('daemon: refused')
            return
        if g.interrupted:
            c.cover('daemon: interrupted')
        if not g.interrupted:
            g.check('it starts', g.flushes >= 1, how)
        g.end(how)
        if not foreground:
            g.check('it goes to the background with the pid file it was given', len(daemons) == 1 and
                    (daemons[0] is pidfile or c.valid(zbool(str_eq(daemons[0], pidfile)))))
        c.cover('daemon: stopped')
    return harness


def daemonize_unit():
    """Only the last child goes on, and the pid file names it."""
    p = 'daemonize: '
    wrote = {}

    def harness(c):
        w = Process('sqlite3')
        I = w.start()
        c.ghost = None
        pidfile = text('pidfile')
        c.assume(zbool(pidfile.truth()))
        w.process(pidfile, 'absent')
        given = bool(c.choose(2, 'pid file given'))
        forks = []

        def fork():
            if forks and forks[-1] == 'parent':
                c.fail(p + 'a process that has forked ends', 'it forks again')
            n = len(forks)
            if c.choose(2, 'fork %d returns in the child' % n) == 0:
                forks.append('parent')
                v = z3.Int('child_%d' % n)
                c.add(v > 0)
                return SInt(v)
            forks.append('child')
            return 0

        def leave(code=0):
            raise PathExit()

        class PathExit(BaseException):
            pass
        I.load('os').vars.update(fork=nat(fork), _exit=nat(leave), setsid=nat(lambda: None), umask=nat(lambda m: 0), chdir=nat(lambda d: None),
                                 getpid=nat(lambda: SInt(z3.Int('child_%d' % (len(forks) - 1) if forks and forks[-1] == 'child' else 'own_pid'))))
        I.load('sys').vars['exit'] = nat(leave)
        D = I.getattr(I.load('denorm.daemon'), 'daemonize')
        ended = False
        try:
            I.call(D, (), {'noClose': True, 'pidfile': pidfile if given else None})
        except PathExit:
            ended = True
        except PyExc as e:
            if e.level == 0:
                raise
            c.fail(p + 'it does not fail', python_error(e), soft=True)
            return
        if 'parent' in forks:
            c.prove(p + 'a process that has forked ends', z3.BoolVal(ended), str(forks))
        else:
            c.prove(p + 'the last child goes on', z3.BoolVal(not ended), str(forks))
        n = len(forks) - 1
        writes = [e for e in c.effects if e[0] == 'write']
        if given:
            for e in writes:
                c.prove(p + 'the pid file names the process that goes on',
                        zbool(I.eq(I.str(e[1]), I.str(SInt(z3.Int('child_%d' % n))))), repr(e[1]))
            if forks[-1] == 'parent':
                wrote.setdefault(n, False)
                wrote[n] = wrote[n] or bool(writes)
            else:
                c.prove(p + 'the pid file is written', z3.BoolVal(bool(writes) or wrote.get(n, False)))
        c.cover('daemonize: %s %s' % (given, forks))
    return harness
