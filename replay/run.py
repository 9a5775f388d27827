"""Runs the scenarios of a property on the real code: run.py <sqlite|postgres|mysql> <property> [scenario]

Prints one JSON line per scenario, {"scenario", "ok", "checks", "detail"}, and {"done": true} at the end.
"""
import json
import os
import random
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VREPLAY_REPO', '/repo'), HERE]

from servers import Server, die_with_parent                                  # noqa


def out(d):
    sys.stdout.write(json.dumps(d, default=str) + '\n')
    sys.stdout.flush()


SECONDS = 100


class TooLong(BaseException):
    pass


def alarm(*a):
    raise TooLong()


def of_ours(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    return (tb.tb_frame.f_code.co_filename.startswith(here) and
            (isinstance(e, ImportError) or isinstance(e, AttributeError) and
             ("module 'denorm" in str(e) or type(getattr(e, 'obj', None)).__module__.split('.')[0] == 'denorm')))


def main():
    signal.signal(signal.SIGALRM, alarm)
    die_with_parent()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    db, prop = sys.argv[1:3]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    server = Server(db)
    bad = 0
    try:
        server.start()
        os.environ['VREPLAY_DB'] = db
        os.environ['VREPLAY_HOST'] = server.host
        os.environ['DJANGO_SETTINGS_MODULE'] = 'vsettings'
        try:
            import django
            django.setup()
            import scenarios
        except Exception:
            out({'scenario': 'the package can be imported and its fields declared', 'ok': False, 'detail': traceback.format_exc()[-1500:]})
            out({'done': True})
            return 1
        for name, fn in scenarios.of(prop, db):
            if only is not None and name != only:
                continue
            random.seed(int(os.environ.get('VERIF_SEED') or 0))
            signal.setitimer(signal.ITIMER_REAL, SECONDS)
            late = False
            try:
                results = list(fn() or ())
            except TooLong:
                results = [(name, False, 1, 'does not end within %d seconds' % SECONDS)]
                late = True
            except scenarios.Fail as e:
                results = [(name, False, 1, str(e))]
            except Exception as e:
                results = [(name, False, 1, traceback.format_exc()[-1500:])]
                if of_ours(e):
                    # an inner name the scenario uses is not there (any more)
                    results = [(name, True, 0, 'not carried out: %s' % e)]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            for n, ok, checks, detail in results or [(name, True, 1, None)]:
                bad += not ok
                out({'scenario': n, 'ok': bool(ok), 'checks': checks, 'detail': detail})
            if late:
                break
        out({'done': True})
        return 1 if bad else 0
    finally:
        try:
            from django.db import connections
            for c in connections.all():
                c.close()
        except Exception:
            pass
        server.stop()


if __name__ == '__main__':
    sys.exit(main())
