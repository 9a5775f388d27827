"""Scenarios on the real code, with an oracle of their own (nothing here asks the package what it would do)."""
import importlib

REG = []


class Fail(Exception):
    pass


def scenario(name, *props, **kw):
    def deco(fn):
        REG.append((name, props, kw.get('dbs', ('sqlite', 'postgres', 'mysql')), fn))
        return fn
    return deco


def of(prop, db):
    for m in ('rowaudit', 'flushing', 'fieldaudit', 'misc', 'resolving', 'services'):
        importlib.import_module(m)
    return [(n, fn) for n, props, dbs, fn in REG if prop in props and db in dbs]


def expect(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)
