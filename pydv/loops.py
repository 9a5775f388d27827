"""Loop rules.

summarize    for-loops over a run of unknown length: the body is executed once for a
             generic element, from an arbitrary state of everything the body changes;
             accumulators become runs themselves.
while_rule   while-loops over a database: invariant (kept by the ghost state), havoc.
"""
import ast
import z3

from . import core
from .core import (Unsupported, LoopCarried, Gen, Prior, Poison, SBool, SInt, SStr, PriorSeg, JoinSeg, Base,
                   ctx, mkstr, segs_of, Recorder, PathEnd, Infeasible)
from . import interp as I_


def primitive(gen):
    return len(gen.alts) == 1 and all(z3.eq(z, gen.base.has) for z in gen.alts[0][0]) and len(gen.alts[0][1]) == 1 and \
        gen.alts[0][1][0] is gen.base.element(0)


def enter_base(gen):
    b = gen.base
    if getattr(b, 'picked', False):
        raise Unsupported('second loop over %s after one of its elements was singled out' % b.name)
    if b.active:
        if not primitive(gen):
            raise Unsupported('nested loops over the run %s' % b.name)
        return Gen(b, [([b.has], [b.element(b.active)])], gen.distinct)
    return gen


def assume_all(conds):
    c = ctx()
    for z in conds:
        c.add(z)
    if conds and c.check()[0] == z3.unsat:
        raise Infeasible()


def split_exits(interp, gen, runs, redo):
    """runs: [(conds, kind, value)]; deals with exceptional ends of the generic iteration."""
    c = ctx()
    exits = [(cs, k) for cs, k, v in runs if k != 'normal']
    if exits:
        b = c.bool('some_%s_exits' % gen.base.name)
        if c.branch(b):
            i = c.choose(len(exits), 'exit')
            assume_all(exits[i][0])
            gen.base.picked = True
            redo(exits[i][1])
            raise Infeasible()
        if not c.branch(core.gen_nonempty(gen)):
            return []
        for cs, k in exits:
            c.add(z3.Not(z3.And(cs)) if cs else z3.BoolVal(False))
        if c.check()[0] == z3.unsat:
            raise Infeasible()
    return [(cs, v) for cs, k, v in runs if k == 'normal']


def map_gen(interp, gen, fn):
    """[fn(x) for x in run], flattened; fn returns a list."""
    c = ctx()
    gen = enter_base(gen)
    runs = []
    gen.base.active += 1
    try:
        for conds, items in gen.alts:
            if not items:
                continue

            def thunk():
                assume_all(conds)
                rec = Recorder()
                c.recorders.append(rec)
                try:
                    out = []
                    for x in items:
                        if isinstance(x, Gen):
                            out.extend(map_gen(interp, x, fn))
                        else:
                            out.extend(fn(x))
                    if any(x is c.effects for x in rec.containers):
                        raise Unsupported('effects inside a comprehension over an unbounded run')
                    return ('normal', out)
                except I_.PyExc as e:
                    return ('raise', e)
                finally:
                    c.recorders.remove(rec)
            for cs, (k, v) in c.explore_sub(thunk):
                runs.append((cs, k, v))
    finally:
        gen.base.active -= 1

    def redo(kind):
        for conds, items in gen.alts:
            for x in items:
                fn(x)
    runs = split_exits(interp, gen, runs, redo)
    alts = [(cs, v) for cs, v in runs if v]
    if not alts:
        return []
    return [Gen(gen.base, alts, gen.distinct)]


def quantify_gen(interp, gen, universal):
    c = ctx()
    b = z3.Bool(c.fresh(('all_' if universal else 'any_') + gen.base.name))
    for conds, items in gen.alts:
        for x in items:
            if isinstance(x, Gen):
                raise Unsupported('quantification over nested runs')
            t = core.zbool(interp.truth(x))
            cs = list(conds)
            if universal:
                c.axiom(z3.Implies(z3.And([b] + cs), t))
            else:
                c.axiom(z3.Implies(z3.And([t] + cs), b))
    c.memo.setdefault('quantified', []).append((b, gen, universal))
    if universal:
        # not b: some element is false -- left open (over-approximation)
        pass
    return b


def pick(interp, gen):
    """An element of a non-empty run (which one is left open)."""
    c = ctx()
    if gen.base.active or getattr(gen.base, 'picked', False):
        raise Unsupported('singling out an element of %s' % gen.base.name)
    alts = [(cs, items) for cs, items in gen.alts if items]
    i = c.choose(len(alts), 'pick')
    assume_all(alts[i][0])
    gen.base.picked = True
    x = alts[i][1][0]
    if isinstance(x, Gen):
        raise Unsupported('element of a nested run')
    return x


# -- reachable containers ------------------------------------------------------

def reachable(roots):
    out = {}
    stack = list(roots)
    seen = set()
    while stack:
        v = stack.pop()
        if isinstance(v, (str, int, float, bool, type(None), SBool, SInt, SStr)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, I_.Env):
            if v.kind != 'module':
                out[id(v.vars)] = (v.vars, 'env')
                stack.extend(v.vars.values())
            if hasattr(v, 'yields'):
                stack.append(v.yields)
            if v.parent is not None:
                stack.append(v.parent)
        elif isinstance(v, list):
            out[id(v)] = (v, 'list')
            stack.extend(v)
        elif isinstance(v, tuple):
            stack.extend(v)
        elif isinstance(v, dict):
            out[id(v)] = (v, 'dict')
            stack.extend(v.keys())
            stack.extend(v.values())
        elif isinstance(v, (set, frozenset)):
            out[id(v)] = (v, 'set')
            stack.extend(v)
        elif isinstance(v, I_.Obj):
            out[id(v.attrs)] = (v.attrs, 'attrs')
            stack.extend(v.attrs.values())
            if v.payload is not None:
                stack.append(v.payload)
        elif isinstance(v, I_.Bound):
            stack.append(v.self_)
            stack.append(v.func)
        elif isinstance(v, I_.Func):
            out[id(v.attrs)] = (v.attrs, 'attrs')
            stack.extend(v.attrs.values())
            stack.append(v.env)
        elif isinstance(v, Gen):
            for cs, items in v.alts:
                stack.extend(items)
        elif isinstance(v, I_.Cond):
            stack.append(v.value)
        elif isinstance(v, I_.DictView):
            stack.append(v.d)
    return out


def open_value(name, v):
    c = ctx()
    if isinstance(v, list):
        return list(v) + [Prior(name)]
    if isinstance(v, bool) or isinstance(v, SBool):
        return c.bool('prior_' + name)
    if isinstance(v, (int, SInt)):
        return c.int('prior_' + name)
    if isinstance(v, (str, SStr)):
        return SStr(tuple(segs_of(v)) + (PriorSeg(),))
    return Poison('value of %s left by an earlier iteration' % name)


class DictPrior(Prior):
    """Entries that earlier iterations made in a dictionary."""
    def __init__(self, what, like=None):
        Prior.__init__(self, what)
        self.like = like            # 'list', 'set' or None
        self.entries = []

    def entry(self, key):
        if self.like is None:
            return None
        v = [Prior('entry')] if self.like == 'list' else set([Prior('entry')])
        self.entries.append((key, v))
        return v


def summarize(interp, gen, target, body, env, others=False):
    c = ctx()
    c.loop_rules += 1
    orig = gen
    gen = enter_base(gen)
    base = gen.base
    roots = [env, c.effects] + list(getattr(c, 'roots', []))
    reach = reachable(roots)
    known = {}                  # id -> (container, kind, names)
    like = {}                   # dict id -> kind of its values
    results = None
    # attributes of the element itself: no other iteration changes them
    own = set(id(x.attrs) for conds, items in gen.alts for x in items if isinstance(x, I_.Obj))
    base.active += 1
    try:
        for rnd in range(8):
            results, touched = run_generic(interp, gen, target, body, env, known, reach, like, own)
            changed = False
            for cid in touched:
                if cid not in reach:
                    continue
                cont, kind = reach[cid]
                if cid not in known:
                    known[cid] = (cont, kind, set())
                    changed = True
                if kind in ('env', 'attrs'):
                    for cs, k, v, contents, seen in results:
                        new = contents.get(cid)
                        if new is None:
                            continue
                        now = cont
                        for n in set(new) | set(now):
                            if n in known[cid][2]:
                                continue
                            if n not in new or n not in now or new[n] is not now[n]:
                                known[cid][2].add(n)
                                changed = True
                elif kind == 'dict' and cid not in like:
                    for cs, k, v, contents, seen in results:
                        for kk, vv in (contents.get(cid) or {}).items():
                            if kk not in cont and not isinstance(kk, Prior):
                                t = 'list' if isinstance(vv, list) else 'set' if isinstance(vv, set) else None
                                if like.get(cid) != t:
                                    like[cid] = t
                                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop body does not stabilise')
    finally:
        base.active -= 1

    def redo(kind):
        # the iteration that leaves the loop, in the real state; what earlier iterations
        # accumulated is an unknown part of the whole
        for cid, (cont, k, names) in known.items():
            c.touch(cont)
            if k == 'list':
                cont.append(Prior('part'))
            elif k == 'set':
                cont.add(Prior('part'))
            elif k == 'dict':
                cont[Prior('part')] = None
            elif cid in own:
                pass
            else:
                for n in names:
                    if n in cont:
                        cont[n] = open_value(str(n), cont[n])
        exec_items(interp, gen.alts, target, body, env)

    runs = split_exits_loop(interp, gen, results, redo)
    if runs == 'break':
        return 'break'
    apply_summary(interp, gen, known, runs, like, env, own)
    return None


def split_exits_loop(interp, gen, results, redo):
    c = ctx()
    exits = [(cs, k) for cs, k, v, contents, seen in results if k != 'normal']
    if exits:
        b = c.bool('some_%s_exits' % gen.base.name)
        if c.branch(b):
            i = c.choose(len(exits), 'exit')
            assume_all(exits[i][0])
            gen.base.picked = True
            try:
                redo(exits[i][1])
            except I_.BreakSig:
                return 'break'
            raise Infeasible()
        if not c.branch(core.gen_nonempty(gen)):
            return []
        for cs, k in exits:
            c.add(z3.Not(z3.And(cs)) if cs else z3.BoolVal(False))
        if c.check()[0] == z3.unsat:
            raise Infeasible()
    return [r for r in results if r[1] == 'normal']


def exec_items(interp, alts, target, body, env):
    for conds, items in alts:
        for x in items:
            interp.assign(target, x, env)
            try:
                interp.ex(body, env)
            except I_.ContinueSig:
                pass


def run_generic(interp, gen, target, body, env, known, reach, like, own=()):
    c = ctx()
    results = []
    touched = {}
    for conds, items in gen.alts:
        if not items:
            continue

        def thunk():
            assume_all(conds)
            nseen = len(c.memo.get('seen', []))
            rec = Recorder()
            for cid, (cont, kind, names) in known.items():
                c.touch(cont)
                if kind == 'list':
                    cont.append(Prior('list'))
                elif kind == 'set':
                    cont.add(Prior('set'))
                elif kind == 'dict':
                    cont[DictPrior('dict', like.get(cid))] = None
                elif cid in own:
                    pass
                else:
                    for n in names:
                        if n in cont:
                            cont[n] = open_value(str(n), cont[n])
            c.recorders.append(rec)
            outcome, val = 'normal', None
            try:
                for x in items:
                    if isinstance(x, Gen):
                        if summarize(interp, x, target, body, env) == 'break':
                            outcome = 'break'
                            break
                        continue
                    interp.assign(target, x, env)
                    try:
                        interp.ex(body, env)
                    except I_.ContinueSig:
                        continue
                    except I_.BreakSig:
                        outcome = 'break'
                        break
            except I_.ReturnSig as r:
                outcome, val = 'return', r.value
            except I_.PyExc as e:
                outcome, val = 'raise', e
            finally:
                c.recorders.remove(rec)
            contents = {}
            for x in rec.containers:
                contents[id(x)] = snapshot(x)
            for cid, (cont, kind, names) in known.items():
                contents[cid] = snapshot(cont)
            return (outcome, val, contents, rec, c.memo.get('seen', [])[nseen:])
        for cs, (k, v, contents, rec, seen) in c.explore_sub(thunk):
            results.append((cs, k, v, contents, seen))
            for x in rec.containers:
                touched[id(x)] = x
                c.memo.setdefault('keepalive', []).append(x)
    return results, touched


def snapshot(x):
    return list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else set(x)


def strip_seen(cs, seen):
    """Separates the already-seen literals from the other conditions."""
    bs = dict((s[0].decl().name(), s) for s in seen)
    rest, lits = [], []
    for z in cs:
        n = z
        sign = True
        while z3.is_not(n):
            n = n.arg(0)
            sign = not sign
        if z3.is_const(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED and n.decl().name() in bs:
            lits.append((sign, bs[n.decl().name()]))
        elif any(b in str(z) for b in bs):
            raise Unsupported('membership of earlier iterations mixed with other conditions')
        else:
            rest.append(z)
    return rest, lits


def apply_summary(interp, gen, known, results, like, env, own=()):
    c = ctx()
    base = gen.base
    distinct = gen.distinct
    norm = []
    for cs, k, v, contents, seen in results:
        rest, lits = strip_seen(cs, seen) if seen else (cs, [])
        if len(lits) > 1:
            raise Unsupported('several membership tests against earlier iterations')
        norm.append((rest, lits, contents))
    dict_seen = any(isinstance(l[0][1][1], DictPrior) for r, l, x in norm if l)
    set_seen = any(not isinstance(l[0][1][1], DictPrior) for r, l, x in norm if l)
    if set_seen and dict_seen:
        raise Unsupported('mixed membership tests')
    additions = {}
    for cid, (cont, kind, names) in known.items():
        adds = []
        for rest, lits, contents in norm:
            new = contents.get(cid)
            adds.append(added(kind, cont, new, names))
        additions[cid] = adds
    if set_seen:
        # first-occurrence rule: nothing happens for a key seen before, otherwise the key is recorded
        keep = []
        for i, (rest, lits, contents) in enumerate(norm):
            if not lits:
                keep.append(i)
                continue
            sign, (b, prior, item) = lits[0]
            if sign:
                for cid, (cont, kind, names) in known.items():
                    a = additions[cid][i]
                    if kind in ('list', 'set', 'dict') and a:
                        raise Unsupported('an element seen before still has an effect')
            else:
                ok = False
                for cid, (cont, kind, names) in known.items():
                    if kind in ('set', 'list'):
                        for x in additions[cid][i]:
                            if interp.eq(x, item) is True:
                                ok = True
                if not ok:
                    raise Unsupported('membership test without recording the element')
                keep.append(i)
                distinct = item if distinct in (False, None) else (distinct, item)
        norm = [norm[i] for i in keep]
        for cid in additions:
            additions[cid] = [additions[cid][i] for i in keep]
    for cid, (cont, kind, names) in known.items():
        adds = additions[cid]
        if kind == 'list':
            alts = [(norm[i][0], adds[i]) for i in range(len(norm)) if adds[i]]
            if dict_seen and alts:
                alts = merge_seen(norm, adds)
            if alts:
                c.touch(cont)
                cont.append(Gen(base, alts, distinct))
        elif kind == 'set':
            alts = [(norm[i][0], adds[i]) for i in range(len(norm)) if adds[i]]
            if dict_seen and alts:
                alts = merge_seen(norm, adds)
            if alts:
                c.touch(cont)
                cont.add(Gen(base, alts, True))
        elif kind == 'dict':
            apply_dict(interp, cont, norm, adds, base, gen)
        else:
            c.touch(cont)
            for n in names:
                old = cont.get(n, I_.ABSENT)
                finals = [a.get(n, I_.ABSENT) for a in adds]
                if cid in own:
                    cont[n] = own_value(interp, n, finals)
                    continue
                cont[n] = combine_name(interp, n, old, finals, norm, base, distinct, cid)


def merge_seen(norm, adds):
    alts = []
    seen = {}
    for i, (rest, lits, contents) in enumerate(norm):
        k = tuple(sorted(str(z) for z in rest))
        sig = tuple(repr(x) for x in adds[i])
        if k in seen:
            if seen[k] != sig:
                raise Unsupported('effects depend on whether a key was seen before')
            continue
        seen[k] = sig
        if adds[i]:
            alts.append((rest, adds[i]))
    return alts


def added(kind, cont, new, names):
    if kind == 'list':
        if new is None:
            return []
        idx = [i for i, x in enumerate(new) if isinstance(x, Prior)]
        if not idx:
            raise Unsupported('list replaced inside the loop')
        pre = new[:idx[-1]]
        if len(pre) != len(cont) or any(a is not b for a, b in zip(pre, cont)):
            raise Unsupported('elements of an earlier iteration changed')
        return new[idx[-1] + 1:]
    if kind == 'set':
        if new is None:
            return []
        if not any(isinstance(x, Prior) for x in new):
            raise Unsupported('set replaced inside the loop')
        return [x for x in new if not isinstance(x, Prior) and not any(x is y for y in cont)]
    if kind == 'dict':
        if new is None:
            return {}
        if not any(isinstance(x, Prior) for x in new):
            raise Unsupported('dictionary replaced inside the loop')
        out = {}
        for k, v in new.items():
            if isinstance(k, Prior):
                continue
            if k in cont:
                if cont[k] is not v:
                    raise Unsupported('dictionary entry replaced inside the loop')
                continue
            out[k] = v
        return out
    return dict((n, new[n]) for n in names if new is not None and n in new)


def apply_dict(interp, cont, norm, adds, base, gen):
    c = ctx()
    groups = {}
    order = []
    for i, (rest, lits, contents) in enumerate(norm):
        a = adds[i]
        if not a:
            continue
        k = tuple(sorted(str(z) for z in rest))
        items = []
        for key, val in a.items():
            if isinstance(val, (list, set)) and any(isinstance(x, Prior) for x in val):
                val = [x for x in val if not isinstance(x, Prior)]
                items.append((key, val, True))
            else:
                items.append((key, val, False))
        if k not in groups:
            groups[k] = (rest, items)
            order.append(k)
        else:
            r0, old = groups[k]
            if len(old) != len(items):
                raise Unsupported('dictionary entries depend on earlier iterations')
            for (k1, v1, p1), (k2, v2, p2) in zip(old, items):
                if interp.eq(k1, k2) is not True:
                    raise Unsupported('dictionary keys depend on earlier iterations')
                l1 = list(v1) if isinstance(v1, (list, set)) else v1
                l2 = list(v2) if isinstance(v2, (list, set)) else v2
                if isinstance(l1, list) and isinstance(l2, list):
                    if len(l1) != len(l2) or any(x is not y and interp.eq(x, y) is not True for x, y in zip(l1, l2)):
                        raise Unsupported('dictionary values depend on earlier iterations')
                elif l1 is not l2:
                    raise Unsupported('dictionary entry overwritten by a later iteration')
    if not order:
        return
    kalts, valts = [], []
    for k in order:
        rest, items = groups[k]
        ks, vs = [], []
        for key, val, p in items:
            ks.append(key)
            if isinstance(val, (list, set)):
                gb = Base('group_' + base.name, lambda name: None)
                gb.instances = [val]
                members = [Gen(gb, [([], list(val))])]
                vs.append(members if isinstance(val, list) else set(members))
            else:
                vs.append(val)
        kalts.append((rest, ks))
        valts.append((rest, vs))
    c.touch(cont)
    cont[Gen(base, kalts, True)] = Gen(base, valts, True)


def own_value(interp, n, finals):
    """Value that every iteration gives an attribute of its own element."""
    v = finals[0] if finals else I_.ABSENT
    plain = isinstance(v, (str, int, bool, type(None), I_.Obj, I_.Cls)) or \
        isinstance(v, SStr) and not any(isinstance(s, PriorSeg) for s in v.segs)
    if not plain or any(f is not v and interp.eq(f, v) is not True for f in finals[1:]):
        return Poison('%s after a loop' % n)
    return v


def combine_name(interp, n, old, finals, norm, base, distinct, cid):
    """Value of a variable or attribute after the loop."""
    c = ctx()
    if isinstance(old, list):
        alts = []
        for i, f in enumerate(finals):
            if f is I_.ABSENT:
                return Poison('%s after a loop' % n)
            if not isinstance(f, list):
                return Poison('%s after a loop' % n)
            idx = [j for j, x in enumerate(f) if isinstance(x, Prior)]
            if not idx or len(f[:idx[-1]]) != len(old):
                return Poison('%s after a loop' % n)
            add = f[idx[-1] + 1:]
            if add:
                alts.append((norm[i][0], add))
        return list(old) + ([Gen(base, alts, distinct)] if alts else [])
    if isinstance(old, (str, SStr)):
        alts = []
        pre = len(segs_of(old))
        for i, f in enumerate(finals):
            if not isinstance(f, SStr) or len(f.segs) <= pre or not isinstance(f.segs[pre], PriorSeg):
                return Poison('%s after a loop' % n)
            add = f.segs[pre + 1:]
            if add:
                alts.append((norm[i][0], [mkstr(add)]))
        if not alts:
            return old
        return mkstr([old, SStr((JoinSeg('', [Gen(base, alts, distinct)]),))])
    if isinstance(old, bool) or isinstance(old, SBool):
        consts = set()
        zs = []
        for i, f in enumerate(finals):
            if f is True or f is False:
                consts.add(f)
                zs.append(z3.And(list(norm[i][0])) if norm[i][0] else z3.BoolVal(True))
            elif isinstance(f, SBool) and z3.is_const(f.z) and f.z.decl().name().startswith('prior_' + str(n)):
                continue
            else:
                return c.bool('after_' + str(n))
        if not consts:
            return old
        if len(consts) == 1:
            v = consts.pop()
            b = c.bool('some_' + base.name)
            for z in zs:
                c.axiom(z3.Implies(z, b.z))
            c.memo.setdefault('somewitness', []).append((b.z, base, zs))
            return SBool(z3.If(b.z, core.zbool(v), core.zbool(old)))
        return c.bool('after_' + str(n))
    if isinstance(old, (int, SInt)):
        return c.int('after_' + str(n))
    return Poison('%s after a loop' % n)


# -- database loops --------------------------------------------------------------

def assigned_names(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def havoc_names(names, env):
    c = ctx()
    for n in names:
        if n in env.vars:
            v = env.vars[n]
            if isinstance(v, (I_.Func, I_.Cls, I_.ModuleObj)):
                continue
            c.touch(env.vars)
            c.ghost.imprecise = True
            if isinstance(v, bool) or isinstance(v, SBool):
                env.vars[n] = c.bool('havoc_' + n)
            elif isinstance(v, (int, SInt)):
                env.vars[n] = c.int('havoc_' + n)
            else:
                env.vars[n] = Poison('%s at the head of a loop' % n)


def frozen_check(rec, reach, env, ghost):
    allowed = set(id(x) for x in ghost.containers())
    allowed.add(id(env.vars))
    allowed.add(id(ctx().effects))
    for x in rec.containers:
        if id(x) in reach and id(x) not in allowed:
            raise Unsupported('the loop changes a container that was there before it')


def while_rule(interp, s, env):
    c = ctx()
    g = c.ghost
    c.loop_rules += 1
    g.loop_entry('while loop entry')
    reach = reachable([env, c.effects])
    g.havoc()
    havoc_names(assigned_names(s.body), env)
    rec = Recorder()
    c.recorders.append(rec)
    try:
        if not interp.test(interp.ev(s.test, env)):
            interp.ex(s.orelse, env)
            return
        try:
            interp.ex(s.body, env)
        except I_.ContinueSig:
            pass
        except I_.BreakSig:
            frozen_check(rec, reach, env, g)
            return
        frozen_check(rec, reach, env, g)
        g.loop_end('while loop')
        raise PathEnd()
    finally:
        if rec in c.recorders:
            c.recorders.remove(rec)


def db_for_rule(interp, target, body, orelse, env, next_item, at_end=None, name='for loop'):
    """for x in <rows of a changing table>: zero or more arbitrary iterations."""
    c = ctx()
    g = c.ghost
    c.loop_rules += 1
    g.loop_entry(name + ' entry')
    reach = reachable([env, c.effects])
    if c.choose(2, 'loop') == 1:
        # after the loop
        g.havoc()
        havoc_names(assigned_names(body), env)
        if at_end is not None:
            at_end()
        interp.ex(orelse, env)
        return
    g.havoc()
    havoc_names(assigned_names(body), env)
    rec = Recorder()
    c.recorders.append(rec)
    try:
        x = next_item()
        interp.assign(target, x, env)
        try:
            interp.ex(body, env)
        except I_.ContinueSig:
            pass
        except I_.BreakSig:
            frozen_check(rec, reach, env, g)
            return
        frozen_check(rec, reach, env, g)
        g.loop_end(name)
        raise PathEnd()
    finally:
        if rec in c.recorders:
            c.recorders.remove(rec)
