#!/usr/bin/env python3
"""mutate.py list                      number of mutants per file
mutate.py run OUT [contracts.json start step]    every check that has the mutated function under contract, until one alarms

Small changes of single expressions and statements of the package, each in a scratch copy.  One JSON line per mutant;
'quiet' means that no check noticed it: to be looked at by hand (many of them change nothing that matters).
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

from rounds import check, copy, tests, VERIF, IDS

ROOT = '/repo/denorm'
FILES = ['denorms.py', 'dependencies.py', 'fields.py', 'helpers.py', 'middleware.py', 'models.py', 'db/base.py', 'db/mysql/triggers.py',
         'db/postgresql/triggers.py', 'db/sqlite3/triggers.py', 'management/commands/denorm_daemon.py', 'management/commands/denorm_flush.py',
         'management/commands/denorm_init.py', 'management/commands/denorm_drop.py', 'management/commands/denorm_rebuild.py']
OPS = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}
SWAP = [('NEW', 'OLD'), ('OLD', 'NEW'), ('insert', 'update'), ('update', 'insert'), ('delete', 'update'), (' OR ', ' AND '), (' AND ', ' OR '),
        ('IS NOT', 'IS'), ('after', 'before'), (' + ', ' - '), (' - ', ' + '), ('_%', '%'), ('DISTINCT ', '')]


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], ['<module>']
        self.lines = src.split('\n')

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, node, new, what):
        old = self.seg(node)
        if old is not None and new is not None and old != new:
            self.out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what, '.'.join(self.fn[1:])))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)
        for d in n.decorator_list:
            self.add(d, 'lambda f: f', 'no decorator')
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_Try(self, n):
        names = [self.seg(h.type) if h.type else '' for h in n.handlers]
        for s in n.body:
            self.visit(s)
        if not any('ImportError' in x or 'AttributeError' in x or x == '' for x in names):
            for h in n.handlers:
                for s in h.body:
                    self.visit(s)
            self.add(n, ast.unparse(n.body).replace('\n', '\n' + ' ' * n.col_offset), 'no try')
        for s in n.orelse + n.finalbody:
            self.visit(s)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in OPS:
            self.add(n, '(%s %s %s)' % (self.seg(n.left), OPS[type(n.ops[0])], self.seg(n.comparators[0])), 'comparison')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i, v in enumerate(n.values):
            rest = [self.seg(x) for j, x in enumerate(n.values) if j != i]
            self.add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'operand %d dropped' % i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, '(%s)' % self.seg(n.operand), 'not dropped')
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, 'True', 'condition true')
        self.add(n.test, 'False', 'condition false')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), 'always then')
        self.add(n, self.seg(n.orelse), 'always else')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.add(n.value, 'None', 'returns nothing')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, 'pass', 'statement dropped')
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and len(self.fn) > 1:
            self.add(n, 'pass', 'assignment dropped')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'statement dropped')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'pass', 'continue dropped')

    def visit_Raise(self, n):
        self.add(n, 'pass', 'error dropped')

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            if k.arg:
                args = [self.seg(a) for a in n.args] + [('%s=' % x.arg if x.arg else '**') + self.seg(x.value) for j, x in enumerate(n.keywords) if j != i]
                self.add(n, '%s(%s)' % (self.seg(n.func), ', '.join(args)), 'argument %s dropped' % k.arg)
        if len(n.args) > 1:
            args = [self.seg(a) for a in n.args[:-1]] + [('%s=' % x.arg if x.arg else '**') + self.seg(x.value) for x in n.keywords]
            self.add(n, '%s(%s)' % (self.seg(n.func), ', '.join(args)), 'last argument dropped')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('m2m_column_name', 'm2m_reverse_name'):
            self.add(n.func, self.seg(n.func.value) + '.' + ('m2m_reverse_name' if n.func.attr == 'm2m_column_name' else 'm2m_column_name'), 'other column')
        self.generic_visit(n)

    def visit_List(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                self.add(n, '[' + ', '.join(self.seg(x) for j, x in enumerate(n.elts) if j != i) + ']', 'element %d dropped' % i)
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                self.add(n, '(' + ', '.join(self.seg(x) for j, x in enumerate(n.elts) if j != i) + ',)', 'element %d dropped' % i)
        self.generic_visit(n)

    def visit_ListComp(self, n):
        for g in n.generators:
            for c in g.ifs:
                self.add(c, 'True', 'filter dropped')
        self.generic_visit(n)
    visit_GeneratorExp = visit_ListComp

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add):
            self.add(n, self.seg(n.left), 'right operand dropped')
            self.add(n, self.seg(n.right), 'left operand dropped')
        if isinstance(n.op, ast.Sub):
            self.add(n, '%s + %s' % (self.seg(n.left), self.seg(n.right)), 'plus')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and isinstance(n.ctx, ast.Load):
            self.add(n, '%s[%d]' % (self.seg(n.value), 1 - n.slice.value if n.slice.value in (0, 1) else 0), 'other index')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, repr(not v), 'other truth value')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'one more')
        elif isinstance(v, str):
            s = self.seg(n)
            for a, b in SWAP:
                if s and a in s:
                    self.add(n, s.replace(a, b, 1), '%s to %s' % (a, b))


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(ROOT, f)).read()
        v = Find(src)
        v.visit(ast.parse(src))
        lines = src.split('\n')
        seen = set()
        for l0, c0, l1, c1, new, what, fn in v.out:
            if new in seen and False:
                continue
            pre = '\n'.join(lines[:l0 - 1] + [lines[l0 - 1].encode()[:c0].decode()])
            post = '\n'.join([lines[l1 - 1].encode()[c1:].decode()] + lines[l1:])
            text = pre + new + post
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            if text in seen:
                continue
            seen.add(text)
            out.append({'file': f, 'line': l0, 'fn': fn, 'what': what, 'old': lines[l0 - 1].strip()[:100], 'new': new[:100], 'text': text})
    return out


def props_of(f, fn, known):
    """Properties with that function under contract, from the evidence of the last run; cheap ones first."""
    mod = 'denorm.' + f[:-3].replace('/', '.')
    last = '.'.join(fn.split('.')[-2:])
    out = [(w, p) for p, (w, names) in known.items()
           if any(x.split(':')[0] == mod and x.split(':')[1].endswith((last, '.' + fn.split('.')[-1])) for x in names)]
    return [p for w, p in sorted(out)] or [p for w, p in sorted((w, p) for p, (w, names) in known.items())]


def contracts():
    out = {}
    for p in IDS:
        e = json.load(open(os.path.join(VERIF, 'evidence', p + '.json')))
        out[p] = [e['wall_s'], e['coverage']['functions_under_contract']]
    return out


def lost(w, dbs):
    """Does a stable test of these databases fail?"""
    os.environ['VP_DBS'] = dbs
    return [t for t in tests(w) if t.split(':')[0] in dbs.split()]


def main():
    ms = mutants()
    known = json.load(open(sys.argv[3])) if len(sys.argv) > 3 else contracts()
    if sys.argv[1] == 'list':
        for f in FILES:
            print(f, sum(1 for m in ms if m['file'] == f))
        return
    order = list(range(len(ms)))
    random.Random(1).shuffle(order)
    start, step = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (0, 1)
    out = open(sys.argv[2], 'a')
    w = copy()
    try:
        for i in order[start::step]:
            m = ms[i]
            path = os.path.join(w, 'r', 'denorm', m['file'])
            keep = open(path).read()
            open(path, 'w').write(m['text'])
            res, verdict = [], 'quiet'
            if lost(w, 'sqlite'):
                verdict = 'tests'
            else:
                for p in props_of(m['file'], m['fn'], known):
                    what, notes, v, s = check(w + '/r', p)
                    res.append('%s %s' % (p, what))
                    if what != 'quiet':
                        verdict = what
                    if what == 'caught':
                        break
                if verdict == 'quiet' and lost(w, 'sqlite mysql postgres'):
                    verdict = 'tests'
            open(path, 'w').write(keep)
            m.pop('text')
            out.write(json.dumps(dict(m, i=i, verdict=verdict, res=res)) + '\n')
            out.flush()
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    main()
