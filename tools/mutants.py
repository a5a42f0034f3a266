#!/usr/bin/env python3
"""tools/mutants.py gen DIR | tests DIR | checks DIR [N M]

Systematic small changes to the contracts, for finding gaps in the checks: `gen` lists them, `tests` keeps those the
existing tests do not notice, `checks` runs the related checks on those.  Everything happens in scratch copies."""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
FILES = {
    'contracts/irc_token/irc_token.py': 'C01 C02 C07 C03 C37 C38 C39 C05 C06 C12',
    'contracts/flexible_token/flexible_token.py': 'C03 C04 C01 C02 C07 C10 C08 C12 C17 C18 C37 C38 C39 C21',
    'contracts/icx_token/icx_token.py': 'C05 C06 C30 C01 C02 C10 C12 C39 C08 C37 C38 C07',
    'contracts/score_registry/score_registry.py': 'C11 C10 C08 C24 C37 C38 C39',
    'contracts/network/network.py': 'C27 C28 C29 C30 C31 C10 C08 C12 C20 C37 C38 C39',
    'contracts/converter/converter.py': 'C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C29 C09 C10 C35 C27 '
                                        'C31 C37 C38 C39 C12 C08 C30',
    'contracts/utility/flexible_token_controller.py': 'C10 C12 C08 C21 C23 C04 C17 C18 C37 C38 C39',
    'contracts/utility/managed.py': 'C09 C25 C14 C24 C37 C38 C39 C10',
    'contracts/utility/owned.py': 'C08 C10 C37 C38 C39 C09',
    'contracts/utility/token_holder.py': 'C12 C10 C23 C06 C38 C39',
    'contracts/utility/utils.py': 'C03 C07 C08 C05 C12 C13 C15 C20 C28 C29 C32 C39 C10 C11',
    'contracts/utility/registry_client.py': 'C24 C11 C27 C37 C25',
    'contracts/formula/fixed_map_formula.py': 'C32 C33 C36 C34 C35 C17 C18 C19',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*'], ast.Pow: ['*'], ast.LShift: ['>>'],
       ast.RShift: ['<<'], ast.Mod: ['//'], ast.BitAnd: ['|'], ast.BitOr: ['&']}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, col: off[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def put(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, n.lineno, what))
    fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    for f in fns:
        names = [a.arg for a in f.args.args[1:]]
        ann = {a.arg: ast.dump(a.annotation) if a.annotation else None for a in f.args.args}
        doc = f.body[0] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
        for d in f.decorator_list:
            t = seg(src, d)
            if t.startswith('external'):
                if 'readonly' in t:
                    put(d, 'external', 'drop readonly')
                else:
                    put(d, 'external\n    @payable', 'make payable')
            elif t == 'payable':
                pass
        for body in [f.body] + [x.body for x in ast.walk(f) if isinstance(x, (ast.If, ast.For, ast.While))] + \
                [x.orelse for x in ast.walk(f) if isinstance(x, (ast.If, ast.For)) and x.orelse]:
            for s in body:
                if s is doc or isinstance(s, (ast.Pass, ast.If, ast.For, ast.While, ast.FunctionDef)):
                    if isinstance(s, ast.If):
                        put(s.test, 'True', 'if True')
                        put(s.test, 'False', 'if False')
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                        isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)):
                    put(s, 'pass', 'drop statement')
            for s, t in zip(body, body[1:]):
                if s is doc or isinstance(s, ast.FunctionDef) or isinstance(t, (ast.Return, ast.FunctionDef)):
                    continue
                a, b = span(s)
                c, d = span(t)
                out.append((a, d, src[c:d] + src[b:c] + src[a:b], s.lineno, 'swap statements'))
        for n in ast.walk(f):
            if n is doc:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    put(n, '%s %s %s' % (seg(src, n.left), o, seg(src, n.comparators[0])), 'compare')
            elif isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                put(n, o.join(seg(src, v) for v in n.values), 'and/or')
                for i in range(len(n.values)):
                    keep = [seg(src, v) for j, v in enumerate(n.values) if j != i]
                    put(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join(keep), 'drop operand')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                put(n, seg(src, n.operand), 'drop not')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                l, r = seg(src, n.left), seg(src, n.right)
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                for o in BIN[type(n.op)]:
                    put(n, '(%s %s %s)' % (l, o, r), 'arith')
                put(n, l, 'left only')
                put(n, r, 'right only')
            elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 10 ** 7:
                put(n, str(n.value + 1), 'const+1')
                if n.value > 0:
                    put(n, str(n.value - 1), 'const-1')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                put(n, str(not n.value), 'flip bool')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                for m in names:
                    if m != n.id and ann[m] == ann[n.id]:
                        put(n, m, 'other parameter')
                if 'Address' in (ann[n.id] or ''):
                    put(n, 'self.msg.sender', 'sender instead')
            elif isinstance(n, ast.Attribute) and seg(src, n) == 'self.msg.sender':
                put(n, 'self.tx.origin', 'origin')
                for m in names:
                    if 'Address' in (ann[m] or ''):
                        put(n, m, 'parameter instead of sender')
            elif isinstance(n, ast.Attribute) and seg(src, n) == 'self.address':
                put(n, 'self.msg.sender', 'sender instead of self')
            elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                if getattr(n.func, 'id', '') in ('require', 'isinstance', 'revert'):
                    continue
                for i in range(len(n.args) - 1):
                    a, b = span(n.args[i])
                    c, d = span(n.args[i + 1])
                    out.append((a, d, src[c:d] + src[b:c] + src[a:b], n.lineno, 'swap arguments'))
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                pass
    seen, res = set(), []
    for a, b, new, ln, what in out:
        t = src[:a] + new + src[b:]
        if t in seen or t == src:
            continue
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            continue
        seen.add(t)
        res.append(dict(file=path, a=a, b=b, new=new, old=src[a:b], line=ln, what=what))
    return res


def gen(d):
    ms = []
    for f in FILES:
        if os.path.exists(os.path.join(REPO, f)):
            ms += mutants(f)
    for i, m in enumerate(ms):
        m['id'] = i
    json.dump(ms, open(os.path.join(d, 'mutants.json'), 'w'), indent=0)
    print(len(ms), 'mutants')


def copy(m, base):
    t = tempfile.mkdtemp(prefix='mutant.', dir=base)
    r = os.path.join(t, 'repo')
    subprocess.run(['cp', '-a', REPO, r], check=True)
    p = os.path.join(r, m['file'])
    s = open(p).read()
    assert s[m['a']:m['b']] == m['old']
    open(p, 'w').write(s[:m['a']] + m['new'] + s[m['b']:])
    return t, r


TESTS = sorted(f for f in glob.glob(REPO + '/tests/**/test_*.py', recursive=True) if 'integration_tests' not in f)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'tests'):
        if k in b:
            return set(b[k])
    return set(b)


def fails_tests(m):
    t, r = copy(m, '/tmp')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        name = os.path.basename(m['file'])[:-3]
        order = sorted(TESTS, key=lambda f: name not in f)
        for f in order:
            x = os.path.join(t, 'x.xml')
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                                    '--rootdir=' + r, '--timeout=60', '--junitxml=' + x, f.replace(REPO, r)], cwd=r,
                                   env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                                   timeout=150)
            except subprocess.TimeoutExpired:
                return True
            if (p.returncode, passed(p)) != BASE[f]:
                return True
        return False
    finally:
        shutil.rmtree(t)


BASE = {}


def passed(p):
    m = re.search(r'(\d+) passed', p.stdout)
    return int(m.group(1)) if m else 0


def tests(d):
    for f in TESTS:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                            '--rootdir=' + REPO, f], cwd=REPO, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        BASE[f] = (p.returncode, passed(p))
    print('baseline', {os.path.basename(k): v for k, v in BASE.items()}, flush=True)
    ms = json.load(open(os.path.join(d, 'mutants.json')))
    out = os.path.join(d, 'survivors.jsonl')
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    with ThreadPoolExecutor(8) as ex, open(out, 'a') as o:
        for m, bad in zip([m for m in ms if m['id'] not in done],
                          ex.map(fails_tests, [m for m in ms if m['id'] not in done])):
            o.write(json.dumps(dict(m, killed=bad)) + '\n')
            o.flush()


FIRST = [('onnector', 'C13 C19 C26'), ('ee', 'C14 C15'), ('egistry', 'C24'), ('withdraw', 'C23 C12'),
         ('tokenFallback', 'C25 C21 C29'), ('buy', 'C17 C26'), ('sell', 'C18 C26'), ('convert', 'C19 C21 C20'),
         ('urchase', 'C16 C17'), ('ale', 'C16 C18'), ('eturn', 'C16 C31'), ('sable', 'C21 C24 C13'), ('on_install', 'C13'),
         ('anage', 'C09'), ('Path', 'C31 C28'), ('path', 'C28 C27'), ('Icx', 'C30'), ('issue', 'C03'), ('destroy', 'C03'),
         ('find_position', 'C36'), ('floor_log', 'C36'), ('log', 'C34'), ('exp', 'C34')]


def order(m):
    t = ast.parse(open(os.path.join(REPO, m['file'])).read())
    fn = [n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.lineno - 3 <= m['line'] <= n.end_lineno]
    first = []
    for k, ps in FIRST:
        if fn and k in fn[-1]:
            first += ps.split()
    if m['what'] == 'make payable':
        first = ['C39']
    if m['what'] == 'drop readonly':
        first = ['C38']
    rest = FILES[m['file']].split()
    return list(dict.fromkeys([p for p in first if p in rest] + rest))


def dull(m):
    src = open(os.path.join(REPO, m['file'])).read().split('\n')
    line = src[m['line'] - 1]
    return m['what'] == 'drop readonly' or 'readonly' in line or 'Logger' in line or '@eventlog' in line or \
        'super()' in line or m['old'].startswith('IconScoreBase.')


def checks(d, part=0, parts=1, most=4):
    ms = [json.loads(l) for l in open(os.path.join(d, 'survivors.jsonl'))]
    ms = [m for m in ms if not m['killed'] and m['id'] % parts == part and not dull(m)]
    ms.sort(key=lambda m: m['what'] == 'swap statements')
    out = os.path.join(d, 'checked.%d.jsonl' % part)
    done = {c['id'] for o in glob.glob(os.path.join(d, 'checked*.jsonl')) for l in open(o)
            for c in [json.loads(l)] if c['caught'] or c['most'] >= most}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for m in ms:
        if m['id'] in done:
            continue
        t, r = copy(m, '/tmp')
        res = None
        log = []
        for p in order(m)[:most]:
            e = dict(os.environ, VERIF_REPO=r)
            try:
                q = subprocess.run(['python3-vt', os.path.join(here, 'run.py'), 'check', p], env=e, capture_output=True,
                                   text=True, timeout=600)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            log.append((p, rc))
            if rc == 1:
                res = p
                break
            if rc != 0:
                log.append(q.stdout[-600:] if rc != 'timeout' else '')
        shutil.rmtree(t)
        with open(out, 'a') as o:
            o.write(json.dumps(dict(m, caught=res, log=log, most=most)) + '\n')
        print(m['id'], m['file'].split('/')[-1], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]),
              '=>', res, [x for x in log if not isinstance(x, str) and x[1] not in (0, 1)], flush=True)


if __name__ == '__main__':
    {'gen': gen, 'tests': tests, 'checks': lambda d, *a: checks(d, *map(int, a))}[sys.argv[1]](*sys.argv[2:])
