"""The packages built from the sources: for every input they do what the sources do (translation validation).

The project's own generator is run on the current tree into a scratch directory; the packages are loaded the way the
platform loads them, and the same symbolic story is told to the source contracts and to the packaged ones."""
import importlib
import inspect
import json
import os
import shutil
import sys
import tempfile
import types

from symdex import boot
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.access import OWNED
from symdex.scen.frames import CLASSES, any_call, rich_world

SOURCES = {'irc_token': IRCToken, 'flexible_token': FlexibleToken, 'icx_token': IcxToken, 'network': Network,
           'score_registry': ScoreRegistry, 'converter': Converter}
NAMES = {v.__name__: k for k, v in SOURCES.items()}


class Escape(BaseException):
    pass


_only = []


def _audit(event, args):
    """While the generator runs, nothing outside the scratch directory may be written or removed."""
    if not _only:
        return
    paths = ()
    if event == 'open':
        mode, flags = args[1], args[2] or 0
        if (isinstance(mode, str) and set(mode) & set('wax+')) or flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            paths = args[:1]
    elif event in ('os.remove', 'os.rmdir', 'os.unlink', 'os.mkdir'):
        paths = args[:1] if args[-1] == -1 else ()       # relative to a directory shutil.rmtree has been allowed
    elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile', 'shutil.copymode'):
        paths = args[1:2] if event != 'os.rename' else args[:2]
    elif event in ('shutil.rmtree', 'os.truncate', 'os.chmod', 'os.chown'):
        paths = args[:1]
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.kill', 'os.putenv'):
        raise Escape(event)
    for p in paths:
        if isinstance(p, int):
            continue
        p = os.path.realpath(os.fsdecode(p))
        if not p.startswith(_only[0] + os.sep):
            raise Escape('%s %s' % (event, p))


_hooked = []


class confined:
    def __init__(self, root):
        self.root = os.path.realpath(root)

    def __enter__(self):
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked.append(True)
        self.cwd = os.getcwd()
        os.chdir(boot.REPO)            # the generator takes NOTICE from the directory it is started in
        _only.append(self.root)

    def __exit__(self, *a):
        _only.pop()
        os.chdir(self.cwd)


def run_generator(how, out):
    """The packages below `out`, with whatever the generator is asked for."""
    from contract_generator.builder import Builder
    from contract_generator.writer import FileWriter, ZipWriter
    src = os.path.join(boot.REPO, 'contracts')
    if how == 'all':
        Builder(src).build(FileWriter(out))
    elif how == 'named':               # the other way round, and more than once over the earlier output
        w = FileWriter(out)
        for names in (['converter', 'irc_token'], ['network'], ['score_registry', 'irc_token', 'flexible_token'],
                      ['icx_token', 'network', 'converter']):
            Builder(src, names).build(w)
    elif how == 'cleaned':
        w = FileWriter(out)
        Builder(src).build(w)
        w.clean()
        Builder(src, []).build(FileWriter(out))
    else:                              # one archive per contract, as for deploying
        for n in SOURCES:
            z = ZipWriter(compression=how)
            Builder(src, [n]).build(z)
            with open(os.path.join(out, n + '.zip'), 'wb') as f:
                f.write(z.to_bytes())
            shutil.unpack_archive(os.path.join(out, n + '.zip'), os.path.join(out, 'x', n))
            os.replace(os.path.join(out, 'x', n, n), os.path.join(out, n))


_loaded = {}


def packages(how):
    """{contract: packaged class}, or the reason there is none."""
    if how in _loaded:
        return _loaded[how]
    scratch = tempfile.mkdtemp(prefix='symdex-packages-')
    out = os.path.join(scratch, 'out')
    os.mkdir(out)
    classes, trouble = {}, None
    try:
        # remains of earlier builds
        for n in SOURCES if not how.startswith('ZIP') else ():
            os.makedirs(os.path.join(out, n, n))
            for f in (n + '/leftover.py', n + '/__init__.py', n + '/%s.py' % n, 'package.json', 'leftover.txt'):
                with open(os.path.join(out, n, f), 'w') as h:
                    h.write('raise SystemError("left over")\n')
        with confined(scratch):
            run_generator(how, out)
        if how == 'all':
            # an earlier build of sources that were then changed, without changing the size of any file
            bad = 'raise SystemError("left over")\n'
            for d, _, fs in os.walk(out):
                for f in fs:
                    at = os.path.join(d, f)
                    size, when = os.path.getsize(at), os.path.getmtime(at)
                    if f.endswith('.py') and size > len(bad):
                        with open(at, 'w') as h:
                            h.write(bad + '#' * (size - len(bad)))
                        os.utime(at, (when - 10 ** 6, when - 10 ** 6))
            with confined(scratch):
                run_generator(how, out)
        for n in SOURCES:
            for d, _, fs in os.walk(os.path.join(out, n)):
                for f in fs:
                    if 'leftover' in f or (f.endswith('.py') and 'left over' in open(os.path.join(d, f)).read()):
                        raise ImportError('%s of an earlier build is still there' % f)
        boot.CODE.append(scratch)
        for n in SOURCES:
            with open(os.path.join(out, n, 'package.json')) as f:
                info = json.load(f)
            top = 'cx_%s_%s' % (how.lower(), n)
            pkg = types.ModuleType(top)
            pkg.__path__ = [os.path.join(out, n)]
            sys.modules[top] = pkg
            mod = importlib.import_module('.' + info.get('main_module', info.get('main_file')), top)
            classes[n] = getattr(mod, info['main_score'])
            # everything in the package can be loaded
            for d, _, fs in sorted(os.walk(os.path.join(out, n))):
                for f in sorted(fs):
                    if f.endswith('.py') and f != '__init__.py':
                        rel = os.path.relpath(os.path.join(d, f), os.path.join(out, n))[:-3]
                        importlib.import_module('.' + rel.replace(os.sep, '.'), top)
    except (Exception, Escape) as e:
        trouble = '%s: %s' % (type(e).__name__, str(e).replace(scratch, ''))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    _loaded[how] = classes, trouble
    return _loaded[how]


def code_of(cls):
    def strip(c):
        return (c.co_code, c.co_names, tuple(strip(k) if inspect.iscode(k) else k for k in c.co_consts))
    return {n: strip(f.__code__) for n, f in inspect.getmembers(cls, inspect.isfunction)}


_formula = {}


def share_formula(how, conv):
    """The power series of the packaged formula stands for the same function as that of the source only where the code
    is the same."""
    if how in _formula:
        return
    from contracts.formula.fixed_map_formula import FixedMapFormula as F
    from symdex import ufformula
    mod = importlib.import_module(conv.__module__.split('.')[0] + '.formula.fixed_map_formula')
    P = mod.FixedMapFormula
    _formula[how] = True
    alike = code_of(P) == _source_code
    if P is not F:
        ufformula.install(P, '' if alike else 'packaged ')


_source_code = {}


def views(env, m):
    """Everything every contract shows."""
    out = []
    for n, cls in CLASSES.items():
        for name, f in sorted(inspect.getmembers(cls, inspect.isfunction)):
            from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
            if getattr(f, CONST_BIT_FLAG, 0) & ConstBitFlag.ReadOnly:
                ps = list(inspect.signature(f).parameters.values())[1:]
                if not ps:
                    out.append(env.q(m.by[n], name))
    for t in (m.A.at, m.F.at, m.icxt):
        for who in (m.owner, m.caller, m.at, m.network):
            out.append(env.q(t, 'balanceOf', dict(_owner=who)))
    out.append(env.q(m.at, 'getConnector', dict(_address=m.A.at)))
    out.append(env.q(m.network, 'getIcxTokenRegistered', dict(_icxToken=m.icxt)))
    for a, b in ((m.A.at, m.F.at), (m.F.at, m.A.at)):
        out.append(env.q(m.at, 'getReturn', dict(_fromToken=a, _toToken=b, _amount=7)))
    return out


def outcome(env, r):
    return (r.ok, r.ret if r.ok else None, r.crash,
            [(e.score_address, list(e.indexed), list(e.data)) for e in r.events])


def alike(env, a, b):
    (ok0, ret0, crash0, ev0), (ok1, ret1, crash1, ev1) = outcome(env, a), outcome(env, b)
    if ok0 != ok1 or crash0 != crash1 or len(ev0) != len(ev1):
        return False
    return env.And(same(env, ret0, ret1), *[same(env, list(x), list(y)) for x, y in zip(ev0, ev1)])


HOWS = ['all', 'named', 'cleaned', 'ZIP_DEFLATED', 'ZIP_STORED']


@scenario('C40', configs=[{'how': h} for h in HOWS], reach=['loaded'],
          bound='the packages of all contracts, built together, in groups over earlier output, after cleaning, and as '
                'archives: each can be loaded and offers the entry points of the source')
def packages_are_complete(env):
    classes, trouble = packages(env.config['how'])
    env.check(trouble is None and set(classes) == set(SOURCES), 'package-can-be-loaded', trouble)
    from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG

    def shape(cls):
        return sorted((n, int(getattr(f, CONST_BIT_FLAG, 0)), str(inspect.signature(f)) if getattr(f, CONST_BIT_FLAG, 0) else '')
                      for n, f in inspect.getmembers(cls, inspect.isfunction) if getattr(f, CONST_BIT_FLAG, 0))
    n = env.choice('contract', sorted(SOURCES))
    env.check(shape(classes[n]) == shape(SOURCES[n]), 'same-entry-points', n)
    env.reach('loaded')


@scenario('C40', configs=[{'what': w, 'how': 'all'} for w in CLASSES] + [{'what': w, 'how': 'ZIP_DEFLATED'} for w in CLASSES] +
          [{'what': w, 'how': h, 'thorough': True} for w in CLASSES for h in ('named', 'cleaned', 'ZIP_STORED')] +
          [{'what': w, 'how': 'all', 'phase': 'offered', 'thorough': True} for w in CLASSES],
          formula='uf', weight=3, reach=['accepted', 'refused'],
          bound='a market set up from the packaged contracts and one from the sources, with the same arbitrary settings, '
                'pending offers and balances; one call of any entry point by anyone with arbitrary arguments; all results, '
                'events and everything shown afterwards compared')
def packages_behave_like_sources(env):
    how, what = env.config['how'], env.config['what']
    classes, trouble = packages(how)
    env.check(trouble is None, 'package-can-be-loaded', trouble)
    if env.symbolic:
        share_formula(how, classes['converter'])

    def story():
        m = rich_world(env, False)
        name, caller, args, r = any_call(env, m, what)
        views(env, m)
        return r
    r = story()
    first = env.results
    env.again('package-does-what-the-source-does')
    env.world.classes = {SOURCES[n]: c for n, c in classes.items()}
    story()
    env.check(len(first) == len(env.results), 'package-does-what-the-source-does')
    for (w0, a), (w1, b) in zip(first, env.results):
        env.check(w0 == w1 and alike(env, a, b), 'package-does-what-the-source-does', w0)
    env.reach('accepted' if r.ok else 'refused')


_source_code.update(code_of(__import__('contracts.formula.fixed_map_formula', fromlist=['x']).FixedMapFormula))
