"""Process set-up shared by the symbolic checker and the concrete replayer: where the code under test and
the real iconservice runtime are imported from, without writing anything into /repo."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
CODE = [os.path.join(REPO, 'contracts')]      # the code under test; the packages built from it are added
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    sys.dont_write_bytecode = True
    # never read stale byte code either: an empty cache prefix means every import compiles the source
    sys.pycache_prefix = os.path.join('/tmp', 'symdex-nopyc-%d' % os.getpid())
    if SITE not in sys.path:
        sys.path.append(SITE)
    import collections
    import collections.abc
    if not hasattr(collections, 'Iterator'):
        collections.Iterator = collections.abc.Iterator
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def hook_builtins():
    """Symbolic worker only: in the modules of the code under test, int(x) and type(x) accept symbolic values."""
    import ast
    import importlib.machinery as im
    from . import core as C

    def sym_int(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, C.SymIntBase):
                return x
            if isinstance(x, C.SymBoolBase):
                return C.sym_ite(x, 1, 0)
            if isinstance(x, C.SymFloatBase):
                return x.__trunc__()
        return int(*a, **k)

    def sym_float(*a, **k):
        if len(a) == 1 and not k:
            if isinstance(a[0], C.SymFloatBase):
                return a[0]
            if isinstance(a[0], (C.SymIntBase, C.SymBoolBase)):
                return C.float_of(a[0])
        return float(*a, **k)

    def sym_type(*a):
        if len(a) == 1 and isinstance(a[0], (C.SymIntBase, C.SymBoolBase, C.SymFloatBase)):
            return a[0].__class__
        return type(*a)

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('int', 'type', 'float') and not n.keywords and len(n.args) == 1:
                n.func = ast.copy_location(ast.Name('__sym_%s__' % n.func.id, ast.Load()), n.func)
            return n

    class Loader(im.SourceFileLoader):
        def source_to_code(self, data, path, *, _optimization=-1):
            return compile(T().visit(ast.parse(data, path)), path, 'exec', dont_inherit=True)

    import builtins
    builtins.__sym_int__, builtins.__sym_type__, builtins.__sym_float__ = sym_int, sym_type, sym_float
    finder = im.FileFinder.path_hook((Loader, ['.py']))

    def hook(path):
        if path == REPO or path.startswith(tuple(CODE)):
            return finder(path)
        raise ImportError
    sys.path_hooks.insert(0, hook)
    for k in list(sys.path_importer_cache):
        if k.startswith(REPO):
            del sys.path_importer_cache[k]
