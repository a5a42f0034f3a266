"""Scenario registry."""
import importlib

SCENARIOS = {}
MODULES = ['tokens', 'access', 'converter', 'trading', 'network', 'formula_api', 'kernel', 'misc', 'frames', 'plumbing', 'packages', 'twins', 'ledger', 'together']


class Scenario:
    def __init__(self, fn, prop, name, configs, tier, formula, max_paths, reach, functions, bound, weight, custom):
        self.fn, self.prop, self.name, self.configs = fn, prop, name, configs
        self.tier, self.formula, self.max_paths, self.reach = tier, formula, max_paths, reach
        self.functions, self.bound, self.weight, self.custom = functions, bound, weight, custom


def scenario(prop, configs=None, tier='quick', formula='real', max_paths=20000, reach=(), functions=(), bound='',
             weight=1, custom=False):
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        name = fn.__module__.rsplit('.', 1)[-1] + '.' + fn.__name__
        SCENARIOS[name] = Scenario(fn, props, name, configs or [{}], tier, formula, max_paths, list(reach),
                                   list(functions), bound, weight, custom)
        return fn
    return deco


def load():
    from . import boot
    boot.setup_path()
    for m in MODULES:
        try:
            importlib.import_module('symdex.scen.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'symdex.scen.' + m:
                raise
    return SCENARIOS
