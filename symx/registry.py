"""Harness registry."""
import importlib
import pkgutil

HARNESSES = {}


class Harness:
    def __init__(self, prop, name, fn, quick, thorough, bounds, stub_bounds_check, budget, max_paths):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.bounds = bounds
        self.stub_bounds_check = stub_bounds_check
        self.budget = budget
        self.max_paths = max_paths

    def configs(self, tier):
        if tier == 'quick' or self.thorough is None:
            return self.quick
        return self.quick + [c for c in self.thorough if c not in self.quick]


def harness(prop, name, quick=({},), thorough=None, bounds='', stub_bounds_check=True, budget=None, max_paths=10**9):
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            key = f'{p}/{name}'
            assert key not in HARNESSES, key
            HARNESSES[key] = Harness(p, name, fn, list(quick), list(thorough) if thorough is not None else None, bounds,
                                     stub_bounds_check, budget, max_paths)
        return fn
    return deco


def load():
    import harness as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module(f'harness.{m.name}')
    return HARNESSES
