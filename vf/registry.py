"""harness registration"""
from __future__ import annotations

import importlib
import pkgutil

HARNESSES = {}


class Harness:

    def __init__(self, prop, name, fn, quick, thorough, opts):
        self.prop, self.name, self.fn, self.quick, self.thorough, self.opts = prop, name, fn, quick, thorough, opts


def harness(prop, quick=({}, ), thorough=None, **opts):
    """quick/thorough: lists of JSON-able parameter sets (thorough runs in addition to quick)"""

    def deco(fn):
        name = fn.__module__.rsplit('.', 1)[-1] + '.' + fn.__name__
        props = [prop] if isinstance(prop, str) else list(prop)
        HARNESSES[name] = Harness(props, name, fn, list(quick), list(thorough or []), opts)
        return fn

    return deco


def load_all():
    import vf.harness as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module(f'vf.harness.{m.name}')
    return HARNESSES


def load(name):
    importlib.import_module('vf.harness.' + name.split('.')[0])
    return HARNESSES[name]
