"""Shared pieces: violations, the registry of sub-checks, comparison helpers."""

import numpy as np


class Violation(Exception):
    """The code under test disagreed with the oracle on an in-domain case."""


class Skip(Exception):
    """The generated case is outside the property's domain (counted)."""


class Sub:
    """One generated check: a strategy of JSON-able cases and an oracle."""

    def __init__(self, prop, name, strategy, run, rule, quick, thorough,
                 backend, known, shards, procs, weight):
        self.prop, self.name = prop, name
        self.strategy, self.run, self.rule = strategy, run, rule
        self.quick, self.thorough = quick, thorough
        # numpy | torch | torch:32 | numpy:32 (numpy drives the mpi workers)
        self.backend = backend
        self.known = known  # optional fn(case, message) -> finding id or None
        self.shards, self.procs, self.weight = shards, procs, weight


REGISTRY = {}


def register(prop, name, strategy, rule, quick, thorough=None,
             backend="numpy", known=None, shards=2, procs=1, weight=1.0):
    """Decorator registering run(case) -> iterable of labels.

    The case counts as non-trivial iff the labels include "nt".
    """

    def deco(fn):
        subs = REGISTRY.setdefault(prop, {})
        assert name not in subs, (prop, name)
        subs[name] = Sub(prop, name, strategy, fn, rule, quick,
                         thorough or quick * 20, backend, known, shards,
                         procs, weight)
        return fn

    return deco


def load_all():
    """Import every check module; returns the registry."""
    import importlib
    import os

    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("harness.checks." + f[:-3])
    return REGISTRY


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same_shape(name, got, want):
    if tuple(got.shape) != tuple(want):
        raise Violation(f"{name}: shape {tuple(got.shape)}, expected {tuple(want)}")


def close(name, got, want, rtol=1e-7, atol=1e-9):
    """Same shape and |got - want| <= atol + rtol * |want|, elementwise."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    same_shape(name, got, want.shape)
    if got.size == 0:
        return
    shape = got.shape
    got, want = np.atleast_1d(got), np.atleast_1d(want)
    if not np.all(np.isfinite(got) | ~np.isfinite(want)):
        raise Violation(f"{name}: non-finite value {got[~np.isfinite(got)][:3]}"
                        f" where {want[~np.isfinite(got)][:3]} was expected")
    err = np.abs(got - want) - (atol + rtol * np.abs(want))
    err[got == want] = -1.0  # equal infinities
    if not np.all(err <= 0):
        err = np.where(np.isnan(err), np.inf, err)
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(
            f"{name}: at {tuple(int(j) for j in i)} of {shape} got {got[i]!r}, expected "
            f"{want[i]!r} (rtol {rtol:g}, atol {atol:g})")


def raises(name, excs, fn, *args, **kwargs):
    """fn must refuse its arguments with one of the exceptions."""
    try:
        ret = fn(*args, **kwargs)
    except excs:
        return
    except Exception as e:
        raise Violation(f"{name}: raised {type(e).__name__} ({e}) instead of "
                        f"{excs}")
    raise Violation(f"{name}: accepted, returning {ret!r}")
