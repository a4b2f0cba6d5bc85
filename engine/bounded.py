"""Bounded stand-ins: concrete checks of the compiled code against an independent oracle, with a stated number of cases.
They never count as proved."""
from .contract import Skip     # noqa

CHECKS = {}


def bounded(props, name, n, thorough=None, about='', budget=30):
    def deco(cls):
        o = cls()
        o.name, o.props = name, (props,) if isinstance(props, str) else tuple(props)
        o.n, o.thorough, o.about, o.budget = n * 8, thorough or n * 100, about, budget
        assert name not in CHECKS, name
        CHECKS[name] = o
        return cls
    return deco
