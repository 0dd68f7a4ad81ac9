"""Shared by contract files and both execution modes."""


class Outcome:
    """result of S.call: .ok, .value, .exc (class or None), .exc_obj"""

    def __init__(self, ok, value, exc, exc_obj):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.exc_obj = exc_obj


REGISTRY = []


class Contract:
    def __init__(self, prop, fn, targets, bounded, budget, kind):
        self.prop = prop
        self.fn = fn
        self.name = '%s.%s' % (fn.__module__.split('.')[-1], fn.__name__)
        self.targets = targets
        self.bounded = bounded
        self.budget = budget
        self.kind = kind


def contract(prop, targets=(), bounded=None, budget=None, kind='proof'):
    """Register a contract harness for property `prop`.

    targets: functions of /repo the contract specifies
    bounded: None, or a sentence stating the bound (then never counted as proved)
    kind: 'proof' | 'concrete' (bounded stand-in only)
    """
    def deco(fn):
        REGISTRY.append(Contract(prop, fn, tuple(targets), bounded, budget, kind))
        return fn
    return deco
