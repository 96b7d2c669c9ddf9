"""Facets and oracles' vocabulary."""


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case is outside of the property's domain (or its precondition failed to build)."""


class Facet:
    def __init__(self, name, strategy, check, quick=4000, thorough=None, rule='', explicit=(), limit=30.0):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 25
        self.rule, self.explicit, self.limit = rule, list(explicit), limit


class Ctx:
    """Counters of one shard; handed to the check functions."""

    def __init__(self):
        self.counters = {}

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k


def ensure(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m) for m in msg))


def eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def longer(op, hi, lo=1):
    """Lists of operations, often long ones."""
    from hypothesis import strategies as st
    return st.sampled_from([lo, lo, max(lo, hi // 3), max(lo, hi // 2)]).flatmap(lambda k: st.lists(op, min_size=k, max_size=hi))
