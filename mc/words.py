"""Exhaustive enumeration of event words."""

import itertools


def words(alphabet, length, enabled=None, state0=None, advance=None):
    """All maximal words of the given length over events that are enabled in the
    abstract state (prefixes are covered while a maximal word is replayed)."""
    if enabled is None:
        for w in itertools.product(alphabet, repeat=length):
            yield list(w)
        return
    stack = [([], state0)]
    while stack:
        w, s = stack.pop()
        nxt = [e for e in alphabet if enabled(s, e)] if len(w) < length else []
        if not nxt:
            yield w
            continue
        for e in reversed(nxt):
            stack.append((w + [e], advance(s, e)))


def grid(**dims):
    """Cartesian product of named dimensions."""
    keys = list(dims)
    for vals in itertools.product(*dims.values()):
        yield dict(zip(keys, vals))


def pack(cases, size, name):
    """Group small cases, so that a spec is a list of cases executed in one go."""
    cases = list(cases)
    return [
        {"id": f"{name}/{i // size}", "cases": cases[i : i + size]}
        for i in range(0, len(cases), size)
    ]
