"""Helpers shared by property modules."""
import json
import math

from .core import InjectedFault

SUPPLIES = ['list', 'list', 'tuple', 'set', 'frozenset', 'gen', 'iter', 'keys', 'map']
ONESHOT = ('gen', 'iter', 'map')


class FailingSupplier:
    """Iterable that fails at the given item."""

    def __init__(self, items, at, exc=InjectedFault):
        self.items, self.at, self.exc = list(items), at, exc

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.at:
                raise self.exc('supplier failed')
            yield x
        if self.at >= len(self.items):
            raise self.exc('supplier failed')


def supply(items, kind):
    items = list(items)
    if kind == 'list':
        return items
    if kind == 'tuple':
        return tuple(items)
    if kind == 'set':
        return set(items)
    if kind == 'frozenset':
        return frozenset(items)
    if kind == 'gen':
        return (x for x in items)
    if kind == 'iter':
        return iter(items)
    if kind == 'keys':
        return dict.fromkeys(items).keys()
    if kind == 'map':
        return map(lambda x: x, items)
    if isinstance(kind, list) and kind[0] == 'fail':
        return FailingSupplier(items, kind[1])
    raise ValueError(kind)


def is_fault(e):
    return isinstance(e, (InjectedFault, KeyboardInterrupt, MemoryError))


def gen_sched(r, clients):
    """Preemption intensity varies over orders of magnitude between runs."""
    if clients < 2:
        return {'mode': 'none'}
    return {'mode': 'rand', 'seed': r.getrandbits(40), 'p': 10 ** r.uniform(-2.7, -0.2), 'p_op': r.choice([.2, .5, .9])}


def shrink_list(xs):
    k = len(xs)
    size = max(1, k // 2)
    while size >= 1 and k:
        for i in range(0, k, size):
            yield xs[:i] + xs[i + size:]
        if size == 1:
            break
        size //= 2


def close(a, b, rtol=1e-9, atol=1e-12):
    try:
        if math.isnan(a) and math.isnan(b):
            return True
    except TypeError:
        return a == b
    return a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def r(o):
    """Result of ctx.call as short text without addresses."""
    if o[0] == 'exc':
        return f'{type(o[1]).__name__}: {str(o[1])[:200]}'
    return repr(o[1])[:300]


def clone(x):
    return json.loads(json.dumps(x))


def resplit(r, n, ids, fixed=0):
    """Other distinct numbers below n that read alike when their digits are run together (the first ones may be kept)."""
    digits = ''.join(map(str, ids[fixed:]))
    for _ in range(12):
        out, i = list(ids[:fixed]), 0
        while i < len(digits):
            k = 2 if digits[i] in '12' and i + 1 < len(digits) and r.random() < .5 else 1
            out.append(int(digits[i:i + k]))
            i += k
        if out != list(ids) and len(set(out)) == len(out) and max(out) < n:
            return out
    return None
