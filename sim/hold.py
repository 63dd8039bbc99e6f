"""Objects the user holds on to: descriptions whose equal parts are one and
the same object, and whether they are still what they were."""
import json


def prepare(v, share=True, tuples=False, key=None, memo=None):
    """The description as a user may hold it: equal parts are shared, lists
    that may be tuples are."""
    memo = {} if memo is None else memo
    if isinstance(v, dict):
        out = {k: prepare(x, share, tuples, k, memo) for k, x in v.items()}
    elif isinstance(v, list):
        out = [prepare(x, share, tuples, None, memo) for x in v]
        if tuples == 'all' or tuples and isinstance(key, str) and (key.startswith('.') or key in (
                'c', 'bg', 'margin', 'page_size', 'color', 'border_color', 'cell_fill')):
            out = tuple(out)
    else:
        return v
    if not share:
        return out
    k = (type(out).__name__, json.dumps(v, sort_keys=False))
    return memo.setdefault(k, out)


def freeze(v):
    """Everything that can be told of a description."""
    if isinstance(v, dict):
        return ('dict', tuple((freeze(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    return (type(v).__name__, repr(v))


def diff(a, b, at=''):
    """Where two frozen descriptions differ."""
    if a == b:
        return None
    if a[0] != b[0]:
        return '%s was a %s, now a %s' % (at or 'it', a[0], b[0])
    if a[0] == 'dict':
        ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
        if ka != kb:
            return '%s had the keys %s, now %s' % (
                at or 'it', [k[1] for k in ka], [k[1] for k in kb])
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = diff(x, y, at + '[%s]' % k[1])
            if d:
                return d
    elif a[0] in ('list', 'tuple'):
        if len(a[1]) != len(b[1]):
            return '%s had %d items, now %d' % (at or 'it', len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, at + '[%d]' % i)
            if d:
                return d
    return '%s was %s, now %s' % (at, a[1], b[1])


def handed(pristine, held):
    """-> a function from parts of the description to the objects the user
    holds: what the library is given, whatever it has done to them before."""
    at = {}

    def give(v):
        if isinstance(v, (dict, list)):
            if id(v) in at:
                return at[id(v)]
            if isinstance(v, dict):
                return {k: give(x) for k, x in v.items()}
            return [give(x) for x in v]
        return v

    def note(a, b):
        if isinstance(a, (dict, list)):
            at[id(a)] = b
            for x, y in (zip(a.values(), b.values()) if isinstance(a, dict) else zip(a, b)):
                note(x, y)
    note(pristine, held)
    give.pristine = pristine    # (keeps the ids valid)
    return give
