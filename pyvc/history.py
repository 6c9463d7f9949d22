"""Objects under arbitrary histories of calls.

The abstract state of a hash-like object is the data D supplied since creation or reset.  Its canonical representative is
the object created with D; for empty D there may be several (fresh, after a digest, after an empty update, after a reset),
found by closing under the calls.  Attributes whose value depends on the history (call counters) are found by running
concrete histories; each is then replaced by an arbitrary integer of its range before every call, so a proof shows that
no result depends on it.  Every call on every representative must give the specified result and end in a representative
of the specified next state: by induction every history is covered."""
from . import core
from .core import SBytes, SBytearray, SInt, SLin, SBool, to_pieces, Undecided
from .api import walk, same_pieces
from .engine import isnum, as_num


def history_attrs(histories):
    """histories: lists of objects with the same abstract state; {path: least value} of the integers that differ"""
    out, low = {}, {}
    for group in histories:
        snaps = [walk({'o': o}) for o in group]
        for p in snaps[0].bind:
            vals = [s.bind.get(p) for s in snaps]
            if all(type(v) is int for v in vals):
                low[p] = min([low.get(p, vals[0])] + vals)
                if len(set(vals)) > 1:
                    out[p] = None
    return {p: low[p] for p in out}


def follow(obj, path):
    chain = []
    while path[0] != 'L':
        chain.append(path)
        path = path[1]
    for c in chain[:0:-1]:
        obj = vars(obj)[c[2]] if c[0] == 'A' else obj[c[2]]
    return obj, chain[0][2]


def havoc(ctx, obj, attrs, tag=''):
    """arbitrary call counters"""
    for p in sorted(attrs, key=str):
        o, n = follow(obj, p)
        if n in vars(o) and type(vars(o)[n]) is int and vars(o)[n] >= attrs[p]:
            vars(o)[n] = ctx.var('hist_%s%s' % (n, tag), attrs[p])
    return obj


def differs(a, b, attrs):
    """None if the two objects have the same abstract state, otherwise what differs: (kind, text, pieces, pieces)"""
    x, y = walk({'o': a}), walk({'o': b})
    if set(x.bind) != set(y.bind):
        return 'structure', 'structure differs: %r' % sorted(map(str, set(x.bind) ^ set(y.bind)))[:4], None, None
    for p in sorted(x.bind, key=str):
        u, v = x.bind[p], y.bind[p]
        if p in attrs:
            u, v = as_num(u), as_num(v)
            if not isnum(u) or not isnum(v):
                return 'type', '%s: %r / %r' % (p, u, v), None, None
            if core.le(attrs[p], u) and core.le(attrs[p], v) or core.same(u, v):
                continue
            if core.le(attrs[p], v) and not isinstance(u, int):
                return 'range', '%s: %r' % (p, u), None, None
            return 'value', '%s: %r / %r' % (p, u, v), None, None
        if u is v:
            continue
        for w in (u, v):
            if isinstance(w, core.Poison):
                raise Undecided('%s: %s' % (p, w.why))
        pu, pv = to_pieces(u), to_pieces(v)
        if pu is not None and pv is not None:
            if bool(getattr(u, 'mutable', False)) != bool(getattr(v, 'mutable', False)):
                return 'type', '%s: %r / %r' % (p, type(u), type(v)), None, None
            if not same_pieces(pu, pv):
                return 'bytes', '%s: ' % (p,), list(pu), list(pv)
        elif isnum(as_num(u)) and isnum(as_num(v)):
            if not core.same(as_num(u), as_num(v)):
                return 'int', '%s: %r / %r' % (p, u, v), as_num(u), as_num(v)
        elif isinstance(u, SInt) and isinstance(v, SInt):
            if (u == v) is not True:
                return 'sint', '%s differs' % (p,), u, v
        elif type(u) is not type(v):
            return 'type', '%s: %r / %r' % (p, type(u), type(v)), None, None
        elif hasattr(u, '__dict__') or type(u) in (list, tuple, dict):
            pass
        elif u != v:
            return 'value', '%s: %r / %r' % (p, u, v), None, None
    return None


def one_of(ctx, name, obj, reps, attrs):
    """obj is in the same abstract state as one of reps"""
    d = None
    for r in reps:
        e = differs(obj, r, attrs)
        if e is None:
            return ctx.check(name, True)
        d = d or e
    kind, text, u, v = d
    if kind == 'bytes':
        return ctx.same_rope(name, u, v, text, soft=True)
    if kind == 'int':
        z = u - v
        return ctx.check(name, False, text, lin=None if isinstance(z, int) else z.z() != 0, soft=True)
    if kind == 'sint':
        return ctx.check(name, u == v, text, soft=True)
    if kind in ('range',):
        raise Undecided('%s: history attribute out of its range: %s' % (name, text))
    return ctx.check(name, False, text, soft=True)


def closure(start, ops, attrs, limit=6):
    """representatives of one abstract state: start objects closed under ops (functions returning the object after the call);
    each entry is a function making a new one"""
    reps = list(start)
    done = 0
    while done < len(reps):
        mk = reps[done]
        done += 1
        for op in ops:
            def mk2(mk=mk, op=op):
                return op(mk())
            o = mk2()
            if all(differs(o, r(), attrs) is not None for r in reps):
                reps.append(mk2)
                if len(reps) > limit:
                    raise Undecided('too many representatives of the empty state')
    return reps


def counters(ev):
    """calls that may bring a call counter to its value in a counterexample"""
    n = max([v for k, v in ev.ints.items() if k.startswith('hist_')], default=0)
    return [['u', 0, 0, '']] * (n - 1) if 3 < n <= 3000 else []
