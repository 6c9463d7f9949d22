"""Unbounded integers for the signature contracts: polynomials over opaque integers.

A PInt is an integer polynomial over atoms:
  variables; Mod(e, n) = e mod n; Div(e, n) = e // n; INT(s) the big endian value of a byte string;
  Inv(e, n) some integer with e * Inv(e, n) = 1 mod n (n prime, e not 0 mod n); GCD(a, b);
  X(i), Y(i): the coordinates of i P in a group of prime order q on y^2 = x^3 + a x + b over the field of p elements.
Equality modulo n is decided by expanding Mod, clearing inverses (multiplying by units) and comparing polynomials, so it
holds for every prime n.  Other facts go to z3 (integer arithmetic).
Loops are cut where their condition has just been found true (end-of-body exits keep the exact state), recursion at its
calls; candidate invariants are equations found by running the same code on concrete numbers, bounds, and gcd equations,
and each is kept only if the verifier proves it."""
import itertools
import math
import random
import time
import types
from fractions import Fraction

import z3

from . import core, engine
from .core import SBytes, SBytearray, SInt, SLin, SBool, Slice, Undecided, Unproved, PathEnd, Poison, to_pieces
from .engine import Ctx, Engine, Restart, Snap, MISSING, _Sym, STATS, pname, depth


# ------------------------------------------------------------------ polynomials: {monomial: coefficient}, monomial ((atom, exponent), ...)
def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + c * v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n)
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > 200000:
        raise Undecided('polynomial too large')
    return r


def ppow(p, k):
    r = {(): 1}
    while k:
        if k & 1:
            r = pmul(r, p)
        k >>= 1
        if k:
            p = pmul(p, p)
    return r


def pconst(c):
    return {(): c} if c else {}


def patoms(p):
    return {a for m in p for a, _ in m}


def pkey(p):
    return tuple(sorted(p.items()))


def deg(p):
    return max((sum(e for _, e in m) for m in p), default=0)


class Atom:
    def __init__(self, n, kind, args):
        self.n, self.kind, self.args = n, kind, args
        self.z = z3.Int('%s_%d' % (kind, n))

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return self.n           # runs do not depend on addresses

    def __repr__(self):
        if self.kind == 'var':
            return self.args[0]
        return '%s(%s)' % (self.kind, ', '.join(show(a) if isinstance(a, dict) else str(a) for a in self.args))


def show(p):
    if not p:
        return '0'
    out = []
    for m, v in sorted(p.items(), key=lambda i: (len(i[0]), i[0]))[:8]:
        s = '*'.join(repr(a) if e == 1 else '%r^%d' % (a, e) for a, e in m)
        out.append(str(v) if not s else s if v == 1 else '%d*%s' % (v, s))
    return ' + '.join(out) + (' + ...' if len(p) > 8 else '')


def exact_div(f, g):
    """f / g for polynomials when the division is exact, or None"""
    # graded lexicographic order on exponent vectors
    ats = sorted({a for m in list(f) + list(g) for a, _ in m}, key=lambda a: a.n)

    def key(m):
        d = dict(m)
        return sum(d.values()), tuple(d.get(a, 0) for a in ats)
    lead = max(g, key=key)
    ld = dict(lead)
    q = {}
    for _ in range(400):
        if not f:
            return q
        m = max(f, key=key)
        md = dict(m)
        if f[m] % g[lead] or any(md.get(a, 0) < e for a, e in ld.items()):
            return None
        t = {tuple((a, e - ld.get(a, 0)) for a, e in m if e > ld.get(a, 0)): f[m] // g[lead]}
        q = padd(q, t)
        f = padd(f, pmul(t, g), -1)
    return None


def const(p):
    """the value of a constant polynomial, or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def poly(x):
    if isinstance(x, PInt):
        return x.p
    if isinstance(x, bool):
        return pconst(int(x))
    if isinstance(x, int):
        return pconst(x)
    if isinstance(x, SInt) or isinstance(x, SLin):
        raise Undecided('a bit or size value meets an unbounded integer')
    return None


def mk(p):
    p = core.C.norm(p)
    c = const(p)
    return PInt(p) if c is None else c


class PCond:
    """p op 0"""
    is_cond = True

    def __init__(self, op, p, neg=False):
        self.op, self.p, self.neg = op, p, neg

    def __bool__(self):
        return core.C.pdecide(self)

    def z(self):
        e = core.C.pz(self.p)
        r = {'==': e == 0, '<': e < 0, '<=': e <= 0}[self.op]
        return z3.Not(r) if self.neg else r

    def inv(self):
        return PCond(self.op, self.p, not self.neg)

    def __repr__(self):
        return '%s%s %s 0' % ('not ' if self.neg else '', show(self.p), self.op)


def cond(op, p, neg=False):
    c = const(core.C.norm(p))
    if c is not None:
        return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op] != neg
    return PCond(op, p, neg)


class PInt:
    is_sym_int = True
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def _op(self, o, f):
        q = poly(o)
        return NotImplemented if q is None else mk(f(self.p, q))

    def __add__(self, o):
        return self._op(o, padd)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: padd(a, b, -1))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: padd(b, a, -1))

    def __mul__(self, o):
        if isinstance(o, (SBytes, str, list, tuple)):
            raise Undecided('repetition by an unbounded integer')
        return self._op(o, pmul)
    __rmul__ = __mul__

    def __neg__(self):
        return mk(padd({}, self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, k, m=None):
        if not isinstance(k, int):
            raise Undecided('symbolic exponent')
        if k < 0:
            if m is None:
                raise Undecided('negative exponent')
            return core.C.inverse(self, m) ** -k % m
        if k > 1000:
            raise Undecided('exponent %d' % k)
        r = mk(ppow(self.p, k))
        return r if m is None else r % m

    def __rpow__(self, b):
        raise Undecided('symbolic exponent')

    def __mod__(self, o):
        return core.C.mod(self, o)

    def __rmod__(self, o):
        return core.C.mod(o, self)

    def __floordiv__(self, o):
        return core.C.div(self, o)

    def __rfloordiv__(self, o):
        return core.C.div(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rshift__(self, k):
        return core.C.div(self, 1 << core.C.pconst_of(k))

    def __lshift__(self, k):
        return self * (1 << core.C.pconst_of(k))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            if o == 0:
                return 0
            lo = (o & -o).bit_length() - 1
            if (o >> lo) & ((o >> lo) + 1) == 0:
                n = (o >> lo).bit_length()
                return (self >> lo) % (1 << n) * (1 << lo)
        raise Undecided('bitwise operation on an unbounded integer')
    __rand__ = __and__

    def _bits(self, *a):
        raise Undecided('bitwise operation on an unbounded integer')
    __or__ = __ror__ = __xor__ = __rxor__ = __invert__ = __truediv__ = __rtruediv__ = __rrshift__ = __rlshift__ = _bits
    __float__ = __index__ = bit_length = _bits

    def __int__(self):
        raise Undecided('conversion of an unbounded integer')

    def _cmp(self, o, op, swap=False, neg=False):
        q = poly(o)
        if q is None:
            return NotImplemented
        return cond(op, padd(self.p, q, -1) if not swap else padd(q, self.p, -1), neg)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '==', neg=True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Undecided('an unbounded integer is hashed')

    def to_bytes(self, n=1, byteorder='big', *, signed=False):
        if signed or byteorder != 'big':
            raise Undecided('to_bytes variant')
        if not core.C.holds(cond('<=', padd({}, self.p, -1))) or not core.C.holds(self < 1 << 8 * n):
            if self < 0 or self >= 1 << 8 * n:
                raise OverflowError('int too big to convert')
        return core.C.encode(self, n, SBytes)

    def __repr__(self):
        return show(self.p)


# ------------------------------------------------------------------ context
class IntCtx(Ctx):
    def __init__(self, eng, dec):
        super().__init__(eng, dec)
        self.atoms = {}
        self.natoms = 0
        self.subst = {}             # atom -> polynomial
        self.psolver = z3.Solver()
        self.psolver.set('rlimit', 100000)
        self.ges = []               # polynomials known to be >= 0
        self.lres = {}
        self.lvar = {}
        self.known = set()
        self.primes = {}            # atom of a prime modulus -> list of polynomials known not 0 modulo it
        self.mods = {}              # modulus key -> list of (atom, expanded argument)
        self.curve = None           # dict(p, q, a, b: PInt)
        self.xeq, self.yeq = {}, {}  # what is known about X(i) == X(j)
        self.bases_of = {}
        self.base_val = {}
        self.params = {}
        self.from_bytes = self.int_of
        self.intdef = {}            # rope key -> PInt
        self.recdepth = {}
        self.nfresh = 0
        self.ecache = {}
        self.facts = []
        self.eqs = []
        self.gcd_done = []
        self.hold = {}
        self.gens = []
        self.draw = []
        self.congs = []
        self.posmods = set()
        self.orders = {}            # modulus key -> (atom, k): the k-th power of the atom is 1 modulo it
        self.random_progress = False

    # ---- atoms
    def atom(self, kind, *args):
        k = (kind,) + tuple(pkey(a) if isinstance(a, dict) else a for a in args)
        a = self.atoms.get(k)
        if a is None:
            self.natoms += 1
            a = self.atoms[k] = Atom(self.natoms, kind, args)
        return a

    def pvar(self, name, lo=None, hi=None):
        """an arbitrary integer, lo <= it <= hi"""
        a = self.atom('var', name)
        v = PInt({((a, 1),): 1})
        if lo is not None:
            self.pfact(cond('<=', padd(poly(lo), v.p, -1)))
        if hi is not None:
            self.pfact(cond('<=', padd(v.p, poly(hi), -1)))
        return v

    def pfresh(self, name):
        self.nfresh += 1
        return self.pvar('%s!%d' % (name, self.nfresh))

    def one(self, a):
        return mk({((a, 1),): 1})

    def norm(self, p):
        if not self.subst or not any(a in self.subst for m in p for a, _ in m):
            return p
        for _ in range(60):
            r = {}
            done = True
            for m, v in p.items():
                if any(a in self.subst for a, _ in m):
                    done = False
                    t = {(): v}
                    for a, e in m:
                        t = pmul(t, ppow(self.subst[a], e) if a in self.subst else {((a, e),): 1})
                    r = padd(r, t)
                else:
                    r = padd(r, {m: v})
            p = r
            if done:
                return p
        raise Undecided('cyclic equations')

    def pconst_of(self, k):
        k = poly(k)
        c = None if k is None else const(self.norm(k))
        if c is None:
            raise Undecided('symbolic shift')
        return c

    def closure(self, p, seen=None):
        seen = set() if seen is None else seen
        for a in patoms(p):
            if a not in seen:
                seen.add(a)
                for x in a.args:
                    if isinstance(x, dict):
                        self.closure(x, seen)
                if a in self.subst:
                    self.closure(self.subst[a], seen)
        return seen

    # ---- facts
    def pz(self, p):
        t = []
        for m, v in p.items():
            f = [a.z for a, e in m for _ in range(e)]
            x = z3.IntVal(v)
            for y in f:
                x = x * y
            t.append(x)
        return z3.Sum(t) if t else z3.IntVal(0)

    def pcheck(self, *zs):
        t = time.time()
        STATS['z3'] += 1
        self.psolver.push()
        self.psolver.add(*zs)
        r = self.psolver.check()
        self.psolver.pop()
        STATS['z3_s'] += time.time() - t
        return r

    def ckey(self, c):
        p = self.norm(c.p)
        if c.op == '==' and p and min(p.items())[1] < 0:
            p = padd({}, p, -1)
        return (c.op, pkey(p), c.neg)

    def addge(self, p):
        """assume p >= 0"""
        self.psolver.add(self.pz(p) >= 0)
        self.ges.append(p)
        self.hold = {}

    def abounds(self, a, lo, n):
        """lo <= a < n"""
        v = {((a, 1),): 1}
        self.addge(padd(v, pconst(lo), -1))
        if n is not None:
            self.addge(padd(padd(n, v, -1), pconst(1), -1))

    @staticmethod
    def as_ge(c):
        p, one = c.p, {(): 1}
        neg = padd({}, p, -1)
        if c.op == '==':
            return [] if c.neg else [p, neg]
        if c.op == '<':
            return [p] if c.neg else [padd(neg, one, -1)]
        return [padd(p, one, -1)] if c.neg else [neg]

    def linear(self, goal):
        """goal >= 0 follows from the known inequalities and products of two of them, monomials taken as independent"""
        goal = self.norm(goal)
        c = const(goal)
        if c is not None and c >= 0:
            return True
        key = (pkey(goal), len(self.ges), len(self.subst))
        r = self.lres.get(key)
        if r is not None:
            return r
        st = len(self.subst)
        if getattr(self, 'lstate', None) != st:
            self.lstate, self.lidx = st, 0
            self.lseen, self.lnl, self.lsmall = set(), set(), []
            self.lsol = z3.SolverFor('QF_LRA')
            self.lsol.set('rlimit', 2000000)
        if self.lidx < len(self.ges):
            fs = []
            for g in self.ges[self.lidx:]:
                g = self.norm(g)
                k = pkey(g)
                if const(g) is None and k not in self.lseen or const(g) is not None and const(g) < 0:
                    self.lseen.add(k)
                    fs.append(g)
            self.lidx = len(self.ges)
            newnl = {m for g in fs for m in g if sum(e for _, e in m) > 1} - self.lnl
            self.lnl |= newnl
            small = [g for g in fs if deg(g) == 1 and len(g) <= 3]
            ps = self.products(newnl, self.lnl, self.lsmall, self.lsmall) + self.products(self.lnl, self.lnl, small, self.lsmall + small)
            self.lsmall += small
            for g in fs + ps:
                self.lsol.add(self.lz(g) >= 0)
        new = {m for m in goal if sum(e for _, e in m) > 1 and m not in self.lnl}
        t0 = time.time()
        sol = self.lsol
        sol.push()
        if new:
            for g in self.products(new, new | self.lnl, self.lsmall, self.lsmall):
                sol.add(self.lz(g) >= 0)
        sol.add(self.lz(goal) <= -1)
        STATS['z3'] += 1
        r = self.lres[key] = sol.check() == z3.unsat
        sol.pop()
        STATS['z3_s'] += time.time() - t0
        return r

    @staticmethod
    def products(need, nl, fs, gs):
        """products of two known inequalities with a monomial of need and all nonlinear ones in nl"""
        out, done = [], set()
        if need:
            ats = {a for m in need for a, _ in m}
            fs = [f for f in fs if any(a in ats for m in f for a, _ in m)]
            gs = [f for f in gs if any(a in ats for m in f for a, _ in m)]
            for f in fs:
                for g in gs:
                    if (id(g), id(f)) in done:
                        continue
                    done.add((id(f), id(g)))
                    if any(mmul(m, n) in need for m in f for n in g if m and n):
                        h = pmul(f, g)
                        if all(sum(e for _, e in m) <= 1 or m in nl for m in h):
                            out.append(h)
        return out

    def lz(self, p):
        t = []
        for m, v in p.items():
            if not m:
                t.append(z3.RealVal(v))
                continue
            x = self.lvar.get(m)
            if x is None:
                k = tuple((a.n, e) for a, e in m)
                x = z3.Real('m' + repr(k))
                self.lvar[m] = x
            t.append(x if v == 1 else z3.RealVal(v) * x)
        return z3.Sum(t) if len(t) != 1 else t[0]

    def lholds(self, c):
        one = {(): 1}
        neg = padd({}, c.p, -1)
        if c.op == '==':
            if c.neg:
                return self.linear(padd(c.p, one, -1)) or self.linear(padd(neg, one, -1))
            return self.linear(c.p) and self.linear(neg)
        return self.linear(self.as_ge(c)[0])

    def between(self, p, n):
        """-n < p < n"""
        one = {(): 1}
        if self.linear(padd(padd(n, p), one, -1)) and self.linear(padd(padd(n, p, -1), one, -1)):
            return True
        z, zn = self.pz(p), self.pz(n)
        return self.pcheck(z3.Or(z <= -zn, z >= zn)) == z3.unsat

    def impossible(self):
        return self.linear(pconst(-1)) or self.pcheck() == z3.unsat

    def pfact(self, c):
        """assume a condition"""
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.hold = {}
        self.psolver.add(c.z())
        self.facts.append(c)
        self.ges += self.as_ge(c)
        self.known.add(self.ckey(c))
        if c.op == '==' and not c.neg:
            self.equation(c.p)

    def equation(self, p):
        """use p == 0 as a substitution when a variable can be eliminated"""
        p = self.norm(p)
        if const(p) is not None:
            if const(p) != 0:
                raise PathEnd()
            return
        for t in [t for t in self.atoms.values() if t.kind == 'GCD']:
            for u, v in (t.args, t.args[::-1]):
                u, v = self.norm(u), self.norm(v)
                if t not in self.gcd_done and const(v) is None and any(self.multiple(padd(u, p, c), v) for c in (1, -1)) and self.holds(cond('<=', padd({}, v, -1))):
                    # u is a multiple of v
                    self.gcd_done.append(t)
                    self.pfact(cond('==', padd(self.norm({((t, 1),): 1}), v, -1)))
        p = self.norm(p)
        if const(p) is not None:
            return
        g = math.gcd(*p.values())
        if g > 1:
            p = {m: v // g for m, v in p.items()}
        cs = []
        for m, v in p.items():
            if len(m) == 1 and m[0][1] == 1 and v in (1, -1):
                a = m[0][0]
                if sum(1 for n in p if any(x is a for x, _ in n)) == 1:
                    cs.append((a, v))
        keep = [poly(v) for v in (self.curve or {}).values()]
        cs.sort(key=lambda i: (any(i[0] in patoms(k) for k in keep), i[0].kind not in ('Mod', 'GCD'), i[0].n))
        for a, v in cs:
            rest = {m: -w * v for m, w in p.items() if m != ((a, 1),)}
            if a not in self.closure(rest):
                self.subst[a] = rest
                self.ecache = {}
                return
        self.eqs.append(p)

    def divide(self, f, n):
        """polynomial division by the equations that could not be used as substitutions"""
        G = [self.expand(g, n) for g in self.eqs]
        for _ in range(200):
            for g in G:
                if not g:
                    continue
                lead = max(g, key=lambda m: (sum(e for _, e in m), m))
                if g[lead] not in (1, -1):
                    continue
                d = dict(lead)
                m = next((m for m in f if all(dict(m).get(a, 0) >= e for a, e in d.items())), None)
                if m is not None:
                    rest = tuple((a, e - d.get(a, 0)) for a, e in m if e > d.get(a, 0))
                    f = self.expand(padd(f, pmul({rest: f[m] * g[lead]}, g), -1), n)
                    break
            else:
                return f
            if not f:
                return f
        return f

    def holds(self, c):
        """is the condition known"""
        if isinstance(c, bool):
            return c
        k = (c.op, pkey(self.norm(c.p)), c.neg)
        if k in self.hold:
            return self.hold[k]
        r = self._holds(c)
        self.hold[k] = r
        return r

    def _holds(self, c):
        p = self.norm(c.p)
        k = const(p)
        if k is not None:
            return {'==': k == 0, '<': k < 0, '<=': k <= 0}[c.op] != c.neg
        if c.op == '==':
            r = self.coord_eq(p)
            if r is not None:
                return r != c.neg
        c = PCond(c.op, p, c.neg)
        k = self.ckey(c)
        if k in self.known:
            return True
        if k[:2] + (not c.neg,) in self.known:
            return False
        if c.op == '==':
            r = self.residues(p)
            if r is not None:
                return r != c.neg
        return self.lholds(c) or self.pcheck(z3.Not(c.z())) == z3.unsat

    def residues(self, p):
        """Mod(A, n) == Mod(B, n) exactly when Mod(A - B, n) == 0: True, False, None"""
        c = p.get((), 0)
        t = sorted(((m, v) for m, v in p.items() if m), key=lambda i: -i[1])
        if not 1 <= len(t) <= (1 if c else 2) or any(len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'Mod' or v not in (1, -1) for m, v in t):
            return None
        a = t[0][0][0][0]
        nk = pkey(self.norm(a.args[1]))
        all_ = self.mods.get(nk, [])
        if len(t) == 2:
            b = t[1][0][0][0]
            if t[0][1] == t[1][1] or pkey(self.norm(b.args[1])) != nk:
                return None
            g = self.expand(padd(a.args[0], b.args[0], -1), a.args[1])
            if not g:
                return True
            for f in (g, padd({}, g, -1)):
                for x, e in all_:
                    if pkey(e) == pkey(f):
                        return self.settled({((x, 1),): 1})
            if self.prime_of(self.norm(a.args[1])) is not None:
                if self.zero_mod(g, a.args[1]):
                    return True
                if self.known_nonzero(g, a.args[1]):
                    return False
            return None
        n = self.norm(a.args[1])
        if c:
            # Mod(A, n) == c is Mod(A - c, n) == 0
            c *= -t[0][1]
            if c < 0 or not self.small(c, n):
                return None
            f = self.expand(padd(a.args[0], pconst(c), -1), n)
            if not f:
                return True
            for x, e in all_:
                if x is not a and any(not padd(self.expand(e, n), f, s) for s in (1, -1)):
                    return self.settled({((x, 1),): 1})
            return None
        f = self.expand(a.args[0], n)
        for x, e in all_:
            if x is not a:
                for s in (1, -1):
                    d = const(padd(self.expand(e, n), f, s))
                    if d is not None and d >= 0 and self.small(d, n):
                        return self.settled(padd({((x, 1),): 1}, pconst(d), -1))
        if len(all_) <= 40:
            by = {pkey(self.expand(e, a.args[1])): x for x, e in all_ if x is not a}
            for x, e in all_:
                if x is not a:
                    for s in (1, -1):
                        y = by.get(pkey(padd(self.expand(e, a.args[1]), f, s)))
                        if y is not None:
                            r = self.settled(padd({((x, 1),): 1}, {((y, 1),): 1}, -1))
                            if r is not None:
                                return r
        return None

    def small(self, c, n):
        """0 <= c < n"""
        return self.holds(cond('<', padd(pconst(c), n, -1)))

    def settled(self, p):
        p = self.norm(p)
        if const(p) is not None:
            return const(p) == 0
        k = self.ckey(PCond('==', p))
        return True if k in self.known else False if k[:2] + (True,) in self.known else None

    def pdecide(self, c):
        if self.pending is not None:
            e, self.pending = self.pending, None
            raise e
        if self.holds(c):
            return True
        if self.holds(c.inv()):
            return False
        p = self.norm(c.p)
        k = self.choose(['%s %s 0' % (show(p), c.op), 'not %s %s 0' % (show(p), c.op)])
        truth = (k == 0) != c.neg
        self.assume_cond(PCond(c.op, p, k == 1))
        return truth

    def assume_cond(self, c):
        p = c.p
        if c.op == '==':
            ij = self.coord(p)
            self.pfact(c)
            if ij is not None:
                kind, i, j = ij
                (self.xeq if kind == 'X' else self.yeq)[(pkey(i), pkey(j))] = (i, j, not c.neg)
                self.group_facts()
            # an atom Mod(e, n) that is not zero: e is not zero modulo n
            if c.neg and len(p) == 1:
                (m, v), = p.items()
                for a, _ in m:
                    if a.kind == 'Mod':
                        self.nonzero(a.args[0], a.args[1])
        else:
            self.pfact(c)
            self.pin(None)

    def pin(self, t):
        """an inequality may fix a value"""
        if t is not None:
            return super().pin(t)
        c = self.facts[-1]
        p = self.norm(c.p)
        ats = patoms(p)
        if c.op != '==' and len(ats) == 1 and const(p) is None and self.pcheck(self.pz(p) != 0) == z3.unsat:
            self.equation(p)

    # ---- modular arithmetic
    def prime(self, n, least):
        """n is a prime, at least least"""
        (m, v), = n.p.items()
        self.primes[m[0][0]] = []
        self.pfact(n >= least)

    def prime_of(self, n):
        """the prime atom that is the modulus, or None"""
        if len(n) == 1:
            (m, v), = n.items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.primes:
                return m[0][0]
        return None

    def nonzero(self, p, n):
        a = self.prime_of(n)
        if a is not None:
            self.primes[a].append(self.expand(p, n))

    def expand(self, p, n):
        """the residue class of p modulo n: Mod( , n) replaced by its argument, multiples of n dropped"""
        p = self.norm(p)
        k = (pkey(p), pkey(n))
        r = self.ecache.get(k)
        if r is not None:
            return r
        nk = pkey(n)
        r = {}
        na = self.prime_of(n)
        nc = const(n)
        base, order = self.orders.get(nk, (None, 0))
        for m, v in p.items():
            t = {(): v}
            for a, e in m:
                if a is na:
                    t = {}
                    break
                if a.kind == 'Mod' and pkey(self.norm(a.args[1])) == nk:
                    t = pmul(t, ppow(self.expand(a.args[0], n), e))
                else:
                    t = pmul(t, {((a, e),): 1})
            r = padd(r, t)
        if base is not None:
            t, r = r, {}
            for m, v in t.items():
                r = padd(r, {tuple((a, e % order if a is base else e) for a, e in m if a is not base or e % order): v})
        if nc:
            r = {m: v % nc for m, v in r.items() if v % nc}
        self.ecache[k] = r
        return r

    def clear_inv(self, f, n):
        """f times units: no inverses modulo n left"""
        nk = pkey(n)
        for _ in range(60):
            inv = [a for a in patoms(f) if a.kind == 'Inv' and pkey(self.norm(a.args[1])) == nk]
            if not inv:
                break
            # an inverse that occurs inside another one's argument goes last
            inv.sort(key=lambda a: -a.n)
            V = inv[0]
            e = self.expand(V.args[0], n)
            d = max(k for m in f for a, k in m if a is V)
            pows = [{(): 1}]
            for _ in range(d):
                pows.append(self.expand(pmul(pows[-1], e), n))
            r = {}
            for m, v in f.items():
                k = dict(m).get(V, 0)
                r = padd(r, pmul({tuple((a, x) for a, x in m if a is not V): v}, pows[d - k]))
            f = self.expand(r, n)
        # y^2 = x^3 + a x + b on the curve
        if self.curve is not None and pkey(n) == pkey(poly(self.curve['p'])):
            f = self.curve_reduce(f)
        return f

    def curve_reduce(self, f):
        for _ in range(60):
            ys = [a for a in patoms(f) if a.kind == 'Y' and any(x is a and e > 1 for m in f for x, e in m)]
            if not ys:
                return f
            Y = ys[0]
            X = self.one_atom('X', Y.args[0])
            rhs = padd(padd(ppow(X, 3), pmul(X, poly(self.curve['a']))), poly(self.curve['b']))
            r = {}
            for m, v in f.items():
                k = dict(m).get(Y, 0)
                rest = tuple((a, x) for a, x in m if a is not Y)
                if k % 2:
                    rest = mmul(rest, ((Y, 1),))
                r = padd(r, pmul({rest: v}, ppow(rhs, k // 2)))
            f = self.expand(r, poly(self.curve['p']))
        return f

    def one_atom(self, kind, i):
        return poly(self.X(PInt(i)) if kind == 'X' else self.Y(PInt(i)))

    def zero_mod(self, p, n):
        """p is known to be 0 modulo n"""
        if self._zero_mod(p, n):
            return True
        if self.congs and pkey(n) == pkey(poly(self.curve['q'])):
            return any(self._zero_mod(padd(p, e, c), n) for e in self.congs for c in (1, -1))
        return False

    def _zero_mod(self, p, n):
        f = self.clear_inv(self.expand(p, n), n)
        if not f:
            return True
        c = const(f)
        if c is not None:
            nc = const(n)
            return nc is not None and c % nc == 0
        return bool(self.eqs) and not self.divide(f, n)

    def known_nonzero(self, p, n):
        """p is known not to be 0 modulo n"""
        if self._known_nonzero(p, n):
            return True
        if self.congs and pkey(n) == pkey(poly(self.curve['q'])):
            return any(self._known_nonzero(padd(p, e, c), n) for e in self.congs for c in (1, -1))
        return False

    def _known_nonzero(self, p, n):
        na = self.prime_of(n)
        f = self.clear_inv(self.expand(p, n), n)
        if not f:
            return False
        nc = const(n)
        c = const(f)
        if c is not None and nc is not None:
            return c % nc != 0
        if na is None:
            return False
        if c is not None:
            # a prime above all prime factors of c
            return self.holds(cond('<', padd(pconst(self.small_factor(c)), n, -1)))
        f = self.strip(f, na)
        if const(f) is not None:
            return self.known_nonzero(f, n)
        for g in self.primes[na]:
            for s in (1, -1):
                if not self.clear_inv(self.expand(padd(f, g, s), n), n):
                    return True
            g = self.strip(self.clear_inv(self.expand(g, n), n), na)
            for s in (1, -1):
                if not self.clear_inv(self.expand(padd(f, g, s), n), n):
                    return True
        for g in self.primes[na]:
            g = self.clear_inv(self.expand(g, n), n)
            if len(g) > 1 and len(g) < len(f):
                h = exact_div(f, g)
                if h is not None:
                    return self.known_nonzero(h, n)
        if self.curve is not None and na is self.prime_of(poly(self.curve['p'])) and self.coord_eq(f) is False:
            return True             # coordinates lie between 0 and p - 1
        q = self.norm(p)
        for h in (f, q) if pkey(q) != pkey(f) else (f,):
            if deg(h) <= 3 and self.holds(cond('==', h, True)) and self.between(h, n):
                return True
        return False

    @staticmethod
    def small_factor(c):
        c = abs(c)
        best, d = 1, 2
        while d * d <= c and d < 10000:
            while c % d == 0:
                best, c = d, c // d
            d += 1
        return max(best, c)

    def strip(self, f, na):
        """divide by factors known not 0 modulo the prime"""
        n = {((na, 1),): 1}
        common = None
        for m in f:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        for a, e in sorted((common or {}).items()):
            if self.atom_nz(a, na):
                f = {tuple((x, k - e if x is a else k) for x, k in m if x is not a or k > e): v for m, v in f.items()}
        g = math.gcd(*f.values())
        if g > 1 and self.holds(cond('<', padd(pconst(self.small_factor(g)), n, -1))):
            f = {m: v // g for m, v in f.items()}
        return f

    def atom_nz(self, a, na):
        n = {((na, 1),): 1}
        one = {((a, 1),): 1}
        if a.kind == 'Inv' and pkey(self.norm(a.args[1])) == pkey(n):
            return True
        for g in self.primes[na]:
            for s in (1, -1):
                if not padd(one, g, s):
                    return True
        return self.linear(padd(one, pconst(1), -1)) and self.linear(padd(padd(n, one, -1), pconst(1), -1))

    def mod(self, x, n):
        p, n = poly(x), poly(n)
        if p is None or n is None:
            return NotImplemented
        p, n = self.norm(p), self.norm(n)
        nc = const(n)
        if pkey(n) not in self.posmods:
            if nc == 0 or nc is None and not self.holds(cond('==', n, True)):
                if nc == 0 or mk(n) == 0:
                    raise ZeroDivisionError('integer modulo by zero')
            if not self.holds(cond('<', padd({}, n, -1))):
                raise Undecided('modulus not known to be positive')
            self.posmods.add(pkey(n))
        f = self.expand(p, n)
        for q in (p, f):
            if len(q) <= 1 or const(q) is not None:
                c = const(q)
                if c == 0:
                    return 0
                if deg(q) <= 1 and len(patoms(q)) <= 1 and self.linear(q) and self.linear(padd(padd(n, q, -1), pconst(1), -1)):
                    return mk(q)
        r = self.recognise(f, n)
        if r is not None:
            return r
        key = pkey(n)
        simple = self.curve is None and not self.eqs and not self.congs and not any(a.kind == 'Inv' for a in self.atoms.values())
        fk = pkey(f)
        for a, e in self.mods.setdefault(key, []):
            if pkey(self.expand(e, n)) == fk or not simple and self.zero_mod(padd(f, e, -1), n):
                return self.one(a)
        if self.zero_mod(f, n):
            return 0
        if nc is not None:
            # constant modulus: value minus the multiple of the quotient
            return mk(padd(p, pmul(n, poly(self.div(PInt(p), nc))), -1))
        a = self.atom('Mod', f, n)
        self.mods[key].append((a, f))
        self.abounds(a, 0, n)
        self.hold = {}
        if self.prime_of(n) is not None and self.known_nonzero(f, n):
            self.abounds(a, 1, None)
        return self.one(a)

    def div(self, x, n):
        p, n = poly(x), poly(n)
        if p is None or n is None:
            return NotImplemented
        p, n = self.norm(p), self.norm(n)
        if const(n) == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if const(n) is not None and const(p) is not None:
            return const(p) // const(n)
        if const(n) is not None:
            c = const(n)
            if c < 0:
                raise Undecided('division by a negative number')
            if all(v % c == 0 for v in p.values()):
                return mk({m: v // c for m, v in p.items()})
            q = {m: v // c for m, v in p.items() if v // c and m}
            rest = padd(p, q, -c)
            if const(rest) is not None:
                return mk(padd(q, pconst(const(rest) // c)))
            a = self.atom('Div', rest, n)
            if not getattr(a, 'known', False):
                a.known = True
                z = padd(rest, {((a, 1),): c}, -1)
                self.addge(z)
                self.addge(padd(pconst(c - 1), z, -1))
            return mk(padd(q, {((a, 1),): 1}))
        r = self.mod(PInt(p), PInt(n))
        if not self.norm(padd(p, poly(r), -1)):
            return 0
        a = self.atom('Div', p, n)
        if not getattr(a, 'known', False):
            a.known = True
            e = padd(padd(p, pmul(n, {((a, 1),): 1}), -1), poly(r), -1)
            self.addge(e)
            self.addge(padd({}, e, -1))
            r = poly(self.norm_value(r))
            if len(r) == 1 and const(r) is None:
                (m, v), = r.items()
                if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'Mod' and m[0][0] not in patoms(p):
                    self.subst[m[0][0]] = padd(p, pmul(n, {((a, 1),): 1}), -1)
                    self.ecache = {}
        return self.one(a)

    def norm_value(self, x):
        return x if isinstance(x, int) else mk(x.p)

    def inverse(self, x, n):
        """contract of modular inversion (requires: n prime, x not 0 modulo n)"""
        p, n = self.norm(poly(x)), self.norm(poly(n))
        if self.prime_of(n) is None:
            raise Undecided('inverse for a modulus not known to be prime')
        if not self.known_nonzero(p, n):
            if self.impossible():
                raise PathEnd()
            raise Unproved('inverse of a value not known to be invertible: %s' % show(p))
        f = self.expand(p, n)
        if const(f) == 1:
            return 1
        for a in [a for a in self.atoms.values() if a.kind == 'Inv' and pkey(a.args[1]) == pkey(n)]:
            if self.zero_mod(padd(f, a.args[0], -1), n):
                return self.one(a)
        a = self.atom('Inv', f, n)
        self.abounds(a, 1, n)
        self.hold = {}
        return self.one(a)

    # ---- byte strings
    def urandom(self, n):
        self.n_urandom += 1
        if not isinstance(n, int):
            raise Undecided('random string of symbolic length')
        if self.sampling is not None:
            return SBytes([tuple(random.Random(self.n_urandom).randbytes(n))])
        b = self.base('urandom%d' % self.n_urandom)
        r = SBytes([Slice(b, 0, n)])
        self.draw.append(r)
        return r

    def encode(self, v, n, t=SBytearray):
        if isinstance(v, int):
            return t([tuple(v.to_bytes(n, 'big'))])
        k = pkey(self.norm(v.p))
        b = self.bases_of.get((k, n))
        if b is None:
            b = self.bases_of[(k, n)] = self.base('bytes%d!%d(%s)' % (n, len(self.bases_of), show(v.p)[:60]))
            self.base_val[b.name] = (v, n)
        return t([Slice(b, 0, n)])

    def rope_key(self, ps):
        out = []
        for p in ps:
            if isinstance(p, Slice):
                out.append((p.base.name, str(p.lo), str(p.hi)))
            elif isinstance(p, tuple):
                out.append(tuple(x if isinstance(x, int) else core_key(x) for x in p))
            else:
                out.append(('fill', str(p.v), str(p.n)))
        return tuple(out)

    def int_of(self, b, byteorder):
        if byteorder != 'big':
            raise Undecided('little endian conversion')
        ps = list(b.p)
        while ps and isinstance(ps[0], tuple) and all(isinstance(x, int) and x == 0 for x in ps[0]):
            ps = ps[1:]
        if not ps:
            return 0
        if all(isinstance(p, tuple) and all(isinstance(x, int) for x in p) for p in ps):
            return None
        if len(ps) == 1 and isinstance(ps[0], Slice) and ps[0].base.name in self.base_val:
            v, n = self.base_val[ps[0].base.name]
            if ps[0].lo == 0 and ps[0].hi == n:
                return self.norm_value(v)
        k = self.rope_key(ps)
        v = self.intdef.get(k)
        if v is None:
            n = SBytes(ps).length()
            v = self.intdef[k] = self.pvar('int(%s)' % (k,), 0, (1 << 8 * n) - 1 if isinstance(n, int) else None)
            self.hold = {}
        return self.norm_value(v)

    def define_int(self, b, v):
        """the byte string b is the encoding of v"""
        self.intdef[self.rope_key(to_pieces(b))] = v

    # ---- the group
    def set_curve(self, **k):
        self.curve = k

    def X(self, i):
        return self._coord('X', i)

    def Y(self, i):
        return self._coord('Y', i)

    def _coord(self, kind, i):
        q = poly(self.curve['q'])
        i = self.norm(poly(i))
        for a in list(self.atoms.values()):
            if a.kind == kind and (pkey(a.args[0]) == pkey(i) or self.zero_mod(padd(a.args[0], i, -1), q)):
                return self.one(a)
        a = self.atom(kind, i)
        self.abounds(a, 0 if kind == 'X' else 1, poly(self.curve['p']))
        self.hold = {}
        if kind == 'Y':
            self.nonzero({((a, 1),): 1}, poly(self.curve['p']))
        return self.one(a)

    def coord(self, p):
        """p = +-(X(i) - X(j)) or the same with Y: (kind, i, j)"""
        if self.curve is None or len(p) != 2:
            return None
        (m, v), (n, w) = p.items()
        if {v, w} == {1, -1} and all(len(x) == 1 and x[0][1] == 1 for x in (m, n)):
            a, b = m[0][0], n[0][0]
            if a.kind == b.kind and a.kind in 'XY':
                return (a.kind, a.args[0], b.args[0])
        return None

    def coord_eq(self, p):
        """what the group says about X(i) == X(j): True, False, None"""
        c = self.coord(p)
        if c is None:
            return None
        kind, i, j = c
        q = poly(self.curve['q'])
        d, s = padd(i, j, -1), padd(i, j)
        if self.zero_mod(d, q):
            return True
        if kind == 'X':
            if self.zero_mod(s, q):
                return True
            if self.known_nonzero(d, q) and self.known_nonzero(s, q):
                return False
        elif self.zero_mod(s, q):
            return False                    # no point of order 2
        return None

    def group_facts(self):
        q = poly(self.curve['q'])
        for k, (i, j, eq) in list(self.xeq.items()):
            d, s = padd(i, j, -1), padd(i, j)
            if not eq:
                self.nonzero(d, q)
                self.nonzero(s, q)
                continue
            y = self.yeq.get(k) or self.yeq.get(k[::-1])
            if y is not None:
                self.congruent(d if y[2] else s, q)
                if not y[2]:
                    self.nonzero(d, q)

    def congruent(self, e, q):
        """e = 0 modulo q"""
        e = self.norm(e)
        if not e:
            return
        z, zq = self.pz(e), self.pz(q)
        if self.between(e, q):
            self.pfact(cond('==', e))
            if self.impossible():
                raise PathEnd()
            return
        if self.known_nonzero(e, q):
            raise PathEnd()
        self.psolver.add(z == zq * self.pz(poly(self.pfresh('multiple'))))
        self.hold = {}
        cs = [(m[0][0], v) for m, v in e.items() if len(m) == 1 and m[0][1] == 1 and v in (1, -1)]
        if self.impossible():
            raise PathEnd()
        self.congs.append(e)
        self.hold = {}

    def recognise(self, f, n):
        """a residue modulo p that is a coordinate of a sum of known points"""
        if self.curve is None or pkey(n) != pkey(poly(self.curve['p'])):
            return None
        if len(f) == 1:
            (m, v), = f.items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in 'XY':
                return self.one(m[0][0])
        if not any(a.kind == 'Inv' for a in patoms(f)) and not any(e[2] for e in self.yeq.values()):
            return None
        idx = []
        for a in sorted(self.closure(f)):
            if a.kind in 'XY' and not any(pkey(a.args[0]) == pkey(i) for i in idx):
                idx.append(a.args[0])
        for i, j, eq in self.yeq.values():
            for t in (i, j):
                if eq and not any(pkey(t) == pkey(u) for u in idx):
                    idx.append(t)
        if len(idx) > 6:
            return None
        A = poly(self.curve['a'])
        q = poly(self.curve['q'])
        one = {(): 1}
        ns = [a for a in patoms(f) if a.kind == 'Inv']
        for i, j in itertools.product(idx, idx):
            xi, yi, xj, yj = (self.one_atom(k, t) for k, t in (('X', i), ('Y', i), ('X', j), ('Y', j)))
            if pkey(i) == pkey(j) or self.zero_mod(padd(i, j, -1), q):
                if pkey(i) != pkey(j):
                    continue
                num, den = padd(pmul({(): 3}, pmul(xi, xi)), A), pmul({(): 2}, yi)
            else:
                num, den = padd(yj, yi, -1), padd(xj, xi, -1)
                if not self.known_nonzero(den, n):
                    continue
            s = padd(i, j)
            # lambda = num / den; x = lambda^2 - xi - xj; y = lambda (xi - x) - yi, with f * den^k compared
            x3 = padd(pmul(num, num), pmul(pmul(den, den), padd(xi, xj)), -1)          # / den^2
            if self.zero_mod(padd(pmul(f, pmul(den, den)), x3, -1), n):
                return self.X(PInt(s))
            for t in idx:
                if self.zero_mod(padd(s, t, -1), q):
                    y3 = padd(pmul(num, padd(xi, self.one_atom('X', t), -1)), pmul(den, yi), -1)    # / den
                    if self.zero_mod(padd(pmul(f, den), y3, -1), n):
                        return self.Y(PInt(s))
            y3 = padd(pmul(num, padd(pmul(pmul(den, den), xi), x3, -1)), pmul(ppow(den, 3), yi), -1)   # / den^3
            if self.zero_mod(padd(pmul(f, ppow(den, 3)), y3, -1), n):
                return self.Y(PInt(s))
        return None

    def gcd(self, a, b):
        a, b = self.norm(poly(a)), self.norm(poly(b))
        for x, y in ((a, b), (b, a)):
            if const(y) == 0 and self.holds(cond('<=', padd({}, x, -1))):
                return mk(x)
            n = self.prime_of(y)
            if n is not None and self.known_nonzero(x, y):
                return 1
        # Euclid: the argument that is a remainder modulo the other one stands for every number of its class
        for x, y in ((a, b), (b, a)):
            if const(y) is None or const(y) != 0:
                for t in list(self.atoms.values()):
                    if t.kind == 'GCD':
                        for u, v in (t.args, t.args[::-1]):
                            if pkey(self.norm(v)) == pkey(y) and not self.expand(padd(self.norm(u), x, -1), y) or \
                                    pkey(self.norm(v)) == pkey(y) and self.multiple(padd(self.norm(u), x, -1), y):
                                return self.one(t)
        return self.one(self.atom('GCD', *sorted((a, b), key=pkey)))

    def multiple(self, e, y):
        """e is y times a polynomial"""
        e = self.norm(e)
        if not e:
            return True
        def order(m):
            return (sum(x for _, x in m), tuple((-a.n, x) for a, x in m))
        lead = max(y, key=order)
        d = dict(lead)
        for _ in range(60):
            m = max(e, key=order)
            k = dict(m)
            if e[m] % y[lead] or any(k.get(a, 0) < x for a, x in d.items()):
                return False
            rest = tuple((a, x - d.get(a, 0)) for a, x in m if x > d.get(a, 0))
            e = padd(e, pmul({rest: e[m] // y[lead]}, y), -1)
            if not e:
                return True
        return False

    # ---- obligations
    def pprove(self, name, c, detail=''):
        """c (a PCond or bool) must hold on this path"""
        if isinstance(c, bool):
            return self.check(name, c, detail)
        if self.holds(c):
            self.obs.append((name, True, ''))
            return True
        self.obs.append((name, 'unproved', '%s: %r' % (detail, c)))
        self.eng.path_case(self)
        return False

    def peq(self, name, a, b, detail=''):
        r = a == b
        return self.pprove(name, r if isinstance(r, (bool, PCond)) else bool(r), detail or '%s expected %s' % (repr(a)[:150], repr(b)[:150]))

    def check(self, name, ok, detail='', masks=None, lin=None, soft=False):
        if isinstance(ok, PCond):
            return self.pprove(name, ok, detail)
        if ok is True:
            self.obs.append((name, True, ''))
            return True
        if ok is False:
            if self.impossible():
                raise PathEnd()
            self.obs.append((name, None if soft else 'unproved', detail))
            self.eng.path_case(self)
            return False
        return super().check(name, ok, detail, masks, lin, soft)

    # ---- loops and recursion
    def for_loop(self, site, it, names):
        if isinstance(it, types.GeneratorType) and it.gi_frame is not None and '__vc_s__' in it.gi_code.co_varnames:
            return GenLoop(self, site, it, names)
        return super().for_loop(site, it, names)

    def while_loop(self, site, names):
        return IntLoop(self, site, names)

    def recursive(self, site, f, a, k):
        return recursive(self, site, f, a, k)


def core_key(x):
    return repr(x.bits()) if isinstance(x, SInt) else repr(x)


# ------------------------------------------------------------------ invariants
def as_int(v):
    return isinstance(v, PInt) or isinstance(v, int) and not isinstance(v, bool)


def coord_kind(v):
    if isinstance(v, PInt):
        p = core.C.norm(v.p)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in 'XY':
                return m[0][0].kind, m[0][0].args[0]
    return None


def nullspace(rows):
    """rational basis of {v: row . v = 0}, one integer vector per free column"""
    rows = [[Fraction(x) for x in r] for r in rows]
    n = len(rows[0])
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        x = rows[r][c]
        rows[r] = [y / x for y in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                m = rows[i][c]
                rows[i] = [y - m * z for y, z in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)] * n
        v[c] = Fraction(1)
        for i, p in enumerate(piv):
            v[p] = -rows[i][c]
        l = math.lcm(*[x.denominator for x in v])
        v = [int(x * l) for x in v]
        if max(abs(x) for x in v) <= 8:
            out.append(v)
    return out


def equations(samples, names, maxdeg=2, need=()):
    """polynomial equations of degree two among the named numbers that hold in every sample and mention one of need"""
    samples = [s for s in samples if all(n in s for n in names)]
    mons = [()] + [(n,) for n in names] + [t for t in itertools.combinations_with_replacement(names, 2)]
    if len(samples) < len(mons) + 4 or len(mons) > 140:
        return []
    samples = samples[:len(mons) + 60]
    rows = []
    # high degree monomials become pivots' dependents last: order so that simple equations come out
    mons.sort(key=lambda m: -len(m))
    for s in samples:
        rows.append([math.prod(s[x] for x in m) for m in mons])
    out = []
    for v in nullspace(rows):
        e = [(m, c) for m, c in zip(mons, v) if c]
        if not need or any(x in need for m, _ in e for x in m):
            out.append(tuple(e))
    return out


def eval_eq(e, vals):
    r = 0
    for m, c in e:
        t = c
        for x in m:
            t = t * vals[x]
        r = r + t
    return r


class Facts:
    """candidate facts over named integers; each survives only while proved"""

    def __init__(self, cands):
        self.cands = list(cands)

    @staticmethod
    def cond(f, vals):
        k = f[0]
        if k == 'eq':
            r = eval_eq(f[1], vals)
            return r == 0 if isinstance(r, (int, PInt)) else False
        if k == 'ge':
            return vals[f[1]] >= f[2]
        if k == 'or':
            cs = [vals[f[1]] >= f[2], vals[f[3]] >= f[4]]
            if any(core.C.holds(x) for x in cs):
                return True
            cs = [x for x in cs if x is not False]
            return bool(cs) and core.C.pcheck(*[z3.Not(x.z()) for x in cs]) == z3.unsat
        if k == 'lt':
            return vals[f[1]] < vals[f[2]]
        if k == 'le':
            return vals[f[1]] <= vals[f[2]]
        if k == 'gcd':
            return core.C.gcd(vals[f[1]], vals[f[2]]) == core.C.gcd(vals[f[3]], vals[f[4]]) if f[4] is not None else \
                vals[f[1]] == core.C.gcd(vals[f[2]], vals[f[3]])
        if k == 'cong':
            # f[1] * f[2] - f[3] = 0 modulo f[4]
            n = poly(vals[f[4]])
            e = vals[f[1]] * vals[f[2]] - vals[f[3]]
            return core.C.mod(e, vals[f[4]]) == 0 if not isinstance(e, int) or e else True
        if k == 'nz':
            # not 0 modulo the group order
            return core.C.known_nonzero(poly(vals[f[1]]), poly(core.C.curve['q']))
        raise AssertionError(k)

    def assume(self, ctx, vals):
        for f in sorted(self.cands, key=lambda f: f[0] != 'nz'):
            if f[0] == 'nz':
                ctx.nonzero(poly(vals[f[1]]), poly(ctx.curve['q']))
            elif f[0] == 'or':
                cs = [vals[f[1]] >= f[2], vals[f[3]] >= f[4]]
                if True not in cs:
                    ctx.psolver.add(z3.Or(*[x.z() for x in cs if x is not False]))
                    ctx.hold = {}
            elif f[0] == 'cong':
                n = poly(vals[f[4]])
                c = ctx.pfresh('cofactor')
                ctx.pfact(vals[f[1]] * vals[f[2]] - vals[f[3]] - c * vals[f[4]] == 0)
            else:
                ctx.pfact(self.cond(f, vals))

    def keep(self, ctx, vals):
        """drop what is not proved; True if something was dropped"""
        bad = []
        for f in self.cands:
            STATS['locations'] += 1
            try:
                c = self.cond(f, vals)
                ok = c if isinstance(c, bool) else ctx.holds(c)
            except (Undecided, KeyError, ZeroDivisionError):
                ok = False
            if not ok:
                bad.append(f)
        if bad and engine.DEBUG:
            print('dropped', bad)
        self.cands = [f for f in self.cands if f not in bad]
        return bool(bad)


def templates(ctx, names, params, samples, group=()):
    """candidate facts for integers; names: changing ones, params: fixed ones"""
    out = []
    samples = list(samples)
    allv = list(names) + [p for p in params if p not in names]
    if samples:
        have = [n for n in allv if all(n in s for s in samples)]
        for e in equations(samples, have, need=names):
            out.append(('eq', e))

    def fits(f):
        try:
            for s in samples:
                if f[0] == 'ge' and not s[f[1]] >= f[2] or f[0] == 'lt' and not s[f[1]] < s[f[2]] or f[0] == 'le' and not s[f[1]] <= s[f[2]]:
                    return False
                if f[0] == 'gcd' and (math.gcd(s[f[1]], s[f[2]]) != math.gcd(s[f[3]], s[f[4]]) if f[4] is not None else s[f[1]] != math.gcd(s[f[2]], s[f[3]])):
                    return False
                if f[0] == 'cong' and (s[f[1]] * s[f[2]] - s[f[3]]) % s[f[4]]:
                    return False
        except (KeyError, ZeroDivisionError):
            return False
        return True
    more = []
    for n in names:
        more += [('ge', n, 0), ('ge', n, 1)]
        for p in params:
            more += [('lt', n, p), ('le', n, p)]
        if n in group:
            out.append(('nz', n))
    if samples:
        for x, y in itertools.combinations(params, 2):
            more += [('gcd', n, k, x, y) for n, k in itertools.combinations(names, 2)]
            more += [('cong', n, x, k, y) for n in names for k in names if n != k]
            more += [('cong', n, y, k, x) for n in names for k in names if n != k]
    return out + [f for f in more if fits(f)]


# ------------------------------------------------------------------ loops
class IntLoop(engine.Loop):
    """a while loop, cut where its condition has been found true"""

    def __init__(self, ctx, site, names):
        super().__init__(ctx, site, names)
        self.n = 0
        self.state = 'native'
        self.queue = []
        self.symbolic = False
        self.peeled = False

    def gloc(self, loc):
        return loc

    def ikey(self):
        """facts about a loop are shared by the paths that reach it (loops of one path are told apart by their number)"""
        return (self.site, self.key[2], self.key[3])

    def head(self, loc):
        c, E = self.ctx, self.ctx.eng
        self.sync = False
        if c.sampling is not None:
            self.loc = dict(loc)
            self.queue = ['sample']
            return
        if self.key is None:
            self.key = self.mkkey()
            self.symbolic = self.key in E.symsites
            # a loop of a generator whose consumer's loop is cut is part of that loop
            self.inner = any(g.gen.gi_running for g in c.gens)
        if self.inner or not self.symbolic:
            self.n += 1
            if self.n == 1:
                self.pos0 = c.pos
            if self.n > 3 and c.pos - self.pos0 >= self.n - 1 and not self.inner:
                raise _Sym(self.key)            # every iteration forks
            if self.n > 5000:
                raise Undecided('loop does not end')
            self.queue = ['inner' if self.inner else 'native']
            return
        self.loc = dict(loc)
        self.queue = ['entry' if self.state == 'native' else 'test']
        self.pos1 = c.pos

    def probe(self):
        if not self.queue:
            return False
        if self.queue[0] == 'native' and self.ctx.incond is None:
            self.ctx.incond = _Sym(self.key)
            self.mine = True
        return True

    def cond(self, v, loc):
        q = self.queue.pop(0)
        c = self.ctx
        if q == 'native':
            v = bool(v)
            c.incond = None
            self.go = v
            return
        v = self.go = bool(v)
        if not v or q == 'inner':
            return
        if q == 'sample':
            c.sampling(self.site, self.loc)
            return
        if q == 'entry':
            if not self.peeled and c.pos == self.pos1:
                self.peeled = True          # a first iteration that is certain is executed as it is
                return
            self.cut(self.loc)
        else:
            self.back(self.loc)

    # -- cut: arbitrary iteration
    def cut(self, loc):
        c, E = self.ctx, self.ctx.eng
        STATS['loops'] += 1
        self.state = 'iter'
        self.myprefix = c.pos
        self.draws = c.n_urandom
        self.s0 = Snap(loc)
        info = self.info = E.loops.get(self.ikey())
        if info is None:
            info = self.info = E.loops[self.ikey()] = dict(havoc={}, facts=None, dropped=[])
        c.loops.append(self)
        self.values = {n: self.s0.bind.get(('L', n), MISSING) for n in self.names}
        vals0 = self.ints(self.s0.bind)
        if info['facts'] is None and info['havoc']:
            names = [pname(p) for p, k in info['havoc'].items() if k in ('int', 'X', 'Y', 'bytes')]
            group = [pname(p) for p, k in info['havoc'].items() if k in ('X', 'Y')]
            info['facts'] = Facts(templates(c, names, list(c.params), E.samples(self.site, info['havoc']), group))
            if engine.DEBUG:
                print('candidates', self.site, info['havoc'], info['facts'].cands)
        if info['facts'] is not None:
            if info['facts'].keep(c, dict(vals0, **c.params)):
                pass
        fresh = {}
        for path, kind in sorted(info['havoc'].items(), key=lambda i: (depth(i[0]), pname(i[0]))):
            n = pname(path)
            v0 = self.s0.bind.get(path, MISSING)
            if kind == 'int':
                v = fresh[n] = c.pfresh(n)
            elif kind in ('X', 'Y'):
                v = fresh[n] = c.pfresh('index of ' + n)
            elif kind == 'bytes':
                v = fresh_rope(c, n, v0)
                if is_draw(c, v0) and path not in info.setdefault('norandom', set()):
                    c.draw.append(v)
                fresh[n] = c.int_of(v, 'big')
            else:
                v = Poison('%s in loop %s' % (n, self.site))
            info.setdefault('val', {})[path] = v
        if info['facts'] is not None:
            info['facts'].assume(c, dict(fresh, **c.params))
        self.oldvals = fresh
        tuples = {}
        for path, kind in sorted(info['havoc'].items(), key=lambda i: (depth(i[0]), pname(i[0]))):
            v = info['val'][path]
            if kind == 'int':
                v = c.norm_value(v)
            if kind == 'X':
                v = c.X(v)
            elif kind == 'Y':
                v = c.Y(v)
            if path[0] == 'I' and type(self.s0.bind.get(path[1])) is tuple:
                tuples.setdefault(path[1], list(self.s0.bind[path[1]]))[path[2]] = v
                continue
            if path[0] == 'I' and path[1] not in self.s0.bind:
                continue                # element of a value that does not exist yet
            self.put(path, v, self.s0)
        for path, l in tuples.items():
            self.put(path, tuple(l), self.s0)
        self.sync = True

    def ints(self, bind, havoc=None):
        out = {}
        for path, kind in (self.info['havoc'] if havoc is None else havoc).items():
            v = bind.get(path, MISSING)
            n = pname(path)
            if kind == 'int' and as_int(v):
                out[n] = v
            elif kind in ('X', 'Y'):
                k = coord_kind(v)
                if k is not None and k[0] == kind:
                    out[n] = mk(k[1])
            elif kind == 'bytes' and to_pieces(v) is not None:
                x = self.ctx.int_of(SBytes(to_pieces(v)), 'big')
                out[n] = int.from_bytes(bytes(SBytes(to_pieces(v)).vec()), 'big') if x is None else x
        return out

    # -- back edge
    def back(self, loc):
        c, info = self.ctx, self.info
        s1 = Snap(loc)
        changed = False
        for path in set(self.s0.bind) | set(s1.bind):
            v0, v1 = self.s0.bind.get(path, MISSING), s1.bind.get(path, MISSING)
            kind = info['havoc'].get(path)
            if kind == 'poison':
                continue
            if path[0] == 'I':
                up = path[1]
                if info['havoc'].get(up) == 'poison':
                    continue
                if MISSING in (v0, v1):
                    continue            # the container itself is treated
            if kind is None:
                if same_value(c, v0, v1):
                    continue
                if type(v0) is tuple and type(v1) is tuple and len(v0) == len(v1) and path[0] != 'I':
                    continue            # its elements are treated
                k0, k1 = coord_kind(v0), coord_kind(v1)
                if k0 and k1 and k0[0] == k1[0]:
                    kind = k0[0]
                elif as_int(v0) and as_int(v1):
                    kind = 'int'
                elif is_rope(v0) and is_rope(v1) and v0.mutable == v1.mutable and core.same(v0.length(), v1.length()):
                    kind = 'bytes'
                else:
                    kind = 'poison'
                if engine.DEBUG:
                    print('changes', pname(path), kind, v0, v1)
                info['havoc'][path] = kind
                changed = True
            elif kind in ('X', 'Y'):
                k1 = coord_kind(v1)
                if k1 is None or k1[0] != kind:
                    info['havoc'][path] = 'int' if as_int(v1) else 'poison'
                    changed = True
            elif kind == 'int' and not as_int(v1) or kind == 'bytes' and not (is_rope(v1) and core.same(v0.length(), v1.length())):
                info['havoc'][path] = 'poison'
                changed = True
        for i, (o, p0, path) in self.s0.cont.items():
            if not same_rope(c, o.p, p0) and info['havoc'].get(path) is None:
                raise Unproved('a buffer is changed in place in a loop')
        for path, kind in info['havoc'].items():
            if kind == 'bytes' and path not in info.setdefault('norandom', set()) and not is_draw(c, s1.bind[path]):
                info['norandom'].add(path)
                changed = True
        if changed:
            info['facts'] = None
            info['val'] = {}
            raise Restart(self)
        if info['facts'] is not None and info['facts'].keep(c, dict(self.ints(s1.bind), **c.params)):
            raise Restart(self)
        STATS['iterchecks'] += 1
        self.progress(s1)
        raise PathEnd()

    def progress(self, s1):
        """termination: a fresh random draw is made, or a non-negative value decreases, or one bounded above increases"""
        c = self.ctx
        if c.n_urandom > self.draws:
            c.random_progress = True
            return
        old, new = self.oldvals, self.ints(s1.bind)
        for n in sorted(new):
            if n in old and c.holds(old[n] >= 0) and c.holds(new[n] < old[n]):
                return
        for n in sorted(new):
            if n in old and c.holds(new[n] > old[n]):
                for b in list(c.params.values()) + [v for k, v in self.s0.bind.items() if as_int(v) and k not in self.info['havoc']]:
                    if c.holds(old[n] <= b):
                        return
        if c.impossible():
            return
        raise Unproved('loop %s is not known to end' % self.site)


class GenLoop(IntLoop):
    """for x in generator: the generator's local variables are part of the state"""

    def __init__(self, ctx, site, gen, names):
        super().__init__(ctx, site, names)
        self.gen = gen
        ctx.gens.append(self)
        self.concrete = False
        self.cur = None

    def gloc(self, loc):
        d = dict(loc)
        for k, v in self.gen.gi_frame.f_locals.items():
            if not k.startswith('__vc'):
                d['@' + k] = v
        return d

    def advance(self, native):
        c = self.ctx
        if native and c.incond is None and c.sampling is None:
            c.incond = _Sym(self.key)
        try:
            self.cur = next(self.gen)
            return True
        except StopIteration:
            return False
        finally:
            if native:
                c.incond = None

    def enter(self, loc):
        c, E = self.ctx, self.ctx.eng
        self.sync = False
        if c.sampling is not None:
            r = self.advance(True)
            if r:
                c.sampling(self.site, self.gloc(loc))
            return r
        if self.key is None:
            self.key = self.mkkey()
            self.symbolic = self.key in E.symsites
        if not self.symbolic:
            self.n += 1
            if self.n > 5000:
                raise Undecided('loop does not end')
            return self.advance(True)
        if not self.advance(False):
            return False
        if self.state == 'native':
            names = self.names
            gl = self.gloc(loc)
            self.names = tuple(names) + tuple(k for k in gl if k[0] == '@')
            self.cut(gl)
            g = {k[1:]: v for k, v in self.values.items() if k[0] == '@' and v is not MISSING}
            self.cur = self.gen.send(g)
        else:
            self.back(self.gloc(loc))
        return True

    def item(self):
        return self.cur


def is_rope(v):
    return isinstance(v, SBytes)


def is_draw(c, v):
    """a value drawn at random on this path"""
    return any(same_rope(c, v.p, d.p) for d in c.draw)


def fresh_rope(c, n, v0):
    c.nfresh += 1
    b = c.base('%s!%d' % (n, c.nfresh))
    return (SBytearray if v0.mutable else SBytes)([Slice(b, 0, v0.length())])


def same_rope(c, p, q):
    if p is q or list(p) == list(q):
        return True
    try:
        return core.same(SBytes(p).length(), SBytes(q).length()) and engine.fold_diff(c, list(p), list(q)) is None
    except Undecided:
        return False


def same_value(c, a, b):
    if a is b:
        return True
    if as_int(a) and as_int(b):
        return not c.norm(padd(poly(a), poly(b), -1))
    if is_rope(a) and is_rope(b):
        return a.mutable == b.mutable and not a.mutable and same_rope(c, a.p, b.p)
    if type(a) is type(b) and isinstance(a, (str, bool, type(None), bytes)):
        return a == b
    if type(a) is type(b) and type(a) in (tuple, list):
        return len(a) == len(b) and type(a) is tuple and all(same_value(c, x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ recursion
def recursive(c, site, f, a, k):
    E = c.eng
    if k or not all(as_int(x) for x in a):
        return f(*a, **k)
    if c.sampling is not None:
        r = f(*a)
        c.sampling(site, dict({'a%d' % i: x for i, x in enumerate(a)}, **result_names(r)))
        return r
    if all(isinstance(x, int) for x in a):
        return f(*a)
    key = ('rec', site)
    info = E.loops.get(key)
    if info is None:
        ss = E.samples(site, None)
        an = ['a%d' % i for i in range(len(a))]
        rn = sorted({n for s in ss for n in s if n[0] == 'r'})
        if not ss:
            raise Undecided('no concrete run of %s' % site)
        pre = Facts(templates(c, an, [], [{n: s[n] for n in an} for s in ss]))
        pre.cands = [x for x in pre.cands if x[0] != 'eq']
        pre.cands += [('or', x, 0, y, 1) for x in an for y in an if x != y and all(s[x] >= 0 or s[y] >= 1 for s in ss)]
        post = Facts([x for x in templates(c, rn, an, ss) if x[0] == 'eq' or x[0] == 'ge'])
        for r in rn:
            for x, y in itertools.combinations(an, 2):
                if all(s[r] == math.gcd(s[x], s[y]) for s in ss):
                    post.cands.append(('gcd', r, x, y, None))
        info = E.loops[key] = dict(pre=pre, post=post, shape=sorted(set(s.get('shape', 0) for s in ss)))
        if engine.DEBUG:
            print('candidates', site, pre.cands, post.cands)
    pos = c.pos
    args = {'a%d' % i: x for i, x in enumerate(a)}
    if info['pre'].keep(c, args):
        c.eng.symsites.add(('restart', site, len(info['pre'].cands)))
        raise Restart(None)
    if not c.recdepth.get(site):
        if c.choose(['body of %s' % site, 'contract of %s' % site]) == 0:
            fresh = {n: c.pfresh(n) for n in args}
            info['pre'].assume(c, fresh)
            c.recdepth[site] = fresh
            r = f(*[fresh['a%d' % i] for i in range(len(a))])
            vals = dict(fresh, **result_names(r))
            vals.pop('shape')
            if info['post'].keep(c, vals):
                raise Restart(None)
            STATS['iterchecks'] += 1
            raise PathEnd()
    else:
        outer = c.recdepth[site]
        if not any(c.holds(cond('<=', padd({}, poly(args[n]), -1))) and c.holds(cond('<', padd(poly(args[n]), poly(outer[n]), -1))) for n in args):
            raise Unproved('recursion of %s is not known to end' % site)
    shape = info['shape'][0]
    rs = [c.pfresh('%s result' % site.split('#')[0].split(':')[-1]) for _ in range(max(1, shape))]
    info['post'].assume(c, dict(args, **{'r%d' % i: x for i, x in enumerate(rs)}))
    rs = [c.norm_value(x) for x in rs]
    return tuple(rs) if shape else rs[0]


def result_names(r):
    if isinstance(r, tuple):
        return dict({'r%d' % i: x for i, x in enumerate(r)}, shape=len(r))
    return {'r0': r, 'shape': 0}


class IntEngine(Engine):
    """sampler: called with a recorder; runs the code on concrete numbers"""
    ctxclass = IntCtx

    def __init__(self, *a, sampler=None, **k):
        super().__init__(*a, **k)
        self.sampler = sampler
        self.sampled = None

    def path_case(self, ctx):
        pass

    def suggest(self, ctx):
        self.path_case(ctx)

    path_hint = suggest

    def samples(self, site, havoc):
        if self.sampled is None:
            self.sampled = {}
            if self.sampler is not None:
                cur = core.C
                e = IntEngine(1, 60)
                c = IntCtx(e, [])
                core.set_ctx(c)
                try:
                    self.sampler(c, self.sampled)
                finally:
                    c.live = False
                    core.set_ctx(cur)
        out = []
        for s, tr in self.sampled.get(site, []):
            if havoc is None:
                out.append({n: v for n, v in s.items() if isinstance(v, int)})
                continue
            bind = Snap({k: v for k, v in s.items()}).bind
            d = dict(tr.get('params', {}))
            for path, kind in havoc.items():
                v = bind.get(path, MISSING)
                if isinstance(v, int) and kind == 'int':
                    d[pname(path)] = v
                elif isinstance(v, int) and kind in ('X', 'Y'):
                    i = tr[kind].get(v)
                    if i is not None:
                        d[pname(path)] = i
                elif kind == 'bytes' and is_rope(v):
                    d[pname(path)] = int.from_bytes(bytes(v.vec()), 'big')
            out.append(d)
        return out
