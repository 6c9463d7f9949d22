"""Path exploration, path conditions and loops with discovered, checked invariants.

A contract is a Python function task(ctx) that builds an arbitrary state satisfying a precondition,
calls the real (instrumented) code and states postconditions with ctx.check / ctx.equal.  The engine
runs it once per feasible path by re-execution.  A loop whose trip count is symbolic is never
unrolled: one iteration from the entry state suggests how every location changes, that suggestion is
the candidate invariant, it is assumed at an arbitrary iteration tau, the body is run, and the
candidate is required at tau + 1; what fails is weakened (finally to "unknown") and the proof starts
again.  After the loop the invariant holds at the trip count.  So all iterations are covered.
"""
import json
import math
import os
import time
import traceback
import z3

from . import core, model
from .core import (A, PathEnd, Undecided, Unproved, Restart, Poison, SInt, SLin, SLinShr, SBool, SBytes, SBytearray, Slice, Fill,
                   NonBytes, OpaqueUse, norm_pieces, rope_diff, to_pieces, plen, OFFS, Div, Var)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
DEBUG = bool(os.environ.get('PYVC_DEBUG'))
MISSING = type('Missing', (), {'__repr__': lambda s: 'MISSING'})()
STATS = {'z3': 0, 'z3_s': 0.0, 'paths': 0, 'loops': 0, 'iterchecks': 0, 'locations': 0}


RANK = {'undecided': 0, 'unproved': 1, 'failed': 2}


class Ctx:
    count = 0

    def __init__(self, eng, decisions):
        self.eng = eng
        Ctx.count += 1
        self.serial = Ctx.count
        self.dec = decisions            # list of [choice, n]
        self.pos = 0
        self.live = True
        self.pending = None
        self.eqs = {}                   # pivot bit -> mask (fully reduced)
        self.pmask = 0
        self.nz = []                    # lists of masks not all zero
        self.lins = []                  # (op, SLin) facts
        self.sub = {}                   # var name -> SLin/int
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.vb = {}
        self.yes = set()
        self.no = {}
        self.ver = 0
        self.bases = {}
        self.dcache = {}
        self.gclean = self.gdirty = 0
        self.fcache = {}
        self.loopseq = 0
        self.tn = 0
        self.discover = 0
        self.loops = []
        self.obs = []
        self.fresh_n = 0
        self.contract = None
        self.shared = {}                # id -> (obj, name): module constants and caller buffers
        self.touched = []
        self.known = None
        self.weak = False
        self.from_bytes = None
        self.sampling = None
        self.n_urandom = 0
        self.rand = None
        self.trace = []
        self.incond = None
        self.policy = 0             # which branch a discovery run takes
        self.guessed = False

    # ---------------- values
    def var(self, name, lo=None, hi=None):
        v = SLin.var(name)
        OFFS[v.key()] = v
        self.vb.setdefault(name, (None, None))
        small = self.eng.small
        fixed = self.eng.fixed
        if fixed is not None and name in fixed:
            if isinstance(hi, SLin):
                self.assume(v <= hi)
            if isinstance(lo, SLin):
                self.assume(v >= lo)
            if isinstance(lo, int) and fixed[name] < lo or isinstance(hi, int) and fixed[name] > hi:
                raise PathEnd()
            self._setb(name, fixed[name], fixed[name], v)
            self.concretize(v)
            return v
        if small is not None and isinstance(lo, int) and not name.startswith(('_t', 'hist_')) and (hi is None or not isinstance(hi, int) or hi - lo > 20):
            if hi is not None and not isinstance(hi, int):
                self.assume(v <= hi)
            hi = lo + small
            self._setb(name, lo, hi, v)
            self.concretize(v)
            return v
        if lo is not None:
            self.assume(v >= lo) if not isinstance(lo, int) else self._setb(name, lo, None, v)
        if hi is not None:
            self.assume(v <= hi) if not isinstance(hi, int) else self._setb(name, None, hi, v)
        return v

    def _setb(self, name, lo, hi, v):
        a, b = self.vb[name]
        if lo is not None and (a is None or lo > a):
            a = lo
            self.solver.add(v.z() >= lo)
        if hi is not None and (b is None or hi < b):
            b = hi
            self.solver.add(v.z() <= hi)
        self.vb[name] = (a, b)
        self.ver += 1

    def base(self, name, defn=None):
        b = core.Base(name, defn)
        self.bases[name] = b
        return b

    def fresh(self, name, n, mutable=False):
        self.fresh_n += 1
        return core.fresh_bytes('%s' % name, n, mutable)

    def urandom(self, n):
        self.n_urandom += 1
        if self.rand is not None:
            return self.rand(n, self.n_urandom)
        if isinstance(n, int):
            return core.fresh_bytes('urandom%d' % self.n_urandom, n)
        b = self.base('urandom%d' % self.n_urandom)
        return core.rope(b, 0, n)

    # ---------------- GF(2) facts
    def _lred(self, m):
        p = m & self.pmask
        while p:
            b = p.bit_length() - 1
            m ^= self.eqs[b]
            p ^= 1 << b
            p &= m
        return m

    def red(self, m):
        if not self.eqs:
            return m
        m = self._lred(m)
        return self._refn(m, 0)

    def _refn(self, m, depth):
        r = m
        for i in core.setbits(m & ~1):
            low = 1 << i
            d = core.A.desc[i]
            if d[0] == 'fn':
                v = self._fnval(i, d, depth)
                if v is not None:
                    r ^= low ^ v
        return self._lred(r) if r != m else m

    def _fnval(self, i, d, depth):
        """re-evaluated function atom when its rows are no longer independent under the path facts"""
        if depth > 40:
            return None
        if i in self.fcache:
            return self.fcache[i]
        rows, tt = d[1], d[2]
        new = [self._refn(self._lred(r), depth + 1) for r in rows]
        if new == list(rows):
            self.fcache[i] = None
            return None
        R, ex = core.rref(new)
        t = 0
        for a in range(1 << len(R)):
            k = 0
            for j, (c, comb) in enumerate(ex):
                if c ^ (bin(comb & a).count('1') & 1):
                    k |= 1 << j
            if tt >> k & 1:
                t |= 1 << a
        v = (t & 1) if not R else core.fn_bit(R, t) if t else 0
        v = self._lred(v)
        self.fcache[i] = v
        return v

    def addeq(self, m, val):
        """assume mask m == val; False if contradictory"""
        m = self.red(m) ^ (1 if val else 0)
        if m == 0:
            return True
        if m == 1:
            return False
        p = m.bit_length() - 1
        for q in list(self.eqs):
            if self.eqs[q] >> p & 1:
                self.eqs[q] ^= m
        self.eqs[p] = m
        self.pmask |= 1 << p
        self.ver += 1
        self.fcache = {}
        self.dcache = {}
        self.gclean = self.gdirty = 0
        for ms in self.nz:
            if all(self.red(x) == 0 for x in ms):
                return False
        return True

    # ---------------- unfolding of ghost arrays
    def unf(self, m):
        """normal form of a mask: defined ghost elements unfolded, offsets canonical, path facts applied"""
        if not self.eqs and not self.bases:
            return m
        for _ in range(200):
            r = m
            for i in core.setbits(m & ~1):
                v = self._unfatom(i)
                if v is not None:
                    r ^= 1 << i ^ v
            r = self.red(r)
            if r == m:
                return r
            m = r
        raise Undecided('unfolding does not end')

    def _unfatom(self, i):
        d = core.A.desc[i]
        if not self.eqs and d[0] != 'arr':
            if i in self.dcache:
                return self.dcache[i]
            u = core.A.dep(i)
            n = u & ~(self.gclean | self.gdirty)
            while n:
                low = n & -n
                n ^= low
                b, k = core.A.groups[low.bit_length() - 1]
                x = [core.A.ids[('arr', b, k, q)] for q in range(8) if ('arr', b, k, q) in core.A.ids]
                if any(self._unfatom(j) is not None for j in x):
                    self.gdirty |= low
                else:
                    self.gclean |= low
            if not u & self.gdirty:
                return None
        if d[0] == 'arr':
            if i in self.dcache:
                return self.dcache[i]
            v = None
            b = self.bases.get(d[1])
            if b is not None:
                off = OFFS.get(d[2])
                c = self.canon(off)
                ck = core.okey(c)
                byte = b.unfold(c) if b.unfold is not None else None
                if byte is not None:
                    v = core.elem_bits(byte)[d[3]]
                elif ck != d[2]:
                    v = core.elem_bits(SBytes.elem_of(b, c))[d[3]]
            self.dcache[i] = v
            return v
        if d[0] == 'lin':
            if i in self.dcache:
                return self.dcache[i]
            lin = OFFS[d[1]]
            c = self.canon(lin)
            v = None
            if isinstance(c, int):
                v = c >> d[2] & 1
            else:
                lo, hi = self.bounds(c)
                if lo is not None and hi is not None and lo >= 0 and d[2] >= hi.bit_length():
                    v = 0
                elif c.key() != d[1]:
                    OFFS.setdefault(c.key(), c)
                    v = core.A.get(('lin', c.key(), d[2]))
            self.dcache[i] = v
            return v
        if d[0] == 'fn':
            if i in self.dcache:
                return self.dcache[i]
            rows = d[1]
            new = [self.unf(r) for r in rows]
            if new == list(rows):
                v = None
            else:
                R, ex = core.rref(new)
                t = 0
                for a in range(1 << len(R)):
                    k = 0
                    for j, (c, comb) in enumerate(ex):
                        if c ^ (bin(comb & a).count('1') & 1):
                            k |= 1 << j
                    if d[2] >> k & 1:
                        t |= 1 << a
                v = (t & 1) if not R else core.fn_bit(R, t) if t else 0
            self.dcache[i] = v
            return v
        if d[0] == 'uf':
            # ('uf', name, args (tuple of masks), bit)
            if i in self.dcache:
                return self.dcache[i]
            k = ('args', id(d[2]))
            new = self.dcache.get(k)
            if new is None:
                new = tuple(self.unf(r) for r in d[2])
                new = type(d[2])(new)
                new = self.dcache[k] = d[2] if new == d[2] else core.A.args.setdefault(new, new)
            v = core.A.get(('uf', d[1], new, d[3])) if new is not d[2] else None
            if v is not None and getattr(self.contract, 'uf_norm', None) is not None:
                k = ('norm', d[1], id(new))
                w = self.dcache.get(k)
                if w is None:
                    w = self.dcache[k] = (self.contract.uf_norm(d[1], new), new)
                if w[0] is not None:
                    v = core.elem_bits(w[0][d[3] >> 3])[d[3] & 7]
            self.dcache[i] = v
            return v
        if d[0] == 'sum':
            if i in self.dcache:
                return self.dcache[i]
            items, c, K = d[1], d[2], d[3]
            new = {}
            cc = c
            ch = False
            for m, w in items:
                u = self.unf(m)
                if u != m:
                    ch = True
                if u & 1:
                    cc += w
                    u ^= 1
                    if u:
                        new[u] = new.get(u, 0) - w
                elif u:
                    new[u] = new.get(u, 0) + w
            v = None
            if ch:
                x = SInt(None, {m: w for m, w in new.items() if w}, cc, 0)
                v = x._bit(K)
            self.dcache[i] = v
            return v
        return None

    # ---------------- linear facts
    def canon(self, lin):
        if isinstance(lin, int) or not self.sub:
            return lin
        if isinstance(lin, SLin):
            ch = False
            for x in lin.t:
                if isinstance(x, Var) and x.name in self.sub or isinstance(x, Div):
                    ch = True
            if not ch:
                return lin
            r = lin.c
            for x, v in lin.t.items():
                if isinstance(x, Var):
                    s = self.sub.get(x.name)
                    r = r + (self.canon(s) * v if s is not None else SLin({x: v}, 0))
                else:
                    q = self.canon(x.lin)
                    if isinstance(q, int):
                        r = r + (q // x.n) * v
                    else:
                        y = q // x.n
                        r = r + y * v
            return r
        return lin

    def bounds(self, lin):
        if isinstance(lin, int):
            return lin, lin
        lo = hi = lin.c
        for x, v in lin.t.items():
            if isinstance(x, Var):
                a, b = self.vb.get(x.name, (None, None))
            else:
                a, b = self.bounds(x.lin)
                a = None if a is None else a // x.n
                b = None if b is None else b // x.n
            if v < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        return lo, hi

    def _z(self, op, lin):
        z = lin.z()
        return z < 0 if op == '<' else z <= 0 if op == '<=' else z == 0

    def entails(self, op, lin):
        if isinstance(lin, int):
            return lin < 0 if op == '<' else lin <= 0 if op == '<=' else lin == 0
        lin = self.canon(lin)
        if isinstance(lin, int):
            return self.entails(op, lin)
        lo, hi = self.bounds(lin)
        if op == '<':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
        k = (op, lin.key())
        if k in self.yes:
            return True
        if self.no.get(k) == self.ver:
            return False
        r = self._check(z3.Not(self._z(op, lin)))
        if r == z3.unsat:
            self.yes.add(k)
            return True
        self.no[k] = self.ver
        return False

    def _check(self, *zs):
        t = time.time()
        STATS['z3'] += 1
        self.solver.push()
        self.solver.add(*zs)
        r = self.solver.check()
        self.solver.pop()
        STATS['z3_s'] += time.time() - t
        return r

    def assume_lin(self, op, lin, neg):
        """add a linear fact"""
        if isinstance(lin, int):
            t = self.entails(op, lin)
            if t == neg:
                raise PathEnd()
            return
        z = self._z(op, lin)
        self.solver.add(z3.Not(z) if neg else z)
        self.ver += 1
        self.dcache = {}
        self.gclean = self.gdirty = 0
        if neg:
            if op == '<':
                op, lin, neg = '<=', -lin, False        # lin >= 0
            elif op == '<=':
                op, lin, neg = '<', -lin, False         # lin > 0
        if not neg:
            self.lins.append((op, lin))
            c = self.canon(lin)
            if isinstance(c, SLin) and len(c.t) == 1 and isinstance(next(iter(c.t)), Var):
                x, v = next(iter(c.t.items()))
                a, b = self.vb.get(x.name, (None, None))
                # v*x + c (op) 0
                k = -c.c
                if op == '==':
                    if k % v == 0:
                        a = b = k // v
                else:
                    if op == '<':
                        k -= 1
                    if v > 0:
                        u = k // v
                        b = u if b is None else min(b, u)
                    else:
                        l = -(k // -v) if k >= 0 else -(k // -v)
                        l = -(k // (-v))
                        a = l if a is None else max(a, l)
                self.vb[x.name] = (a, b)
                if a is not None and a == b:
                    self.solve(SLin({x: 1}, -a))
                    return
            if op == '==':
                self.solve(c)
            else:
                # an inequality may pin a linear term
                if isinstance(c, SLin) and self.entails('==', c):
                    self.solve(c)

    def solve(self, c):
        """use the equation c == 0 to eliminate a variable (loop indices first)"""
        if not isinstance(c, SLin):
            return
        g = math.gcd(c.c, *c.t.values())
        if g > 1:
            c = SLin({x: v // g for x, v in c.t.items()}, c.c // g)
        cs = [(x, v) for x, v in c.t.items() if isinstance(x, Var) and v in (1, -1) and x.name not in self.sub]
        if not cs:
            return
        cs.sort(key=lambda i: (not i[0].name.startswith('_t'), i[0].name))
        x, v = cs[0]
        rest = SLin({y: w for y, w in c.t.items() if y is not x and y.key() != x.key()}, c.c).simp()
        for y in (rest.t if isinstance(rest, SLin) else ()):
            if isinstance(y, Div) and x.name in y.key():
                return
        self.sub[x.name] = -rest if v == 1 else rest
        self.dcache = {}
        self.gclean = self.gdirty = 0

    def assume(self, b):
        """precondition"""
        if isinstance(b, SBool):
            if b.kind == 'lin':
                self.assume_lin(b.v[0], b.v[1], b.neg)
                return
            ok = True
            if b.kind == 'bit':
                ok = self.addeq(b.v, not b.neg)
            elif not b.neg:
                for m in b.v:
                    ok = ok and self.addeq(m, 0)
            else:
                self.nz.append(b.v)
            if not ok:
                raise PathEnd()
        elif not b:
            raise PathEnd()

    def feasible(self):
        return self.solver.check() != z3.unsat

    # ---------------- forking
    def choose(self, opts):
        """opts: list of labels; index of the branch taken on this path"""
        if len(opts) == 1:
            return 0
        if self.discover:
            if DEBUG:
                print('choice in discovery', opts)
            self.guessed = True
            return len(opts) - 1 if self.policy else 0
        if self.incond is not None:
            raise self.incond
        if self.pos < len(self.dec):
            c = self.dec[self.pos][0]
        else:
            c = 0
            self.dec.append([0, len(opts)])
            if len(self.dec) > 3000:
                raise Undecided('too many decisions on one path')
        self.pos += 1
        self.trace.append(opts[c])
        return c

    def decide(self, b):
        if self.pending is not None:
            e, self.pending = self.pending, None
            raise e
        if b.kind == 'lin':
            op, lin = b.v
            if self.entails(op, lin):
                return not b.neg
            c = self.canon(lin)
            t = None
            if isinstance(c, int):
                t = False
            elif op == '==':
                t = None if self._check(self._z(op, c)) != z3.unsat else False
            elif op == '<' and self.entails('<=', -c) or op == '<=' and self.entails('<', -c):
                t = False
            if t is False:
                return b.neg
            k = self.choose(['%s %s 0' % (c.key(), op), 'not %s %s 0' % (c.key(), op)])
            self.assume_lin(op, c, k == 1)
            return (k == 0) != b.neg
        if b.kind == 'bit':
            m = self.unf(b.v)
            if m <= 1:
                return bool(m) != b.neg
            k = self.choose(['bit', 'not bit'])
            if not self.addeq(m, k == 0):
                raise PathEnd()
            return (k == 0) != b.neg
        ms = [x for x in (self.unf(x) for x in b.v) if x]
        if not ms:
            return not b.neg
        if 1 in ms:
            return b.neg
        for f in self.nz:
            if set(f) <= set(ms) or set(self.red(x) for x in f) <= set(ms) | {0}:
                return b.neg
        k = self.choose(['nonzero', 'zero'])
        if k == 1:
            for m in ms:
                if not self.addeq(m, 0):
                    raise PathEnd()
        else:
            self.nz.append(tuple(ms))
        return (k == 1) != b.neg

    def concretize(self, lin):
        lin = self.canon(lin)
        if isinstance(lin, int):
            return lin
        lo, hi = self.bounds(lin)
        if lo is None or hi is None:
            for v in ((lo,) if lo is not None else ()) + ((hi,) if hi is not None else ()):
                if self.entails('==', lin - v):
                    return v
            s = self.solver
            if s.check() == z3.sat:
                v = s.model().eval(lin.z(), model_completion=True)
                v = v.as_long()
                if self.entails('==', lin - v):
                    return v
            # try to find small bounds
            if lo is None:
                for c in (0, -1):
                    if self.entails('<=', SLin({}, c) - lin):
                        lo = c
                        break
            if hi is None:
                for c in (8, 16, 32, 64, 128, 256):
                    if self.entails('<=', lin - c):
                        hi = c
                        break
            if lo is None or hi is None:
                raise Undecided('a size or index that can take unboundedly many values is needed exactly: %s' % lin.key())
        if hi - lo > 600:
            raise Undecided('a size or index with more than 600 values is needed exactly: %s' % lin.key())
        vals = []
        for v in range(lo, hi + 1):
            if self._check(lin.z() == v) != z3.unsat:
                vals.append(v)
        if not vals:
            raise PathEnd()
        if len(vals) == 1:
            self.assume_lin('==', lin - vals[0], False)
            return vals[0]
        k = self.choose(['%s = %d' % (lin.key(), v) for v in vals])
        self.assume_lin('==', lin - vals[k], False)
        return vals[k]

    def written(self, obj):
        i = id(obj)
        if i in self.shared:
            self.touched.append(self.shared[i][1])
        if self.known is not None and i not in self.known and obj.owner != 'fresh':
            pass

    # ---------------- obligations
    def check(self, name, ok, detail='', masks=None, lin=None, soft=False):
        """ok: bool or SBool (must hold on this path); masks / lin: what must be one / nonzero in a counterexample;
        soft: a statement about the representation only, sufficient but not necessary: its failure is no refutation"""
        if isinstance(ok, SBool):
            if ok.kind == 'lin':
                v = self.entails(*ok.v) if not ok.neg else self.valid_neg(ok)
                if not v:
                    z = self._z(*ok.v)
                    lin = z if ok.neg else z3.Not(z)
            elif ok.kind == 'bit':
                m = self.unf(ok.v)
                v = m == (0 if ok.neg else 1)
                masks = [m if ok.neg else m ^ 1]
            elif not ok.neg:
                ms = [self.unf(m) for m in ok.v]
                v = not any(ms)
                masks = [m for m in ms if m]
            else:
                v = any(self.unf(m) == 1 for m in ok.v)
                if not v:
                    # a counterexample needs all of them zero: not searched for
                    self.obs.append((name, None if soft else 'unproved', detail))
                    return False
            ok = v
        if ok:
            self.obs.append((name, True, ''))
            return True
        ok = False
        if self.weak:
            ok = None
            detail = 'invariant too weak: ' + detail
        elif self.eng.modelled < 12:
            self.eng.modelled += 1
            e = model.search(self, masks or [], extra=[] if lin is None else [lin])
            if e is None:
                ok = None
                detail = 'no counterexample found: ' + detail
            else:
                detail += ' counterexample: ' + e.describe()
                why = self.eng.addhint(self, e)
                if why:
                    detail += why
        else:
            ok = None
            detail = 'no counterexample searched for: ' + detail
        if soft and ok is False:
            ok = None
            detail = 'representation: ' + detail
        if ok is None:
            self.eng.suggest(self)
        self.obs.append((name, ok if ok is False or soft else 'unproved', detail))
        return False

    def valid_neg(self, b):
        op, lin = b.v
        if op == '<':
            return self.entails('<=', -lin)
        if op == '<=':
            return self.entails('<', -lin)
        return self._check(self._z(op, lin)) == z3.unsat

    def equal(self, name, got, want, kind=None):
        """got must be a byte string equal to want (a rope); kind: required type"""
        ps = to_pieces(got)
        if isinstance(got, Poison):
            raise Undecided(got.why)
        if ps is None:
            return self.check(name, False, 'not a byte string: %r' % type(got).__name__)
        if kind is not None and bool(getattr(got, 'mutable', isinstance(got, bytearray))) != (kind == 'bytearray'):
            return self.check(name, False, 'type is not %s' % kind)
        n, m = SBytes(ps).length(), SBytes(to_pieces(want)).length()
        return self.same_rope(name, ps, to_pieces(want))

    def same_rope(self, name, ps, want, what='', soft=False):
        n, m = SBytes(ps).length(), SBytes(want).length()
        if not core.same(n, m):
            d = n - m
            return self.check(name, False, '%slength %r, expected %r' % (what, n, m), lin=None if isinstance(d, int) else d.z() != 0, soft=soft)
        d = fold_diff(self, ps, want)
        if d == 'unknown':
            raise Unproved('%s: contents cannot be aligned: %r / %r' % (name, ps, want))
        return self.check(name, d is None, '' if d is None else '%s%d bits differ: %s / %s' % (what, len(d), short(ps), short(want)), masks=d, soft=soft)

    # ---------------- loops
    def for_loop(self, site, it, names):
        return ForLoop(self, site, it, names)

    def while_loop(self, site, names):
        return WhileLoop(self, site, names)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


# ------------------------------------------------------------------ heap snapshots
def walkable(o):
    if isinstance(o, type):
        return False
    m = getattr(type(o), '__module__', '') or ''
    return (m.startswith('gostcrypto') or getattr(o, '_vc_walk', False)) and hasattr(o, '__dict__')


class Snap:
    """locations reachable from the locals: path -> value; contents of byte arrays"""

    def __init__(self, loc):
        self.bind = {}
        self.cont = {}
        self.seen = {}
        self.refs = {}
        for k in sorted(loc):
            if not k.startswith('__vc'):
                self._walk(('L', k), loc[k])

    def _walk(self, path, o):
        self.bind[path] = o
        if isinstance(o, SBytearray):
            self.refs[id(o)] = self.refs.get(id(o), 0) + 1
            if id(o) not in self.cont:
                self.cont[id(o)] = (o, list(o.p), path)
            return
        if walkable(o):
            if id(o) in self.seen:
                return
            self.seen[id(o)] = o
            for k in sorted(vars(o)):
                self._walk(('A', path, k), vars(o)[k])
        elif type(o) in (list, tuple):
            if id(o) in self.seen:
                return
            self.seen[id(o)] = o
            if len(o) > 400 or o and all(isinstance(x, int) for x in o):
                return
            for i, x in enumerate(o):
                self._walk(('I', path, i), x)
        elif type(o) is dict:
            if id(o) in self.seen:
                return
            self.seen[id(o)] = o
            for k in sorted(o, key=repr):
                self._walk(('D', path, k), o[k])


def pname(p):
    return p[1] if p[0] == 'L' else '%s%s' % (pname(p[1]), '.%s' % p[2] if p[0] == 'A' else '[%r]' % (p[2],))


def lin_same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return core.same(a, b)


def isnum(x):
    return isinstance(x, (int, SLin)) and not isinstance(x, bool)


def as_num(x):
    return x.as_lin() if isinstance(x, SLinShr) else x


class Cand:
    """candidate invariant of one location; at(idx) is its value at iteration idx; alternatives are tried in order"""

    def __init__(self, alts):
        self.alts = alts        # list of (kind, data)
        self.k = 0
        self.fails = []         # sizes at which an alternative was not kept

    def cur(self):
        return self.alts[self.k]

    def weaken(self):
        self.k += 1
        return self.k < len(self.alts)


def rope_alts(ctx, p0, p1):
    """alternatives for pieces as a function of the iteration"""
    p0, p1 = list(p0), list(p1)
    f0, f1 = fold(ctx, p0), fold(ctx, p1)
    out = []
    n0, n1 = SBytes(p0).length(), SBytes(p1).length()
    if core.same(n0, n1) and rope_diff(list(p0), list(p1)) is None:
        out.append(('const', p0))
    for a, b in ((f0, f1), (p0, p1)):
        out += align(a, b)
    if isinstance(n0, int) and core.same(n0, n1) and getattr(ctx.contract, 'fold', None) is not None:
        # the new value is a stretch of a ghost stream and the old one the stretch before it
        for b, o in (ctx.contract.places(p1) if hasattr(ctx.contract, 'places') else ()):
            if rope_diff(list(p0), [Slice(b, o - n0, o)]) is None:
                out.append(('affine', [('S', b, o - n0, n0, o, n0)]))
    if core.same(n0, n1) and isinstance(n0, int):
        out.append(('havoc', n0))
    return out


def piece_delta(a, b):
    if isinstance(a, Slice) and isinstance(b, Slice) and a.base is b.base:
        d1, d2 = core.C.canon(b.lo - a.lo), core.C.canon(b.hi - a.hi)
        if isinstance(d1, int) and isinstance(d2, int):
            return ('S', a.base, a.lo, d1, a.hi, d2)
    if isinstance(a, Fill) and isinstance(b, Fill) and a.v is b.v or isinstance(a, Fill) and isinstance(b, Fill) and isinstance(a.v, int) and a.v == b.v:
        d = core.C.canon(b.n - a.n)
        if isinstance(d, int):
            return ('F', a.v, a.n, d)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if rope_diff([a], [b]) is None:
            return ('C', a)
    return None


def align(p0, p1):
    res = []
    if len(p0) == len(p1):
        d = [piece_delta(a, b) for a, b in zip(p0, p1)]
        if all(d):
            res.append(('affine', d))
    if len(p1) == len(p0) + 1:
        for i in range(len(p1)):
            x = p1[i]
            rest = p1[:i] + p1[i + 1:]
            d = [piece_delta(a, b) for a, b in zip(p0, rest)]
            if not all(d):
                continue
            if isinstance(x, Slice):
                n = core.C.canon(x.hi - x.lo)
                if isinstance(n, int):
                    res.append(('affine', d[:i] + [('S', x.base, x.lo, 0, x.lo, n)] + d[i:]))
                    res.append(('affine', d[:i] + [('S', x.base, x.hi, -n, x.hi, 0)] + d[i:]))
            elif isinstance(x, Fill) and isinstance(x.n, int):
                res.append(('affine', d[:i] + [('F', x.v, 0, x.n)] + d[i:]))
            elif isinstance(x, tuple) and all(isinstance(v, int) and v == x[0] for v in x):
                res.append(('affine', d[:i] + [('F', x[0], 0, len(x))] + d[i:]))
    return res


def fold(ctx, ps):
    """replace vectors by slices of ghost arrays the contract recognises"""
    f = getattr(ctx.contract, 'fold', None)
    if f is None:
        return ps
    out = []
    for p in ps:
        if isinstance(p, tuple):
            r = f(list(p))
            out += r if r is not None else [p]
        elif isinstance(p, Slice) and hasattr(ctx.contract, 'slice_fold'):
            r = ctx.contract.slice_fold(p)
            out += [p] if r is None else r
        else:
            out.append(p)
    out = norm_pieces(out)
    if len(out) > 1 and any(isinstance(p, tuple) for p in out):
        n = SBytes(out).length()
        if isinstance(n, int) and n <= 128:
            r = f(SBytes(out).vec())
            if r is not None:
                return norm_pieces(r)
    return out


def instantiate(data, idx):
    out = []
    for d in data:
        if d[0] == 'S':
            out.append(Slice(d[1], d[2] + d[3] * idx, d[4] + d[5] * idx))
        elif d[0] == 'F':
            out.append(Fill(d[1], d[2] + d[3] * idx))
        else:
            out.append(d[1])
    return norm_pieces(out)


class Loop:
    def __init__(self, ctx, site, names):
        self.ctx, self.site, self.names = ctx, site, names
        self.sync = False
        self.values = {}
        self.mode = None
        ctx.loopseq += 1
        self.key = None

    def mkkey(self):
        c = self.ctx
        return (self.site, tuple(d[0] for d in c.dec[:c.pos]), c.loopseq, tuple(l.site + ':' + str(l.mode) for l in c.loops))

    def val(self, n):
        v = self.values.get(n, MISSING)
        return Poison('local variable %s after a loop' % n) if v is MISSING else v

    # -- invariant discovery
    def start_discovery(self):
        c = self.ctx
        c.discover += 1
        c.policy = len(c.eng.disc.get(self.key, ()))
        c.guessed = False

    def discovered(self, s0, loc):
        """s0: state before; loc: locals after one iteration"""
        c = self.ctx
        s1 = Snap(loc)
        cands, conts = {}, {}
        for path in set(s0.bind) | set(s1.bind):
            v0, v1 = s0.bind.get(path, MISSING), s1.bind.get(path, MISSING)
            a = self.alts(path, v0, v1, s1)
            cands[path] = Cand(a + [('poison',)])
        for i, (o, p0, path) in s0.cont.items():
            cands_o = []
            if rope_eq(o.p, p0):
                cands_o.append(('const', list(p0)))
            cands_o += [x for x in rope_alts(c, p0, o.p) if x[0] != 'const']
            conts[i] = (path, Cand(cands_o + [('poison',)]))
            if DEBUG:
                print('cont', pname(path), [x[0] for x in cands_o], 'before', short(p0), 'after', short(o.p), 'folded', short(fold(c, list(o.p))) if not cands_o else '')
        if DEBUG:
            print('discovered', self.site, {pname(p): [x[0] for x in cd.alts] for p, cd in cands.items() if cd.cur()[0] != 'same'})
        return {'cands': cands, 'conts': {pth: cd for pth, cd in conts.values()}}

    def alts(self, path, v0, v1, s1):
        if v0 is v1:
            return [('same',)]
        if v0 is MISSING or v1 is MISSING:
            return []
        v0, v1 = as_num(v0), as_num(v1)
        if isnum(v0) and isnum(v1):
            d = v1 - v0
            if isinstance(d, int):
                return [('int', d)]
            return []
        if isinstance(v0, SBytes) and isinstance(v1, SBytes) and v0.mutable == v1.mutable:
            sole = s1.refs.get(id(v1), 0) <= 1
            out = []
            for x in rope_alts(self.ctx, v0.p, v1.p):
                if sole and v1.mutable:
                    out.append(('rope', v1.mutable, True, x))
                out.append(('rope', v1.mutable, False, x))
            return out
        if isinstance(v0, SInt) and isinstance(v1, SInt):
            try:
                e = v0 == v1
                if e is True:
                    return [('same',)]
            except Undecided:
                pass
            h = getattr(self.ctx.contract, 'loop_alts', None)
            r = h(path, v0, v1) if h else None
            return r or []
        if type(v0) is type(v1) and isinstance(v0, (str, bool, int, type(None), bytes)) and v0 == v1:
            return [('same',)]
        h = getattr(self.ctx.contract, 'loop_alts', None)
        if h is not None:
            r = h(path, v0, v1)
            if r:
                return r
        return []

    # -- putting the state into iteration idx
    def install(self, info, s0, idx, tag):
        c = self.ctx
        self.values = {}
        for n in self.names:
            self.values[n] = s0.bind.get(('L', n), MISSING)
        for path, cd in sorted(info['cands'].items(), key=lambda i: depth(i[0])):
            a = cd.cur()
            if a[0] == 'same':
                if path in s0.bind:
                    self.restore(path, s0)
                continue
            v0 = s0.bind.get(path, MISSING)
            if a[0] == 'poison':
                v = Poison('%s in loop %s' % (pname(path), self.site))
                if v0 is MISSING and path[0] == 'L':
                    v = MISSING if False else v
            elif a[0] == 'int':
                v = as_num(v0) + a[1] * idx
            elif a[0] == 'rope':
                v = (SBytearray if a[1] else SBytes)(self.pieces(a[3], v0.p, idx, tag + pname(path)))
                if a[1] and not a[2]:
                    v.frozen = 'value of %s at an arbitrary iteration' % pname(path)
            else:
                v = a[1].at(v0, idx, tag + pname(path))
            self.put(path, v, s0)
        for path, cd in info['conts'].items():
            o = s0.bind.get(path)
            if o is None or id(o) not in s0.cont:
                continue
            a = cd.cur()
            if a[0] == 'poison':
                o.p = PoisonPieces()
                continue
            o.p = self.pieces(a, s0.cont[id(o)][1], idx, tag + pname(path))

    def restore(self, path, s0):
        self.put(path, s0.bind[path], s0, True)

    def pieces(self, a, p0, idx, tag):
        if a[0] == 'havoc':
            self.ctx.weak = True
        if a[0] == 'const':
            return list(p0)
        if a[0] == 'affine':
            return instantiate(a[1], idx)
        if a[0] == 'havoc':
            return core.fresh_bytes('havoc:%s:%s' % (tag, core.okey(idx)), a[1]).p
        raise AssertionError(a)

    def put(self, path, v, s0, orig=False):
        if path[0] == 'L':
            if path[1] in self.names:
                self.values[path[1]] = v
            elif not orig:
                raise Undecided('a local outside the loop changes: %s' % path[1])
            return
        parent = s0.bind.get(path[1])
        if parent is None:
            return
        if path[0] == 'A':
            if orig and vars(parent).get(path[2], MISSING) is v:
                return
            vars(parent)[path[2]] = v
        elif path[0] == 'I' and isinstance(parent, list):
            if path[2] < len(parent):
                parent[path[2]] = v
            elif not orig:
                raise Undecided('a list grows in a loop')
        elif path[0] == 'D':
            parent[path[2]] = v
        elif not orig:
            raise Undecided('tuple element changes')

    # -- induction step
    def verify(self, info, s0, idx1, loc, tag):
        """state in loc must satisfy the invariant at idx1"""
        c = self.ctx
        s1 = Snap(loc)
        bad = []
        for path, cd in info['cands'].items():
            a = cd.cur()
            if a[0] == 'poison':
                continue
            STATS['locations'] += 1
            v0, v1 = s0.bind.get(path, MISSING), s1.bind.get(path, MISSING)
            v1 = as_num(v1)
            ok = False
            try:
                if a[0] == 'same':
                    ok = v1 is v0 or (type(v1) is type(v0) and isinstance(v0, (str, int, bool, type(None))) and v0 == v1) \
                        or isinstance(v0, SInt) and isinstance(v1, SInt) and (v0 == v1) is True \
                        or isnum(v0) and isnum(v1) and lin_same(v0, v1)
                elif a[0] == 'int':
                    ok = isnum(v1) and lin_same(v1, as_num(v0) + a[1] * idx1)
                elif a[0] == 'rope':
                    if isinstance(v1, SBytes) and v1.mutable == a[1]:
                        ok = self.rope_ok(a[3], v0.p, idx1, v1.p)
                        if ok and a[1] and a[2]:
                            ok = s1.refs.get(id(v1), 0) <= 1 and not v1.frozen and id(v1) not in c.shared
                else:
                    ok = a[1].ok(v0, idx1, v1)
            except Undecided:
                ok = False
            if not ok:
                if DEBUG:
                    print('not kept', pname(path), a[0], short(v0), short(v1), idx1)
                bad.append(cd)
        for path in s1.bind:
            if path not in info['cands']:
                info['cands'][path] = Cand([('poison',)])
        for path, cd in info['conts'].items():
            a = cd.cur()
            o = s0.bind.get(path)
            if a[0] == 'poison' or o is None:
                continue
            STATS['locations'] += 1
            try:
                ok = not isinstance(o.p, PoisonPieces) and self.rope_ok(a, s0.cont[id(o)][1], idx1, o.p)
            except Undecided:
                ok = False
            if not ok:
                if DEBUG:
                    print('content not kept', pname(path), a, short(o.p), idx1)
                bad.append(cd)
        if bad:
            for cd in bad:
                if c.eng.refute is not None and len(cd.fails) < 8:
                    f = c.eng.sizes(c)
                    if f is not None and f not in cd.fails:
                        cd.fails.append(f)
                cd.weaken()
                if cd.cur()[0] in ('poison', 'havoc') or cd.cur()[0] == 'rope' and cd.cur()[3][0] == 'havoc':
                    for f in cd.fails:
                        if c.eng.add_suggestion(f):
                            c.eng.size_hint(c, f)
            raise Restart(self)
        STATS['iterchecks'] += 1
        raise PathEnd()

    def rope_ok(self, a, p0, idx, p):
        n = SBytes(p).length()
        if a[0] == 'havoc':
            return core.same(n, a[1])
        want = self.pieces(a, p0, idx, '')
        if not core.same(n, SBytes(want).length()):
            return False
        return fold_diff(self.ctx, list(p), want) is None


def fold_diff(ctx, p, q):
    """rope_diff, after folding both sides when they differ at first sight"""
    if getattr(ctx.contract, 'eager', False) and rope_diff(fold(ctx, list(p)), fold(ctx, list(q))) is None:
        return None
    d = rope_diff(list(p), list(q))
    if d is not None and getattr(ctx.contract, 'fold', None) is not None:
        d = rope_diff(fold(ctx, list(p)), fold(ctx, list(q)))
    return d


class PoisonPieces(list):
    def _u(self, *a):
        raise Unproved('contents of a buffer changed in a loop without a known invariant are read')
    __iter__ = __len__ = __getitem__ = __add__ = __radd__ = _u


def depth(p):
    n = 0
    while p[0] != 'L':
        p = p[1]
        n += 1
    return n


def rope_eq(p, q):
    if not core.same(SBytes(p).length(), SBytes(q).length()):
        return False
    return fold_diff(core.C, list(p), list(q)) is None


class ForLoop(Loop):
    def __init__(self, ctx, site, it, names):
        super().__init__(ctx, site, names)
        from .loader import SRange
        self.concrete = True
        if isinstance(it, SBytes) and not isinstance(it.length(), int):
            from .loader import SElems
            it = SElems(it)
        h = getattr(ctx.contract, 'iterable', None)
        if h is not None:
            r = h(site, it)
            if r is not None:
                it = r
        if hasattr(it, 'trips'):
            t = as_num(it.trips())
            if isinstance(t, SLin):
                t = ctx.canon(t)
            if isinstance(t, int):
                self.native = [it.at(k) for k in range(t)]
            else:
                self.concrete = False
                self.it, self.T = it, t
                self.key = self.mkkey()
                self.state = 'start'
        else:
            self.native = it

    def enter(self, loc):
        c = self.ctx
        E = c.eng
        if self.state == 'start':
            STATS['loops'] += 1
            if not bool(self.T > 0):
                self.state = 'zero'
                self.sync = False
                return False
            self.s0 = Snap(loc)
            info = E.loops.get(self.key)
            if info is None:
                self.start_discovery()
                self.state = 'discover'
                self.mode = 'd'
                self.idx = 0
                c.loops.append(self)
                return True
            k = c.choose(['iter ' + self.site, 'exit ' + self.site]) if not c.discover else 1
            self.info = info
            if k == 0:
                self.mode = 'i'
                c.tn += 1
                t = c.var('_t%d' % c.tn, 0)
                c.assume(t <= self.T - 1)
                self.idx = t
                self.state = 'iter'
                c.loops.append(self)
                self.install(info, self.s0, t, self.site)
                self.sync = True
                E.prefix[id(self)] = c.pos
                self.myprefix = c.pos
                return True
            self.state = 'exit'
            self.install(info, self.s0, self.T, self.site)
            self.sync = True
            return False
        if self.state == 'discover':
            E.learn(self, self.discovered(self.s0, loc), c)
            raise Restart(None)
        if self.state == 'iter':
            self.verify(self.info, self.s0, self.idx + 1, loc, self.site)
        raise AssertionError(self.state)

    def item(self):
        return self.it.at(self.idx)


class WhileLoop(Loop):
    """while loops run natively until their condition depends on a symbolic value"""

    def __init__(self, ctx, site, names):
        super().__init__(ctx, site, names)
        self.symbolic = False
        self.key = None
        self.n = 0
        self.state = 'native'
        self.queue = []

    # the rewritten code calls head, then probe/cond until probe is false, then sync, then tests go
    def head(self, loc):
        c = self.ctx
        E = c.eng
        self.sync = False
        if self.key is None:
            self.key = self.mkkey()
            if self.key in E.symsites:
                self.symbolic = True
        if not self.symbolic:
            self.n += 1
            if self.n > 5000:
                raise Undecided('loop does not end')
            self.queue = ['native']
            return
        if self.state == 'native':
            self.s0 = Snap(loc)
            self.queue = ['entry']
            self.state = 'entered'
            return
        if self.state == 'discover':
            E.learn(self, self.discovered(self.s0, loc), c)
            raise Restart(None)
        if self.state == 'iter':
            self.verify(self.info, self.s0, self.idx + 1, loc, self.site)
        raise AssertionError(self.state)

    def probe(self):
        if not self.queue:
            return False
        q = self.queue[0]
        c = self.ctx
        if q == 'native':
            c.incond = _Sym(self.key) if c.incond is None else c.incond
        elif q == 'iter' or q == 'last':
            self.install(self.info, self.s0, self.idx, self.site + 'i')
            self.sync = True
        elif q == 'prev':
            self.install(self.info, self.s0, self.idx - 1, self.site + 'p')
            self.sync = True
        return True

    def cond(self, v, loc):
        c = self.ctx
        E = c.eng
        q = self.queue.pop(0)
        v = bool(v)
        if q == 'native':
            c.incond = None
            self.go = v
            return
        if q == 'entry':
            if not v:
                self.go = False
                return
            info = E.loops.get(self.key)
            if info is None:
                self.start_discovery()
                c.loops.append(self)
                self.mode = 'd'
                self.state = 'discover'
                self.go = True
                return
            k = c.choose(['iter ' + self.site, 'exit ' + self.site]) if not c.discover else 1
            self.info = info
            c.tn += 1
            t = c.var('_t%d' % c.tn, 0)
            self.idx = t
            if k == 0:
                self.mode = 'i'
                self.state = 'iter'
                c.loops.append(self)
                self.queue = ['iter']
                self.myprefix = c.pos
            else:
                c.assume(t >= 1)
                self.queue = ['prev', 'last']
                self.state = 'exit'
            return
        if q == 'iter':
            if not v:
                raise PathEnd()
            self.go = True
            return
        if q == 'prev':
            if not v:
                raise PathEnd()
            return
        if q == 'last':
            if v:
                raise PathEnd()
            c.pin(self.idx)
            self.install(self.info, self.s0, c.canon(self.idx), self.site + 'i')
            self.go = False
            return
        raise AssertionError(q)


class _Sym(BaseException):
    """a while condition needs a decision: treat this loop symbolically"""

    def __init__(self, key):
        self.key = key


def _pin(self, t):
    """an index determined by the facts of the path becomes that value"""
    if not isinstance(self.canon(t), SLin):
        return
    tk = t.key()
    for op, lin in list(self.lins):
        c = self.canon(lin)
        if isinstance(c, SLin) and any(isinstance(x, Var) and core.okey(SLin({x: 1}, 0)) == tk for x in c.t):
            for k in (0, 1, -1):
                if self.entails('==', c + k):
                    self.solve(c + k)
                    return


Ctx.pin = _pin


# ------------------------------------------------------------------ exploration
class Engine:
    ctxclass = Ctx

    def __init__(self, maxpaths=4000, maxtime=600, small=None, fixed=None, refute=None):
        self.small = small          # bounded refutation: every symbolic size is at most its minimum + small
        self.fixed = fixed          # refutation at one choice of the symbolic sizes
        self.refute = refute        # called with suggestions while the proof goes badly; results if it refuted
        self.suggestions = []       # sizes at which a candidate invariant failed
        self.tried = 0
        self.modelled = 0
        self.hints = []
        self.late = []              # cases at suggested sizes
        self.sized = 0
        self.paths = self.ends = 0
        self.loops = {}
        self.symsites = set()
        self.prefix = {}
        self.disc = {}
        self.maxpaths, self.maxtime = maxpaths, maxtime

    def addhint(self, ctx, e):
        """concrete case for the battery from a counterexample of a path"""
        f = getattr(ctx.contract, 'replay', None) if ctx.contract is not None else None
        if f is None or len(self.hints) >= 4:
            return None
        try:
            h = f(e)
        except Exception as ex:
            return ' (no replay: %s)' % ex
        if h is not None and h not in self.hints:
            self.hints.append(h)
            self.publish(h)

    def publish(self, h):
        """candidates for a failing input go to the replay at once"""
        f = os.environ.get('PYVC_HINTFILE')
        if f:
            with open(f, 'a') as fh:
                fh.write(json.dumps(h) + '\n')

    def size_hint(self, ctx, f):
        """a case for the battery at sizes where an invariant failed (contents free)"""
        r = getattr(ctx.contract, 'replay', None) if ctx.contract is not None else None
        if r is None or self.sized >= 8:
            return
        self.sized += 1
        try:
            e = model.search(ctx, [], tries=3, extra=[SLin.var(n).z() == v for n, v in f.items()])
            h = None if e is None else r(e)
        except Exception:
            return
        if h is not None and h not in self.hints:
            self.publish(h)
            self.late.append(h)

    def path_hint(self, ctx):
        """inputs that lead along a path the verifier could not follow to its end"""
        if len(self.hints) < 2 and self.modelled < 16 and getattr(ctx.contract, 'replay', None) is not None:
            self.modelled += 1
            e = model.search(ctx, [], tries=30)
            if e is not None:
                self.addhint(ctx, e)

    def suggest(self, ctx):
        """remember sizes (small ones, when possible) that lead along this path"""
        if self.refute is None:
            return
        f = self.sizes(ctx)
        if f is not None and self.add_suggestion(f):
            self.size_hint(ctx, f)

    def add_suggestion(self, f):
        if len(self.suggestions) < 24 and f not in self.suggestions:
            self.suggestions.append(f)
            return True

    def sizes(self, ctx):
        s = ctx.solver
        names = [n for n in ctx.vb if not n.startswith('_t')]
        if not names:
            return None
        for bound in (2, 8, 40, 200, 1100, 5000):
            s.push()
            depth = 1
            try:
                for n in names:
                    lo = ctx.vb[n][0]
                    s.add(SLin.var(n).z() <= (lo or 0) + bound)
                if s.check() == z3.sat:
                    for n in names:
                        v = s.model().eval(SLin.var(n).z(), model_completion=True).as_long()
                        if v > (ctx.vb[n][0] or 0) + 8:
                            s.push()
                            s.add(SLin.var(n).z() <= (ctx.vb[n][0] or 0) + 8)
                            if s.check() != z3.sat:
                                s.pop()
                                s.check()
                                s.add(SLin.var(n).z() <= v)
                                s.check()
                            else:
                                depth += 1
                    m = s.model()
                    return {n: m.eval(SLin.var(n).z(), model_completion=True).as_long() for n in names}
            finally:
                for _ in range(depth):
                    s.pop()

    def run(self, task, contract=None):
        """returns list of (obligation name, status, detail)"""
        t0 = time.time()
        dec = []
        obs = {}
        paths = ends = 0
        restarts = 0
        bad = []                # time of the first failed obligation: the others get a little more

        def add(name, ok, det):
            o = obs.setdefault(name, [0, None])
            if ok is True:
                o[0] += 1
            else:
                st = 'failed' if ok is False else ok or 'undecided'
                if st != 'undecided' and not bad:
                    bad.append(time.time())
                if o[1] is None or RANK[st] > RANK[o[1][0]]:
                    o[1] = (st, det)
        while True:
            paths += 1
            STATS['paths'] += 1
            if paths > self.maxpaths or time.time() - t0 > self.maxtime or bad and time.time() - bad[0] > 90:
                add('exploration', None, 'more than %d paths or %d s' % (self.maxpaths, self.maxtime))
                break
            if self.tried < min(3, len(self.suggestions)) and time.time() - t0 > 6 * (1 + self.tried):
                f = self.suggestions[self.tried]
                self.tried += 1
                r = self.refute(f)
                if r:
                    return r
            ctx = self.ctxclass(self, dec)
            core.set_ctx(ctx)
            try:
                try:
                    task(ctx)
                    if ctx.pending is not None:
                        raise ctx.pending
                    if ctx.discover:
                        raise Undecided('a loop was left while its invariant was being discovered')
                finally:
                    ctx.live = False
                ends += 1
                for n, ok, det in ctx.obs:
                    add(n, ok, det + (' [path: %s]' % '; '.join(ctx.trace)[:400] if ok is not True else ''))
            except PathEnd:
                if ctx.discover:
                    # the first iteration cannot be completed: no invariant is needed beyond the entry state
                    self.abandon(ctx)
                    core.set_ctx(None)
                    del dec[ctx.pos:]
                    restarts += 1
                    continue
                for n, ok, det in ctx.obs:
                    add(n, ok, det)
            except _Sym as e:
                if e.key in self.symsites:
                    add('path', None, 'condition of a loop cannot be decided at %r' % (e.key[0],))
                    del dec[ctx.pos:]
                    break
                self.symsites.add(e.key)
                del dec[len(e.key[1]):]
                continue
            except Restart as e:
                restarts += 1
                if restarts > 3000:
                    add('exploration', None, 'too many restarts')
                    break
                l = e.args[0]
                if l is not None:
                    del dec[l.myprefix:]
                else:
                    del dec[ctx.pos:]
                continue
            except Undecided as e:
                if DEBUG and ctx.discover:
                    print('abandoned loop:', e, where(e), '; '.join(ctx.trace)[:300])
                if ctx.discover and self.abandon(ctx):
                    del dec[ctx.pos:]
                    restarts += 1
                    continue
                for n, ok, det in ctx.obs:
                    add(n, ok, det)
                self.suggest(ctx)
                self.path_hint(ctx)
                add('path', 'unproved' if isinstance(e, Unproved) else None, str(e) + where(e))
            except RecursionError:
                add('path', None, 'recursion')
            except Exception as e:      # an error of the contract or of an unmodelled operation
                self.path_hint(ctx)
                last = e.__traceback__
                while last.tb_next is not None:
                    last = last.tb_next
                internal = isinstance(e, (TypeError, AttributeError, KeyError, NameError, AssertionError)) and \
                    last.tb_frame.f_code.co_filename.startswith(HERE)
                add('path', None if internal else 'unproved', 'unexpected %s: %s%s' % (type(e).__name__, e, where(e)))
            core.set_ctx(None)
            # next path
            del dec[ctx.pos:]
            while dec and dec[-1][0] + 1 >= dec[-1][1]:
                dec.pop()
            if not dec:
                break
            dec[-1][0] += 1
        core.set_ctx(None)
        res = []
        for n, (k, bad) in obs.items():
            if bad is None:
                res.append((n, 'discharged', '%d paths' % k))
            else:
                res.append((n, bad[0], bad[1]))
        if not ends:
            res.append(('reachability', 'undecided', 'no path reaches the end of the contract'))
        self.paths, self.ends = paths, ends
        if any(x[1] != 'discharged' for x in res) and not any(x[1] == 'failed' for x in res):
            while self.tried < min(8, len(self.suggestions)) and time.time() - t0 < self.maxtime:
                f = self.suggestions[self.tried]
                self.tried += 1
                r = self.refute(f)
                if r:
                    return r
        return res

    def learn(self, l, info, ctx):
        """a discovery run took one branch of every choice; when it had choices, a second one takes the other branches"""
        runs = self.disc.setdefault(l.key, [])
        runs.append(info)
        if ctx.guessed and len(runs) < 2:
            return
        runs = [r for r in runs if r is not None]
        if not runs:
            cands = {p: Cand([('same',), ('poison',)]) for p in l.s0.bind}
            conts = {pth: Cand([('const', list(p0)), ('poison',)]) for _, p0, pth in l.s0.cont.values()}
            self.loops[l.key] = {'cands': cands, 'conts': conts}
            return
        out = runs[0]
        for r in runs[1:]:
            for kind in ('cands', 'conts'):
                for p in set(out[kind]) | set(r[kind]):
                    a, b = out[kind].get(p), r[kind].get(p)
                    alts = (a.alts[:-1] if a else []) + (b.alts[:-1] if b else [])
                    hv = [x for x in alts if x[0] == 'havoc' or x[0] == 'rope' and x[3][0] == 'havoc']
                    out[kind][p] = Cand([x for x in alts if x not in hv] + hv + [('poison',)])
        self.loops[l.key] = out

    def abandon(self, ctx):
        """discovery failed inside loop(s): forget everything about the innermost one except its entry state"""
        for l in reversed(ctx.loops):
            if l.mode == 'd' and l.key not in self.loops:
                self.learn(l, None, ctx)
                return True
        return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    f = [x for x in tb if '/gostcrypto/' in x.filename or '/props/' in x.filename]
    return ' at %s' % ', '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in f[-3:]) if f else ' at ' + ', '.join(
        '%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in tb[-3:])
