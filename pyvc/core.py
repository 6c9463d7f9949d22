"""Symbolic values of the verifier.

Bits      a Boolean value is a Python int used as a GF(2) vector over interned atoms; bit 0 of
          the vector is the constant 1, so XOR is `^` and equality of normal forms is equality
          of Boolean functions as long as atoms are independent (unequal forms decide nothing).
SInt      integer given by its bits, or by a pseudo-Boolean linear form with a floor shift
SLin      linear integer expression over symbolic integers (lengths, indices), with floor division
SBool     condition over either; `bool()` of it forks the path
Rope      byte string: fixed vectors, slices of (ghost) byte arrays of any length, fills
"""
import numpy as np
import z3


def setbits(m):
    """indices of the one bits"""
    n = m.bit_length()
    if n < 400 or m.bit_count() < 16:
        out = []
        while m:
            low = m & -m
            m ^= low
            out.append(low.bit_length() - 1)
        return out
    return np.flatnonzero(np.unpackbits(np.frombuffer(m.to_bytes((n + 7) // 8, 'little'), dtype=np.uint8), bitorder='little')).tolist()


class PathEnd(BaseException):
    """this path is finished (infeasible, or an induction step that has been checked)"""


class Undecided(BaseException):
    """the verifier cannot treat this construct; never a violation"""


class Unproved(Undecided):
    """the proof fails here: not a limit of the verifier but a fact that does not follow"""


class Restart(BaseException):
    """a loop invariant was weakened: explore again"""


class Poison:
    """value of a location no invariant is known for: reading it is undecided"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def _u(self, *a, **k):
        raise Unproved('value not covered by the loop invariant is read: %s' % self.why)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __xor__ = __rxor__ = __and__ = __rand__ = __or__ = _u
    __ror__ = __lshift__ = __rshift__ = __getitem__ = __setitem__ = __len__ = __iter__ = __call__ = __bool__ = __lt__ = _u
    __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __floordiv__ = __mod__ = __neg__ = __int__ = __index__ = __bytes__ = _u
    __hash__ = object.__hash__

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        self._u()


C = None     # current context, set by engine.Ctx


def set_ctx(c):
    global C
    C = c


# ------------------------------------------------------------------ atoms (global to one worker)
class Atoms:
    def __init__(self):
        self.ids = {}
        self.desc = [None]           # bit 0: constant one
        self.deps = {}               # atom -> bit set of the ghost elements it depends on
        self.group = {}              # (base name, offset key) -> bit
        self.groups = []
        self.rowdeps = {}
        self.args = {}               # interned argument vectors
        self.lut = {}                # key of index masks -> function basis
        self.tts = {}                # table -> truth tables of its output bits
        self.bits = {}               # large sums: their bits

    def get(self, desc):
        i = self.ids.get(desc)
        if i is None:
            i = self.ids[desc] = len(self.desc)
            self.desc.append(desc)
        return 1 << i


    def dep(self, i):
        r = self.deps.get(i)
        if r is not None:
            return r
        stack = [i]
        while stack:
            k = stack[-1]
            if k in self.deps:
                stack.pop()
                continue
            d = self.desc[k]
            t = d[0]
            if t == 'arr':
                g = (d[1], d[2])
                b = self.group.get(g)
                if b is None:
                    b = self.group[g] = len(self.groups)
                    self.groups.append(g)
                self.deps[k] = 1 << b
                stack.pop()
                continue
            ms = d[1] if t == 'fn' else d[2] if t == 'uf' else [m for m, _ in d[1]] if t == 'sum' else ()
            if t in ('fn', 'uf') and id(ms) in self.rowdeps:
                self.deps[k] = self.rowdeps[id(ms)][0]
                stack.pop()
                continue
            u = 0
            for m in ms:
                u |= m
            u &= ~1
            out, todo = 0, []
            for j in setbits(u):
                v = self.deps.get(j)
                if v is None:
                    todo.append(j)
                else:
                    out |= v
            if todo:
                stack += todo
            else:
                self.deps[k] = out
                if t in ('fn', 'uf'):
                    self.rowdeps[id(ms)] = (out, ms)
                stack.pop()
        return self.deps[i]


A = Atoms()


def reset_atoms():
    global A
    A = Atoms()


def fn_basis(rows):
    """incremental basis of Boolean functions of the independent masks `rows`"""
    b = A.lut.get(rows)
    if b is None:
        m = len(rows)
        ech = {}
        b = (ech, {})
        A.lut[rows] = b
        full = (1 << (1 << m)) - 1
        _ech_add(ech, full, 1)
        for i, r in enumerate(rows):
            tt = 0
            for a in range(1 << m):
                if a >> i & 1:
                    tt |= 1 << a
            _ech_add(ech, tt, r)
    return b


def _ech_add(ech, tt, mask):
    while tt:
        p = tt.bit_length() - 1
        e = ech.get(p)
        if e is None:
            ech[p] = (tt, mask)
            return
        tt ^= e[0]
        mask ^= e[1]


def fn_bit(rows, tt):
    """mask of the Boolean function with truth table tt over the masks rows"""
    return basis_bit(fn_basis(rows), rows, tt)


def basis_bit(basis, rows, tt):
    ech, cache = basis
    r = cache.get(tt)
    if r is not None:
        return r
    t, mask = tt, 0
    while t:
        p = t.bit_length() - 1
        e = ech.get(p)
        if e is None:
            at = A.get(('fn', rows, t))
            ech[p] = (t, at)
            mask ^= at
            break
        t ^= e[0]
        mask ^= e[1]
    cache[tt] = mask
    return mask


_indep = {}


def independent(masks):
    piv = []
    for m in masks:
        m &= ~1
        for q in piv:
            m = min(m, m ^ q)
        if m == 0:
            return False
        piv.append(m)
    return True


def rref(masks):
    """canonical independent rows spanning the masks (constant dropped) and each mask as (const, combination)"""
    rows = []
    for m in masks:
        m &= ~1
        for r in rows:
            m = min(m, m ^ r)
        if m:
            rows = [min(r, r ^ m) if (r ^ m) < r else r for r in rows]
            rows.append(m)
    rows.sort()
    # full reduction
    for i in range(len(rows)):
        for j in range(len(rows)):
            if i != j and rows[j] >> (rows[i].bit_length() - 1) & 1:
                rows[j] ^= rows[i]
    rows.sort()
    exprs = []
    for m in masks:
        c, v = m & 1, m & ~1
        comb = 0
        for i, r in enumerate(rows):
            if v >> (r.bit_length() - 1) & 1:
                v ^= r
                comb |= 1 << i
        if v:
            raise AssertionError('rref')
        exprs.append((c, comb))
    return tuple(rows), exprs


def fn_of(masks, f):
    """mask of the Boolean function f(bits of masks) for a Python predicate f on a tuple of 0/1"""
    masks = [C.red(m) for m in masks] if C else masks
    rows, ex = rref(masks)
    if len(rows) > 10:
        raise Undecided('Boolean function of %d bits' % len(rows))
    tt = 0
    for a in range(1 << len(rows)):
        if f(tuple(c ^ (bin(comb & a).count('1') & 1) for c, comb in ex)):
            tt |= 1 << a
    if not rows:
        return tt & 1
    return fn_bit(rows, tt)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == b ^ 1:
        return 0
    return fn_of((a, b), lambda v: v[0] & v[1])


def table_lookup(table, bits):
    """table: tuple of non-negative ints; bits: masks of the index, least significant first"""
    key = tuple(bits)
    if all(m <= 1 for m in key):
        i = sum(m << k for k, m in enumerate(key))
        if i >= len(table):
            raise IndexError('tuple index out of range')
        return table[i]
    n = len(key)
    if n > 10:
        raise Undecided('table index of %d bits' % n)
    ind = _indep.get(key)
    if ind is None:
        if len(_indep) > 400000:
            _indep.clear()
        ind = _indep[key] = independent(key)
    if ind:
        rows = key
        if len(table) < 1 << n:
            # index may be out of range: decide it by the path
            over = fn_of(key, lambda v: sum(b << k for k, b in enumerate(v)) >= len(table))
            if over and SBool('bit', over):
                raise IndexError('tuple index out of range')
        tk = (id(table), n)
        tt = A.tts.get(tk)
        if tt is None:
            w = max(1, max(table).bit_length())
            ts = [0] * w
            for a in range(min(1 << n, len(table))):
                v = table[a]
                k = 0
                while v:
                    if v & 1:
                        ts[k] |= 1 << a
                    v >>= 1
                    k += 1
            tt = A.tts[tk] = (ts, table)
        bs = fn_basis(rows)
        return SInt([basis_bit(bs, rows, t) if t else 0 for t in tt[0]])
    rows, ex = rref(key)
    m = len(rows)
    idx = []
    for a in range(1 << m):
        i = 0
        for k, (c, comb) in enumerate(ex):
            if c ^ (bin(comb & a).count('1') & 1):
                i |= 1 << k
        idx.append(i)
    if max(idx) >= len(table):
        tt = 0
        for a, i in enumerate(idx):
            if i >= len(table):
                tt |= 1 << a
        if SBool('bit', fn_bit(rows, tt)):
            raise IndexError('tuple index out of range')
    vals = [table[i] if i < len(table) else 0 for i in idx]
    w = max(1, max(vals).bit_length())
    out = []
    for k in range(w):
        tt = 0
        for a, v in enumerate(vals):
            if v >> k & 1:
                tt |= 1 << a
        out.append(fn_bit(rows, tt) if tt else 0)
    return SInt(out)


# ------------------------------------------------------------------ SInt
def const_bits(c):
    if c < 0:
        raise Undecided('bits of a negative constant')
    r = []
    while c:
        r.append(c & 1)
        c >>= 1
    return r


class SInt:
    """bits: masks, least significant first (value >= 0); or (terms, const, sh): floor((sum + const) / 2^sh)"""
    __slots__ = ('b', 'terms', 'const', 'sh', 'memo')

    def __init__(self, bits=None, terms=None, const=0, sh=0):
        self.b, self.terms, self.const, self.sh = bits, terms, const, sh
        self.memo = None

    # -- views
    def form(self):
        if self.terms is None:
            t, c = {}, 0
            for k, m in enumerate(self.b):
                if m & 1:
                    c += 1 << k
                    m ^= 1
                    if m:
                        t[m] = t.get(m, 0) - (1 << k)
                elif m:
                    t[m] = t.get(m, 0) + (1 << k)
            self.terms, self.const, self.sh = {m: v for m, v in t.items() if v}, c, 0
        return self.terms, self.const, self.sh

    def rng(self):
        if self.b is not None:
            lo = hi = 0
            for k, m in enumerate(self.b):
                if m == 1:
                    lo += 1 << k
                    hi += 1 << k
                elif m:
                    hi += 1 << k
            return lo, hi
        lo = hi = self.const
        for v in self.terms.values():
            if v > 0:
                hi += v
            else:
                lo += v
        return lo >> self.sh, hi >> self.sh

    def low(self, n):
        """the n low bits (value modulo 2^n)"""
        if self.b is not None:
            return list(self.b[:n]) + [0] * (n - len(self.b))
        return [self._bit(k) for k in range(n)]

    def _bit(self, k):
        K = k + self.sh
        if len(self.terms) > 64:
            # large sums recur on every path
            d = self.memo
            if d is None:
                key = (tuple(self.terms.items()), self.const)
                d = self.memo = A.bits.setdefault(key, {})
            if K not in d:
                d[K] = self._bit1(K)
            return d[K]
        return self._bit1(K)

    def _bit1(self, K):
        mod = 1 << K
        lin, low, cl = 0, [], self.const & (mod - 1)
        if self.const >> K & 1:
            lin ^= 1
        for m, v in self.terms.items():
            if v >> K & 1:
                lin ^= m
            v &= mod - 1
            if v:
                low.append((m, v))
        return lin ^ carry_bit(low, cl, K)

    def bits(self):
        """all bits of a non-negative value"""
        if self.b is None:
            lo, hi = self.rng()
            if lo < 0:
                raise Undecided('bits of a possibly negative integer')
            self.b = trim([self._bit(k) for k in range(hi.bit_length())])
        return self.b

    def simp(self):
        if self.b is not None and all(m <= 1 for m in self.b):
            return sum(m << k for k, m in enumerate(self.b))
        if self.b is None and not self.terms:
            return self.const >> self.sh
        return self

    # -- operators
    def __xor__(self, o):
        ob = getbits(o)
        if ob is None:
            return NotImplemented
        a = self.bits()
        if len(a) < len(ob):
            a, ob = ob, a
        r = [x ^ y for x, y in zip(a, ob)]
        r += a[len(ob):]
        return SInt(r).simp() if r and max(r) <= 1 else SInt(r)
    __rxor__ = __xor__

    def __and__(self, o):
        if isinstance(o, int):
            if o < 0:
                a = self.bits()
                return SInt([m if o >> k & 1 else 0 for k, m in enumerate(a)]).simp()
            n = o.bit_length()
            if self.b is not None:
                a = self.low(n)
                return SInt(trim([m if o >> k & 1 else 0 for k, m in enumerate(a)])).simp()
            return SInt(trim([self._bit(k) if o >> k & 1 else 0 for k in range(n)])).simp()
        ob = getbits(o)
        if ob is None:
            return NotImplemented
        return SInt(trim([band(x, y) for x, y in zip(self.bits(), ob)])).simp()
    __rand__ = __and__

    def __or__(self, o):
        ob = getbits(o)
        if ob is None:
            return NotImplemented
        a = self.bits()
        n = max(len(a), len(ob))
        a = list(a) + [0] * (n - len(a))
        ob = list(ob) + [0] * (n - len(ob))
        return SInt([x ^ y ^ band(x, y) for x, y in zip(a, ob)]).simp()
    __ror__ = __or__

    def __lshift__(self, k):
        if not isinstance(k, int):
            return NotImplemented
        if self.b is not None:
            return SInt([0] * k + list(self.b))
        if self.sh >= k:
            # floor(F/2^s)*2^k is not a form; go through the bits
            return SInt([0] * k + list(self.bits()))
        if self.sh == 0:
            return SInt(None, {m: v << k for m, v in self.terms.items()}, self.const << k, 0)
        return SInt([0] * k + list(self.bits()))

    def __rlshift__(self, c):
        raise Undecided('shift by a symbolic bit value')

    def __rshift__(self, k):
        if not isinstance(k, int):
            return NotImplemented
        if self.b is not None:
            return SInt(list(self.b[k:])).simp()
        return SInt(None, self.terms, self.const, self.sh + k)

    def __rrshift__(self, c):
        raise Undecided('shift by a symbolic bit value')

    def _lin(self, o, s):
        """self + s*o"""
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return self
            t, c, sh = self.form()
            return SInt(None, t, c + (s * o << sh), sh)
        if isinstance(o, SBool):
            o = o.as_int()
            if isinstance(o, int):
                return self._lin(o, s)
        if not isinstance(o, SInt):
            return NotImplemented
        if s == 1 and self.b is not None and o.b is not None:
            # disjoint positions: no carry
            a, b = self.b, o.b
            if not any(x and y for x, y in zip(a, b)):
                n = max(len(a), len(b))
                return SInt([x | y for x, y in zip(list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b)))])
        t1, c1, s1 = self.form()
        t2, c2, s2 = o.form()
        if s1 and s2:
            if o.rng()[0] >= 0:
                o = SInt(list(o.bits()))
                t2, c2, s2 = o.form()
            elif self.rng()[0] >= 0:
                t1, c1, s1 = SInt(list(self.bits())).form()
        if s2 and s != 1:
            t2, c2, s2 = SInt(list(o.bits())).form()
        if s1 and s2:
            raise Undecided('sum of two shifted forms')
        if s2:
            t1, c1, s1, t2, c2, s2 = t2, c2, s2, t1, c1, s1
        r = dict(t1)
        f = s << s1
        for m, v in t2.items():
            v = r.get(m, 0) + f * v
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        res = SInt(None, r, c1 + f * c2, s1)
        return res.simp()

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __neg__(self):
        t, c, sh = self.form()
        if sh:
            t, c, sh = SInt(list(self.bits())).form()
        return SInt(None, {m: -v for m, v in t.items()}, -c, 0)

    def __rsub__(self, o):
        return (-self)._lin(o, 1)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes)):
            raise Undecided('repeat by a symbolic bit value')
        if isinstance(o, SInt):
            if o.b is not None and len(trim(list(o.b))) <= 1:
                m = o.b[0] if o.b else 0
                return SInt([band(m, x) for x in self.bits()]).simp()
            if self.b is not None and len(trim(list(self.b))) <= 1:
                return o * self
            raise Undecided('product of symbolic integers')
        if not isinstance(o, int):
            return NotImplemented
        if o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        t, c, sh = self.form()
        if sh:
            t, c, sh = SInt(list(self.bits())).form()
        if o == 0:
            return 0
        return SInt(None, {m: v * o for m, v in t.items()}, c * o, 0)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Undecided('division of a bit value by %r' % (o,))

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        if isinstance(o, int) and o > 0:
            lo, hi = self.rng()
            if lo >= 0 and hi < o:
                return self
        raise Undecided('bit value modulo %r' % (o,))

    def __divmod__(self, o):
        return self // o, self % o

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return self if self.rng()[0] >= 0 else (-self if self < 0 else self)

    def __pos__(self):
        return self

    # -- comparisons
    def zero(self):
        """SBool: value == 0"""
        if self.b is None:
            lo, hi = self.rng()
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and self.sh == 0:
                # every term at its minimum
                ms = [m if v > 0 else m ^ 1 for m, v in self.terms.items()]
                return mk_allzero(ms)
            if lo < 0:
                if len(self.terms) <= 10 and self.sh == 0:
                    it = list(self.terms.items())
                    m = fn_of([x for x, _ in it], lambda v: self.const + sum(b * w for b, (_, w) in zip(v, it)) == 0)
                    return SBool('bit', m).simp()
                raise Undecided('zero test of a signed form')
        return mk_allzero(self.bits())

    def __eq__(self, o):
        if isinstance(o, SBool):
            o = o.as_int()
        if isinstance(o, int):
            if o < 0:
                return (self - o).zero()
            lo, hi = self.rng()
            if o < lo or o > hi:
                return False
            if self.rng()[0] >= 0:
                a = self.bits()
                n = max(len(a), o.bit_length())
                return mk_allzero([(a[k] if k < len(a) else 0) ^ (o >> k & 1) for k in range(n)])
            return (self - o).zero()
        if isinstance(o, SInt):
            if self.rng()[0] >= 0 and o.rng()[0] >= 0:
                a, b = self.bits(), o.bits()
                n = max(len(a), len(b))
                return mk_allzero([(a[k] if k < len(a) else 0) ^ (b[k] if k < len(b) else 0) for k in range(n)])
            d = self - o
            return d == 0 if isinstance(d, int) else d.zero()
        if isinstance(o, SLin):
            raise Undecided('comparison of a bit value with a symbolic length')
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def _lt(self, o):
        """self < o"""
        d = self - o
        if isinstance(d, int):
            return d < 0
        lo, hi = d.rng()
        if hi < 0:
            return True
        if lo >= 0:
            return False
        # sign bit: d + 2^k in [0, 2^(k+1)), k large enough; negative iff bit k clear
        k = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
        v = d + (1 << k)
        return SBool('bit', v.low(k + 1)[k] ^ 1).simp()

    def __lt__(self, o):
        return self._lt(o)

    def __ge__(self, o):
        return snot(self._lt(o))

    def __gt__(self, o):
        if isinstance(o, SInt):
            return o._lt(self)
        return snot(self._lt(o + 1))

    def __le__(self, o):
        return snot(self.__gt__(o))

    __hash__ = None

    def __bool__(self):
        return bool(snot(self.zero()))

    def __index__(self):
        raise Undecided('symbolic bit value used as an index or size')
    __int__ = __index__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SInt<%s>' % (('%d bits' % len(self.b)) if self.b is not None else 'form %d terms' % len(self.terms))

    def __format__(self, s):
        raise Undecided('formatting a symbolic integer')

    def bit_length(self):
        lo, hi = self.rng()
        if lo >= 0 and lo.bit_length() == hi.bit_length():
            return hi.bit_length()
        raise Undecided('bit_length of a symbolic bit value')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        lo, hi = self.rng()
        if signed or lo < 0:
            raise Undecided('to_bytes of a signed value')
        if hi >= 1 << (8 * length):
            if snot(mk_allzero(self.bits()[8 * length:])):
                raise OverflowError('int too big to convert')
        b = self.low(8 * length)
        v = [SInt(b[8 * i:8 * i + 8]).simp() for i in range(length)]
        return SBytes([tuple(v[::-1] if byteorder == 'big' else v)])

    def lookup(self, table):
        return lookup(table, self)

    def as_int(self):
        return self


def trim(b):
    while b and b[-1] == 0:
        b.pop()
    return b


def getbits(o):
    if isinstance(o, SInt):
        return o.bits()
    if isinstance(o, SBool):
        return getbits(o.as_int())
    if isinstance(o, int):
        return const_bits(int(o))
    if isinstance(o, SLinShr):
        raise Undecided('bitwise operation on an unbounded integer')
    return None


def carry_bit(low, c, K):
    """bit K of sum(v*m) + c, where 0 <= v, c < 2^K"""
    low = dict(low)
    j = 0
    if not low:
        return c >> K & 1
    j = min([(v & -v).bit_length() - 1 for v in low.values()] + ([(c & -c).bit_length() - 1] if c else []))
    while j < K and (low or c):
        odd = [m for m, v in low.items() if v >> j & 1]
        co = c >> j & 1
        n = len(odd) + co
        if n >= 2:
            break
        if n == 1:
            if co:
                c ^= 1 << j
            else:
                m = odd[0]
                v = low[m] ^ (1 << j)
                if v:
                    low[m] = v
                else:
                    del low[m]
        j += 1
    if not low:
        return c >> K & 1
    tot = sum(low.values()) + c
    if tot < 1 << K:
        return 0
    items = tuple(sorted((m, v >> j) for m, v in low.items()))
    c >>= j
    K -= j
    if len(items) <= 8:
        ms = tuple(m for m, _ in items)
        return fn_of(ms, lambda v: (c + sum(b * w for b, (_, w) in zip(v, items))) >> K & 1)
    return A.get(('sum', items, c, K))


def lookup(table, idx):
    if isinstance(idx, SBool):
        idx = idx.as_int()
    if isinstance(idx, int):
        return table[idx]
    if isinstance(idx, SInt):
        if idx.rng()[0] < 0:
            raise Undecided('possibly negative table index')
        if isinstance(table, tuple) and (id(table), 'ok') in A.tts:
            return table_lookup(table, trim(list(idx.bits())))
        if isinstance(table, SBytes) and not table.mutable:
            table = bytes(table.vec())
        if not isinstance(table, (tuple, list, bytes)) or not all(type(x) is int for x in table):
            raise Undecided('symbolic index into a non-table')
        if isinstance(table, tuple):
            A.tts[(id(table), 'ok')] = table
        else:
            table = tuple(table)
            table = A.tts.setdefault(('list', table), table)
        return table_lookup(table, trim(list(idx.bits())))
    raise Undecided('symbolic index')


# ------------------------------------------------------------------ SLin
class Var:
    """symbolic integer"""
    __slots__ = ('name', 'z')
    n = 0

    def __init__(self, name):
        self.name = name
        self.z = z3.Int(name)

    def __repr__(self):
        return self.name

    def key(self):
        return self.name

    def __lt__(self, o):
        return self.key() < o.key()


class Div:
    """floor(lin / n), n > 1 constant"""
    __slots__ = ('lin', 'n', 'k', 'z')
    cache = {}

    @classmethod
    def make(cls, lin, n):
        k = ('div', lin.key(), n)
        d = cls.cache.get(k)
        if d is None:
            d = cls.cache[k] = cls()
            d.lin, d.n, d.k = lin, n, 'floor((%s)/%d)' % (lin.key(), n)
            d.z = lin.z() / n          # z3 Int division is floor for positive divisors
        return d

    def __repr__(self):
        return self.k

    def key(self):
        return self.k

    def __lt__(self, o):
        return self.key() < o.key()


class SLin:
    __slots__ = ('t', 'c', '_k', '_z')

    def __init__(self, t, c):
        self.t, self.c, self._k, self._z = t, c, None, None

    @staticmethod
    def var(name):
        return SLin({Var(name): 1}, 0)

    def key(self):
        if self._k is None:
            self._k = '+'.join('%d*%s' % (v, x.key()) for x, v in sorted(self.t.items(), key=lambda i: i[0].key())) + '+%d' % self.c
        return self._k

    def z(self):
        if self._z is None:
            self._z = z3.Sum([v * x.z for x, v in self.t.items()] + [z3.IntVal(self.c)])
        return self._z

    def simp(self):
        return self.c if not self.t else self

    def _add(self, o, s):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SLin(self.t, self.c + s * o)
        if isinstance(o, SLin):
            keys = {x.key(): x for x in self.t}
            t = dict(self.t)
            for x, v in o.t.items():
                y = keys.get(x.key(), x)
                w = t.get(y, 0) + s * v
                if w:
                    t[y] = w
                else:
                    t.pop(y, None)
            return SLin(t, self.c + s * o.c).simp()
        if isinstance(o, SBool):
            return self._add(int(bool(o)), s)
        return NotImplemented

    def __add__(self, o):
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __neg__(self):
        return SLin({x: -v for x, v in self.t.items()}, -self.c)

    def __rsub__(self, o):
        return (-self)._add(o, 1)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes)):
            return rope_repeat(o, self)
        if isinstance(o, SLin):
            raise Undecided('product of two symbolic integers')
        if isinstance(o, SInt):
            raise Undecided('product of a symbolic length and a bit value')
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            return 0
        return SLin({x: v * o for x, v in self.t.items()}, self.c * o)
    __rmul__ = __mul__

    def __floordiv__(self, n):
        if not isinstance(n, int) or n <= 0:
            raise Undecided('division of a symbolic integer by %r' % (n,))
        if n == 1:
            return self
        out, rest = SLin({}, self.c // n), {}
        c = self.c % n
        q = {}
        for x, v in self.t.items():
            d, r = divmod(v, n)
            if d:
                q[x] = d
            if r:
                rest[x] = r
        res = SLin(q, self.c // n).simp()
        if not rest:
            return res
        del out
        inner = SLin(rest, c)
        # constant quotient known from the path?
        lo, hi = C.bounds(inner) if C else (None, None)
        if lo is not None and hi is not None and lo // n == hi // n:
            return res + lo // n
        return res + SLin({_div(inner, n): 1}, 0)

    def __mod__(self, n):
        return self - (self // n) * n

    def __divmod__(self, n):
        return self // n, self % n

    def __lshift__(self, k):
        if isinstance(k, int):
            return self * (1 << k)
        return NotImplemented

    def __rshift__(self, k):
        if isinstance(k, int):
            return SLinShr(self, k).simp()
        return NotImplemented

    def __and__(self, m):
        if isinstance(m, int) and m >= 0:
            return SLinShr(self, 0) & m
        raise Undecided('bitwise operation on a symbolic integer')
    __rand__ = __and__

    def __or__(self, m):
        raise Undecided('bitwise operation on a symbolic integer')
    __ror__ = __xor__ = __rxor__ = __or__

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= 1 << (8 * length):
            raise OverflowError('int too big to convert')
        v = [SLinShr(self, 8 * i) & 0xff for i in range(length)]
        return SBytes([tuple(v[::-1] if byteorder == 'big' else v)])

    def bit_length(self):
        raise Undecided('bit_length of a symbolic integer')

    def _cmp(self, o, op):
        d = self - o
        if d is NotImplemented:
            if isinstance(o, SInt):
                raise Undecided('comparison of a symbolic length with a bit value')
            return NotImplemented
        if isinstance(d, int):
            return {'<': d < 0, '<=': d <= 0, '==': d == 0}[op]
        return SBool('lin', (op, d)).simp()

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else snot(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else snot(r)

    def __eq__(self, o):
        if not isinstance(o, (int, SLin, SBool)):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        v = C.concretize(self)
        return v
    __int__ = __index__

    def __abs__(self):
        return -self if self < 0 else self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SLin(%s)' % self.key()


def _div(inner, n):
    return Div.make(inner, n)


class SLinShr:
    """floor(lin / 2^k), not yet masked"""
    __slots__ = ('lin', 'k')

    def __init__(self, lin, k):
        self.lin, self.k = lin, k

    def simp(self):
        if self.k == 0:
            return self.lin
        d = self.lin // (1 << self.k)
        if isinstance(d, int):
            return d
        return self

    def __and__(self, m):
        if not isinstance(m, int) or m < 0:
            raise Undecided('mask of an unbounded integer')
        lin = C.canon(self.lin)
        if isinstance(lin, int):
            return lin >> self.k & m
        if lin is not self.lin:
            return SLinShr(lin, self.k) & m
        OFFS.setdefault(lin.key(), lin)
        key = lin.key()
        lo, hi = C.bounds(self.lin)
        top = None if hi is None or lo is None or lo < 0 else hi.bit_length()
        bits = []
        for i in range(m.bit_length()):
            if not m >> i & 1:
                bits.append(0)
            elif top is not None and i + self.k >= top:
                bits.append(0)
            else:
                bits.append(A.get(('lin', key, i + self.k)))
        return SInt(bits).simp()
    __rand__ = __and__

    def __rshift__(self, k):
        return SLinShr(self.lin, self.k + k).simp()

    def as_lin(self):
        return self.lin // (1 << self.k)

    def __getattr__(self, n):
        raise Undecided('operation %s on a shifted symbolic integer' % n)

    def __add__(self, o):
        return self.as_lin() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_lin() - o

    def __rsub__(self, o):
        return o - self.as_lin()

    def __mul__(self, o):
        return self.as_lin() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_lin() < o

    def __le__(self, o):
        return self.as_lin() <= o

    def __gt__(self, o):
        return self.as_lin() > o

    def __ge__(self, o):
        return self.as_lin() >= o

    def __eq__(self, o):
        return self.as_lin() == o

    def __ne__(self, o):
        return self.as_lin() != o

    def __bool__(self):
        return bool(self.as_lin() != 0)

    def __floordiv__(self, o):
        return self.as_lin() // o

    def __mod__(self, o):
        return self.as_lin() % o
    __hash__ = None

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ SBool
class SBool:
    """kind 'bit': mask; 'zero': list of masks all zero; 'lin': (op, SLin) compared with 0; neg: negation"""
    __slots__ = ('kind', 'v', 'neg')

    def __init__(self, kind, v, neg=False):
        self.kind, self.v, self.neg = kind, v, neg

    def simp(self):
        if self.kind == 'bit' and self.v <= 1:
            return bool(self.v) != self.neg
        if self.kind == 'zero':
            if not self.v:
                return not self.neg
        return self

    def __bool__(self):
        return C.decide(self)

    def __invert__(self):
        return snot(self)

    def as_int(self):
        if self.kind == 'bit':
            return SInt([self.v ^ (1 if self.neg else 0)]).simp()
        return int(bool(self))

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return snot(self)
        if isinstance(o, int):
            return self if o == 1 else snot(self) if o == 0 else False
        return bool(self) == o

    def __ne__(self, o):
        return snot(self.__eq__(o))
    __hash__ = None

    def __and__(self, o):
        if isinstance(o, (SInt, int)) and not isinstance(o, bool):
            return self.as_int() & o
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SInt, int)) and not isinstance(o, bool):
            return self.as_int() | o
        return bool(self) or bool(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.as_int() ^ (o.as_int() if isinstance(o, SBool) else o)
    __rxor__ = __xor__

    def _n(self, f, o):
        return f(self.as_int(), o)

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __lshift__(self, k):
        return self.as_int() << k

    def __rshift__(self, k):
        return self.as_int() >> k

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SBool(%s%s)' % ('not ' if self.neg else '', self.kind)


def snot(b):
    if b is NotImplemented:
        return b
    if isinstance(b, SBool):
        return SBool(b.kind, b.v, not b.neg)
    return not b


def mk_allzero(ms):
    ms = [m for m in ms if m]
    if not ms:
        return True
    if 1 in ms:
        return False
    if len(ms) == 1:
        return SBool('bit', ms[0], True)
    if len(ms) <= 8:
        rows, ex = rref(ms)
        if len(rows) <= 8:
            return SBool('bit', fn_of(ms, lambda v: not any(v))).simp()
    return SBool('zero', tuple(ms))


# ------------------------------------------------------------------ byte arrays and ropes
class Base:
    """a (ghost) byte array indexed by integers"""
    __slots__ = ('name', 'unfold', 'value')     # value(ev, off): byte of the concrete stream in a model
    pool = {}

    def __new__(cls, name, unfold=None):
        """one object per name: invariants found on one path are used on others"""
        b = cls.pool.get(name)
        if b is None:
            b = cls.pool[name] = object.__new__(cls)
        return b

    def __init__(self, name, unfold=None):
        self.name, self.unfold, self.value = name, unfold, None

    def elem(self, off):
        k = off if isinstance(off, int) else off.key()
        if isinstance(off, int):
            k = '+%d' % off
        return SInt([A.get(('arr', self.name, k, i)) for i in range(8)])

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self


def okey(o):
    return '+%d' % o if isinstance(o, int) else o.key()


OFFS = {}        # lin key -> SLin/int, to recover offsets from atoms


class Slice:
    __slots__ = ('base', 'lo', 'hi')

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def __repr__(self):
        return '%s[%r:%r]' % (self.base.name, self.lo, self.hi)


class Fill:
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __repr__(self):
        return 'Fill(%r,%r)' % (self.v, self.n)


def plen(p):
    if isinstance(p, tuple):
        return len(p)
    if isinstance(p, Slice):
        return p.hi - p.lo
    return p.n


def same(a, b):
    """integers known equal"""
    d = a - b
    if isinstance(d, int):
        return d == 0
    return C.entails('==', d)


def le(a, b):
    """a <= b known"""
    d = a - b
    if isinstance(d, int):
        return d <= 0
    return C.entails('<=', d)


def norm_pieces(ps):
    out = []
    for p in ps:
        if isinstance(p, tuple):
            if not p:
                continue
            if out and isinstance(out[-1], tuple):
                out[-1] = out[-1] + p
                continue
        elif isinstance(p, Slice):
            d = p.hi - p.lo
            if isinstance(d, int) and d == 0:
                continue
            if not isinstance(d, int) and C.entails('==', d):
                continue
            if out and isinstance(out[-1], Slice) and out[-1].base is p.base and same(out[-1].hi, p.lo):
                out[-1] = Slice(p.base, out[-1].lo, p.hi)
                continue
        else:
            if isinstance(p.n, int):
                if p.n == 0:
                    continue
                p = (p.v,) * p.n
                if out and isinstance(out[-1], tuple):
                    out[-1] = out[-1] + p
                    continue
            elif C.entails('==', p.n):
                continue
            elif out and isinstance(out[-1], Fill) and isinstance(p.v, int) and isinstance(out[-1].v, int) and out[-1].v == p.v:
                out[-1] = Fill(p.v, out[-1].n + p.n)
                continue
        out.append(p)
    return out


def cut(ps, pos):
    """split pieces at position pos (0 <= pos <= length)"""
    left, acc = [], 0
    ps = list(ps)
    while ps:
        if isinstance(pos - acc, int) and pos - acc == 0:
            break
        p = ps[0]
        n = plen(p)
        d = pos - acc
        if isinstance(d, int) and isinstance(n, int):
            inside = d < n
        else:
            # fork on pos < acc + n
            inside = bool(d < n)
        if not inside:
            left.append(p)
            acc = acc + n
            ps.pop(0)
            continue
        if not isinstance(d, int) and C.entails('==', d):
            d = 0
        if isinstance(d, int) and d == 0:
            break
        if isinstance(p, tuple):
            if not isinstance(d, int):
                d = C.concretize(d)
            left.append(p[:d])
            ps[0] = p[d:]
        elif isinstance(p, Slice):
            left.append(Slice(p.base, p.lo, p.lo + d))
            ps[0] = Slice(p.base, p.lo + d, p.hi)
        else:
            left.append(Fill(p.v, d))
            ps[0] = Fill(p.v, p.n - d)
        break
    return norm_pieces(left), norm_pieces(ps)


def to_pieces(o):
    if isinstance(o, SBytes):
        return o.p
    if isinstance(o, (bytes, bytearray)):
        return [tuple(o)] if o else []
    return None


def check_byte(v):
    if isinstance(v, SBool):
        v = v.as_int()
    if isinstance(v, int):
        if not 0 <= v <= 255:
            raise ValueError('byte must be in range(0, 256)')
        return int(v)
    if isinstance(v, SInt):
        lo, hi = v.rng()
        if lo >= 0 and hi <= 255:
            if v.b is None:
                v.bits()
            return v
        if lo < 0:
            if v < 0:
                raise ValueError('byte must be in range(0, 256)')
        if v >= 256:
            raise ValueError('byte must be in range(0, 256)')
        return SInt(v.low(8)).simp()
    if isinstance(v, SLinShr):
        v = v.as_lin()
    if isinstance(v, SLin):
        if v < 0:
            raise ValueError('byte must be in range(0, 256)')
        if v >= 256:
            raise ValueError('byte must be in range(0, 256)')
        return v & 0xff
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)


class SBytes:
    """symbolic bytes (mutable == False) or bytearray"""
    mutable = False
    __slots__ = ('p', 'frozen', 'owner', '__weakref__')

    def __init__(self, pieces=(), owner=None):
        self.p = norm_pieces(pieces)
        self.frozen = None
        self.owner = owner

    # -- reading
    def length(self):
        n = 0
        for p in self.p:
            n = n + plen(p)
        return n

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else C.concretize(n)

    def vec(self):
        """list of byte values; the length must be constant"""
        if len(self.p) == 1 and isinstance(self.p[0], tuple):
            return list(self.p[0])
        n = self.length()
        if not isinstance(n, int):
            n = C.concretize(n)
        out = []
        for p in self.p:
            if isinstance(p, tuple):
                out += p
            else:
                k = plen(p)
                if not isinstance(k, int):
                    k = C.concretize(k)
                if isinstance(p, Slice):
                    out += [self.elem_of(p.base, p.lo + i) for i in range(k)]
                else:
                    out += [p.v] * k
        assert len(out) == n, (len(out), n, self.p)
        return out

    @staticmethod
    def elem_of(base, off):
        if not isinstance(off, int) and C is not None and C.sub:
            off = C.canon(off)
        if not isinstance(off, int):
            OFFS[off.key()] = off
        else:
            OFFS['+%d' % off] = off
        return base.elem(off)

    def at(self, i):
        if isinstance(i, SBool):
            i = i.as_int()
        if isinstance(i, SInt):
            b = i.bits()
            v = self.vec()
            if all(type(x) is int for x in v):
                return lookup(tuple(v), i)
            raise Undecided('symbolic index into symbolic bytes')
        n = self.length()
        if isinstance(i, SLinShr):
            i = i.as_lin()
        if isinstance(i, int) and i >= 0 and self.p and isinstance(self.p[0], tuple) and i < len(self.p[0]):
            return self.p[0][i]
        if i < 0:
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError('bytearray index out of range' if self.mutable else 'index out of range')
        _, r = cut(self.p, i)
        p = r[0]
        if isinstance(p, tuple):
            return p[0]
        if isinstance(p, Slice):
            return self.elem_of(p.base, p.lo)
        return p.v

    def sub(self, lo, hi):
        n = self.length()
        lo, hi = clamp(lo, n, 0), clamp(hi, n, n)
        d = hi - lo
        if isinstance(d, int):
            if d <= 0:
                return []
        elif C.entails('<=', d) or bool(d <= 0):
            return []
        a, _ = cut(self.p, hi)
        _, r = cut(a, lo)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
                v = self.vec()[i]
                return self.new([tuple(v)])
            return self.new(self.sub(i.start, i.stop))
        return self.at(i)

    def new(self, ps):
        return type(self)(ps)

    def __iter__(self):
        n = self.length()
        if not isinstance(n, int):
            raise Undecided('iteration over bytes of symbolic length')
        return iter(self.vec())

    def __reversed__(self):
        return iter(self.vec()[::-1])

    # -- operators
    def __add__(self, o):
        ps = to_pieces(o)
        if ps is None:
            raise TypeError("can't concat %s to %s" % (type(o).__name__, 'bytearray' if self.mutable else 'bytes'))
        return self.new(self.p + ps)

    def __radd__(self, o):
        ps = to_pieces(o)
        if ps is None:
            return NotImplemented
        t = SBytearray if isinstance(o, bytearray) else SBytes
        return t(ps + self.p)

    def __mul__(self, n):
        return type(self)(rope_repeat(self, n).p)
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, NonBytes):
            return NotImplemented
        ps = to_pieces(o)
        if ps is None:
            return False
        n, m = self.length(), SBytes(ps).length()
        d = n - m
        if isinstance(d, int):
            if d:
                return False
        elif not bool(d == 0):
            return False
        r = rope_diff(self.p, ps)
        if r is None:
            return True
        if r == 'unknown':
            raise Undecided('comparison of symbolic byte strings')
        return mk_allzero(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        raise Undecided('hash of symbolic bytes')

    def __bool__(self):
        return bool(self.length() != 0)

    def __contains__(self, x):
        raise Undecided('containment test on symbolic bytes')

    def __lt__(self, o):
        a, b = self.vec(), SBytes(to_pieces(o)).vec()
        if len(a) == len(b):
            f = lambda v: int_from_vec(v)
            return f(a) < f(b)
        raise Undecided('ordering of byte strings')

    def hex(self):
        return SHex(self.p)

    def __repr__(self):
        return '%s%r' % ('bytearray' if self.mutable else 'bytes', self.p)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('_') or not hasattr(bytearray if self.mutable else bytes, n):
            raise AttributeError(n)
        raise Undecided('bytes method %s' % n)

    def ljust(self, w, fill=b' '):
        n = self.length()
        d = w - n
        if bool(d <= 0):
            return self.new(self.p)
        return self.new(self.p + [Fill(to_pieces(fill)[0][0], d)])

    def rjust(self, w, fill=b' '):
        n = self.length()
        d = w - n
        if bool(d <= 0):
            return self.new(self.p)
        return self.new([Fill(to_pieces(fill)[0][0], d)] + self.p)

    def join(self, it):
        ps, first = [], True
        for x in it:
            if not first:
                ps = ps + self.p
            first = False
            q = to_pieces(x)
            if q is None:
                raise TypeError('sequence item: expected a bytes-like object')
            ps = ps + q
        return self.new(ps)

    def copy(self):
        if not self.mutable:
            raise AttributeError('copy')
        return SBytearray(self.p)


def int_from_vec(v):
    r = 0
    for b in v:
        r = (r << 8) + b
    return r


class SBytearray(SBytes):
    mutable = True
    __slots__ = ()
    __hash__ = None

    def _w(self):
        if self.frozen:
            raise Unproved('in-place change of a possibly shared buffer: %s' % self.frozen)
        if C is not None:
            C.written(self)

    def put(self, ps):
        self._w()
        self.p = norm_pieces(ps)

    def __setitem__(self, i, v):
        self._w()
        if isinstance(i, slice):
            if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
                raise Undecided('extended slice assignment')
            n = self.length()
            lo, hi = clamp(i.start, n, 0), clamp(i.stop, n, n)
            ps = to_pieces(v)
            if ps is None:
                if isinstance(v, (SInt, SLin, int)):
                    raise TypeError('can assign only bytes, buffers, or iterables of ints in range(0, 256)')
                ps = [tuple(check_byte(x) for x in v)]
            if not isinstance(hi - lo, int) or hi - lo < 0:
                if bool(hi < lo):
                    hi = lo
            elif hi - lo < 0:
                hi = lo
            a, _ = cut(self.p, lo)
            _, b = cut(self.p, hi)
            self.p = norm_pieces(list(a) + list(ps) + list(b))
            return
        v = check_byte(v)
        n = self.length()
        if isinstance(i, SLinShr):
            i = i.as_lin()
        if isinstance(i, SInt):
            raise Undecided('store at a bit-valued index')
        if len(self.p) == 1 and isinstance(self.p[0], tuple) and isinstance(i, int):
            l = list(self.p[0])
            try:
                l[i] = v
            except IndexError:
                raise IndexError('bytearray index out of range')
            self.p = [tuple(l)]
            return
        if i < 0:
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError('bytearray index out of range')
        a, r = cut(self.p, i)
        _, b = cut(r, 1)
        self.p = norm_pieces(list(a) + [(v,)] + list(b))

    def __delitem__(self, i):
        self._w()
        if isinstance(i, slice) and i.step in (None, 1):
            self[i] = b''
            return
        raise Undecided('deletion of a byte')

    def __iadd__(self, o):
        ps = to_pieces(o)
        if ps is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.put(self.p + list(ps))
        return self

    def __imul__(self, n):
        self.put(rope_repeat(self, n).p)
        return self

    def extend(self, o):
        ps = to_pieces(o)
        if ps is None:
            ps = [tuple(check_byte(x) for x in o)]
        self.put(self.p + list(ps))

    def append(self, v):
        self.put(self.p + [(check_byte(v),)])

    def clear(self):
        self.put([])

    def reverse(self):
        self.put([tuple(self.vec()[::-1])])

    def insert(self, i, v):
        self[i:i] = [v]

    def pop(self, i=-1):
        v = self.at(i)
        if i == -1:
            self.put(SBytes(self.p).sub(None, -1))
        else:
            self[i:i + 1] = b''
        return v

    def __deepcopy__(self, memo):
        r = SBytearray(self.p)
        memo[id(self)] = r
        return r

    def __copy__(self):
        return SBytearray(self.p)


class SHex:
    """hexadecimal text of a byte string"""

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        if isinstance(o, SHex):
            return SBytes(self.p) == SBytes(o.p)
        return False
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Undecided('text method %s on a hexadecimal string' % n)


def clamp(i, n, default):
    if i is None:
        return default
    if isinstance(i, SLinShr):
        i = i.as_lin()
    if isinstance(i, SBool):
        i = int(bool(i))
    if isinstance(i, SInt):
        raise Undecided('bit value as slice bound')
    if not isinstance(i, (int, SLin)):
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    if isinstance(i, int):
        neg = i < 0
    else:
        neg = bool(i < 0)
    if neg:
        i = i + n
        if isinstance(i, int):
            return max(i, 0)
        return 0 if bool(i < 0) else i
    d = i - n
    if isinstance(d, int):
        return n if d > 0 else i
    if C.entails('<=', d):
        return i
    return n if bool(d > 0) else i


def rope_repeat(o, n):
    ps = to_pieces(o)
    if isinstance(n, SBool):
        n = int(bool(n))
    if isinstance(n, int):
        return (SBytearray if isinstance(o, bytearray) or getattr(o, 'mutable', False) else SBytes)(list(ps) * max(n, 0))
    if not isinstance(n, SLin):
        raise Undecided('repeat count')
    t = SBytearray if isinstance(o, bytearray) or getattr(o, 'mutable', False) else SBytes
    if bool(n <= 0):
        return t([])
    if len(ps) == 1 and isinstance(ps[0], tuple) and len(ps[0]) == 1:
        return t([Fill(ps[0][0], n)])
    if not ps:
        return t([])
    raise Undecided('repetition of a byte string a symbolic number of times')


def elem_bits(v):
    """8 masks of a byte value"""
    if isinstance(v, int):
        return [v >> k & 1 for k in range(8)]
    b = v.bits()
    return list(b[:8]) + [0] * (8 - len(b))


def rope_diff(p, q):
    """None if equal; 'unknown'; or the masks that must vanish for equality. Lengths are equal."""
    p, q = norm_pieces(p), norm_pieces(q)
    diff = []
    while p and q:
        a, b = p[0], q[0]
        if isinstance(a, Slice) and isinstance(b, Slice) and a.base is b.base and same(a.lo, b.lo):
            na, nb = plen(a), plen(b)
            d = na - nb
            if isinstance(d, int) and d == 0 or not isinstance(d, int) and C.entails('==', d):
                p.pop(0)
                q.pop(0)
                continue
            if le(na, nb):
                p.pop(0)
                _, q = cut(q, na)
                continue
            if le(nb, na):
                q.pop(0)
                _, p = cut(p, nb)
                continue
            return 'unknown'
        if isinstance(a, Fill) and isinstance(b, Fill) and isinstance(a.v, int) and isinstance(b.v, int) and a.v == b.v:
            if le(a.n, b.n):
                p.pop(0)
                _, q = cut(q, a.n)
                continue
            if le(b.n, a.n):
                q.pop(0)
                _, p = cut(p, b.n)
                continue
            return 'unknown'
        na, nb = C.canon(plen(a)), C.canon(plen(b))
        k = None
        if isinstance(na, int) and isinstance(nb, int):
            k = min(na, nb)
        elif isinstance(na, int) and le(na, nb):
            k = na
        elif isinstance(nb, int) and le(nb, na):
            k = nb
        if k is None:
            return 'unknown'
        x, p = cut(p, k)
        y, q = cut(q, k)
        for u, v in zip(SBytes(x).vec(), SBytes(y).vec()):
            if u is v:
                continue
            if isinstance(u, int) and isinstance(v, int):
                if u != v:
                    diff.append(1)
                continue
            for m, w in zip(elem_bits(u), elem_bits(v)):
                if m != w:
                    m = C.unf(m ^ w)
                    if m:
                        diff.append(m)
    for r in (p, q):
        for x in r:
            n = plen(x)
            if isinstance(n, int):
                if n:
                    return 'unknown'
            elif not C.entails('==', n):
                return 'unknown'
    return diff or None


class NonBytes:
    """an arbitrary object that is not bytes or bytearray: equal to no byte string, no usable operation"""

    def __init__(self, name='non-bytes object'):
        self.name = name

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return 1

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Undecided('attribute %s of an arbitrary object' % n)

    def _bad(self, *a):
        raise OpaqueUse('an arbitrary non-bytes object is used before it was refused')
    __len__ = __getitem__ = __iter__ = __add__ = __radd__ = __bool__ = __bytes__ = __mul__ = __rmul__ = __mod__ = __int__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __sub__ = __index__ = __floordiv__ = __rmod__ = _bad

    def __deepcopy__(self, memo):
        return self


class OpaqueUse(Exception):
    pass


def fresh_bytes(name, n, mutable=False):
    """n symbolic bytes"""
    v = tuple(SInt([A.get(('var', name, i, k)) for k in range(8)]) for i in range(n))
    return (SBytearray if mutable else SBytes)([v])


def rope(base, lo, hi, mutable=False):
    for o in (lo, hi):
        if not isinstance(o, int):
            OFFS[o.key()] = o
    return (SBytearray if mutable else SBytes)([Slice(base, lo, hi)])
