"""Loads the real source of /repo for the verifier, on every run.

The source text is parsed and compiled after these mechanical rewrites and nothing else:
  * a[i] (load)          -> __vc_sub__(a, i)         so that a table may be indexed by symbolic bits
  * b'..' (bytes literal)-> __vc_b__(b'..')          so that literals are ropes
  * for/while in a function -> the same loop driven by a loop object when its trip count is symbolic
                            (the body is unchanged; break, continue, else and return work natively)
  * yield E (statement)  -> the same, repeated after the verifier has sent values for the local variables
  * a recursive function -> its calls go through the verifier, which runs the same body
  * __del__              -> same body, exceptions recorded (CPython would swallow them)
  * builtins bytes, bytearray, int, len, range, min, max, type and the modules struct, os
    resolve to versions that accept symbolic arguments and agree with the originals on concrete ones
Nothing is dropped except docstring text; type annotations are not evaluated.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os as _os
import struct as _struct
import sys
import types

from . import core
from .core import (SBytes, SBytearray, SInt, SLin, SLinShr, SBool, NonBytes, OpaqueUse, Undecided,
                   Poison, to_pieces, check_byte, int_from_vec, SHex)

REPO = _os.environ.get('PYVC_REPO') or _os.environ.get('GOSTREPO') or '/repo'
PKG = 'gostcrypto'


# ---------------------------------------------------------------- AST
class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.stack = []
        self.nloop = {}
        self.gennames = None

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Yield) or self.gennames is None:
            self.generic_visit(n)
            return n
        # yield E -> the verifier may send new values of the local variables; E is then evaluated again
        self.generic_visit(n)
        e = n.value.value or ast.Constant(None)
        y = lambda: ast.Assign([ast.Name('__vc_s__', ast.Store())], ast.Yield(self._copy(e)))
        body = [ast.parse('%s = __vc_s__[%r]' % (v, v)).body[0] for v in self.gennames]
        body = [ast.If(ast.parse('%r in __vc_s__' % v, mode='eval').body, [b], []) for v, b in zip(self.gennames, body)]
        out = [y(), ast.While(ast.parse('__vc_s__ is not None', mode='eval').body, body + [y()], [])]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)
                  if x is not n)
        names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs] + [x for x in self.stored(n.body)]
        outer = self.gennames
        self.gennames = list(dict.fromkeys(names)) if gen and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)) else None
        rec = any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == n.name or isinstance(x.func, ast.Attribute) and
                  isinstance(x.func.value, ast.Name) and x.func.value.id in ('self', 'cls') and x.func.attr == n.name) for x in ast.walk(n))
        q = '.'.join([x for x, _ in self.stack] + [n.name])
        self.stack.append((n.name, gen))
        isdel = n.name == '__del__'
        self.generic_visit(n)
        self.stack.pop()
        self.gennames = outer
        if rec and not gen:
            n.decorator_list = n.decorator_list + [ast.Call(ast.Name('__vc_rec__', ast.Load()), [ast.Constant('%s:%s' % (_os.path.basename(self.fname), q))], [])]
        if isdel:
            n.decorator_list = n.decorator_list + [ast.Name('__vc_del__', ast.Load())]
        return n

    def visit_ClassDef(self, n):
        self.stack.append((n.name, None))
        self.generic_visit(n)
        self.stack.pop()
        if any(isinstance(x, ast.FunctionDef) and x.name == '__del__' for x in n.body):
            n.decorator_list = [ast.Name('__vc_owned__', ast.Load())] + n.decorator_list
        return n

    def visit_Lambda(self, n):
        self.stack.append(('<lambda>', True))
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(ast.Name('__vc_b__', ast.Load()), [n], []), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        s = n.slice
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            s = ast.Call(ast.Name('__vc_slice__', ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
        return ast.copy_location(ast.Call(ast.Name('__vc_sub__', ast.Load()), [n.value, s], []), n)

    def site(self, n):
        q = '.'.join(x for x, _ in self.stack)
        k = self.nloop[q] = self.nloop.get(q, 0) + 1
        return '%s:%s#%d' % (_os.path.basename(self.fname), q, k)

    def in_function(self):
        return bool(self.stack) and self.stack[-1][1] is False

    @staticmethod
    def stored(nodes):
        out = []
        def walk(x):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name not in out:
                    out.append(x.name)
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr) and y.target.id not in out:
                        out.append(y.target.id)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out:
                out.append(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name and x.name not in out:
                out.append(x.name)
            for y in ast.iter_child_nodes(x):
                walk(y)
        for n in nodes:
            walk(n)
        return out

    def _copy(self, x):
        import copy
        return copy.deepcopy(x)

    def _sync(self, L, names):
        st = []
        for v in names:
            st.append('    %s = %s.val(%r)' % (v, L, v))
        if not st:
            st = ['    pass']
        return ast.parse('if %s.sync:\n%s\n' % (L, '\n'.join(st))).body

    def visit_For(self, n):
        site = self.site(n)
        self.generic_visit(n)
        if not self.in_function():
            return n
        L = '__vc_L%d_%d__' % (n.lineno, n.col_offset)
        names = self.stored([n.target] + n.body)
        native = ast.For(self._copy(n.target), ast.Attribute(ast.Name(L, ast.Load()), 'native', ast.Load()),
                         self._copy(n.body), self._copy(n.orelse), None)
        head = self._sync(L, names) + [ast.Assign([self._copy(n.target)], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'item', ast.Load()), [], []))]
        sym = ast.While(ast.parse('%s.enter(locals())' % L, mode='eval').body, head + n.body,
                        self._sync(L, names) + n.orelse)
        out = [ast.Assign([ast.Name(L, ast.Store())],
                          ast.Call(ast.Name('__vc_for__', ast.Load()), [ast.Constant(site), n.iter, ast.Constant(tuple(names))], [])),
               ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'concrete', ast.Load()), [native], [sym])]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, n):
        site = self.site(n)
        self.generic_visit(n)
        if not self.in_function():
            return n
        L = '__vc_L%d_%d__' % (n.lineno, n.col_offset)
        names = self.stored([n.test] + n.body)
        # while True: sync; evaluate the condition as often as the loop object asks for it
        test = n.test
        pre = ast.parse('%s.head(locals())' % L).body
        again = ast.While(ast.parse('%s.probe()' % L, mode='eval').body,
                          self._sync(L, names) + [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'cond', ast.Load()), [self._copy(test), ast.parse('locals()', mode='eval').body], []))], [])
        stop = ast.If(ast.parse('not %s.go' % L, mode='eval').body, self._copy(n.orelse) + [ast.Break()], [])
        loop = ast.While(ast.Constant(True), pre + [again] + self._sync(L, names) + [stop] + n.body, [])
        out = [ast.Assign([ast.Name(L, ast.Store())],
                          ast.Call(ast.Name('__vc_while__', ast.Load()), [ast.Constant(site), ast.Constant(tuple(names))], [])), loop]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out


# ---------------------------------------------------------------- builtins
def vc_b(b):
    return SBytes([tuple(b)] if b else [])


def vc_sub(a, i):
    t = type(i)
    if t is SInt or t is SBool:
        if isinstance(a, (tuple, list)):
            return core.lookup(a, i)
        if isinstance(a, (bytes, bytearray)):
            return core.lookup(tuple(a), i)
    if isinstance(a, (bytes, bytearray)):
        return SBytes([tuple(a)])[i]
    if isinstance(a, dict) and core.C is not None:
        return a[i]
    return a[i]


class _MetaBytes(type):
    def __instancecheck__(cls, x):
        return type(x) is SBytes or type(x) is bytes

    def __call__(cls, *a, **k):
        return mk_bytes(SBytes, *a, **k)


class _MetaBytearray(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SBytearray) or type(x) is bytearray

    def __call__(cls, *a, **k):
        return mk_bytes(SBytearray, *a, **k)


def mk_bytes(t, src=None, *a, **k):
    if src is None:
        return t([])
    if isinstance(src, str):
        return t([tuple(builtins.bytearray(src, *a, **k))])
    ps = to_pieces(src)
    if ps is not None:
        return t(list(ps))
    if isinstance(src, SLinShr):
        src = src.as_lin()
    if isinstance(src, bool):
        src = int(src)
    if isinstance(src, builtins.int):
        if src < 0:
            raise ValueError('negative count')
        return t([(0,) * src])
    if isinstance(src, SLin):
        if src < 0:
            raise ValueError('negative count')
        return t([core.Fill(0, src)])
    if isinstance(src, SInt):
        raise Undecided('buffer of a size given by a bit value')
    if isinstance(src, NonBytes):
        raise OpaqueUse('an arbitrary object is converted to bytes')
    return t([tuple(check_byte(x) for x in src)])


class bytes_(metaclass=_MetaBytes):
    @staticmethod
    def fromhex(s):
        return vc_b(builtins.bytes.fromhex(s))


class bytearray_(metaclass=_MetaBytearray):
    @staticmethod
    def fromhex(s):
        return SBytearray([tuple(builtins.bytes.fromhex(s))])


class _MetaInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt, SLin)) or getattr(x, 'is_sym_int', False)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], (SInt, SLin, SLinShr)):
            return a[0].as_lin() if isinstance(a[0], SLinShr) else a[0]
        if a and isinstance(a[0], SBool):
            return a[0].as_int()
        if a and getattr(a[0], 'is_sym_int', False):
            return a[0]
        if a and hasattr(a[0], 'vc_int'):
            return a[0].vc_int(*a[1:], **k)
        return builtins.int(*a, **k)


class int_(metaclass=_MetaInt):
    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if isinstance(b, NonBytes):
            raise OpaqueUse('an arbitrary object is converted to an integer')
        ps = to_pieces(b)
        if ps is None:
            b = mk_bytes(SBytes, b)
        else:
            b = SBytes(ps)
        if signed:
            raise Undecided('signed from_bytes')
        h = getattr(core.C, 'from_bytes', None)
        if h is not None:
            r = h(b, byteorder)
            if r is not None:
                return r
        v = b.vec()
        if byteorder == 'big':
            v = v[::-1]
        if all(isinstance(x, builtins.int) for x in v):
            return builtins.int.from_bytes(builtins.bytes(v), 'little')
        bits = []
        for x in v:
            bits += core.elem_bits(x)
        return SInt(core.trim(bits)).simp()

    to_bytes = builtins.int.to_bytes


def len_(x):
    if isinstance(x, SBytes):
        return x.length()
    f = getattr(x, 'vc_len', None)
    if f is not None:
        return f()
    return builtins.len(x)


class SRange:
    """range with a symbolic bound"""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def trips(self):
        if not isinstance(self.s, builtins.int):
            raise Undecided('symbolic range step')
        if self.s == 0:
            raise ValueError('range() arg 3 must not be zero')
        d = self.b - self.a if self.s > 0 else self.a - self.b
        if not bool(d > 0):
            return 0
        s = abs(self.s)
        return (d + (s - 1)) // s

    def at(self, k):
        return self.a + self.s * k

    def __iter__(self):
        t = self.trips()
        if not isinstance(t, builtins.int):
            raise Undecided('iteration over a range of symbolic length')
        return iter([self.at(k) for k in builtins.range(t)])

    def __reversed__(self):
        t = self.trips()
        return SRange(self.at(t - 1), self.a - self.s, -self.s)

    def vc_len(self):
        return self.trips()

    def __len__(self):
        raise Undecided('length of a symbolic range')


class SEnum:
    def __init__(self, r, start=0):
        self.r, self.start = r, start

    def trips(self):
        return self.r.trips()

    def at(self, k):
        return (k + self.start, self.r.at(k))

    def __iter__(self):
        t = self.trips()
        if not isinstance(t, builtins.int):
            raise Undecided('iteration over a symbolic number of elements')
        return iter([self.at(k) for k in builtins.range(t)])


class SElems:
    """the bytes of a buffer of symbolic length"""

    def __init__(self, b):
        self.b = SBytes(b.p)

    def trips(self):
        return self.b.length()

    def at(self, k):
        return self.b.at(k)

    __iter__ = SEnum.__iter__


def enumerate_(x, start=0):
    if isinstance(x, SBytes) and not isinstance(x.length(), builtins.int):
        x = SElems(x)
    if hasattr(x, 'trips'):
        return SEnum(x, start)
    return builtins.enumerate(x, start)


def range_(*a):
    a = [x.as_lin() if isinstance(x, SLinShr) else x for x in a]
    if all(isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if any(isinstance(x, (NonBytes,)) for x in a):
        raise OpaqueUse('an arbitrary object is used as a count')
    if any(isinstance(x, SInt) for x in a):
        raise Undecided('range over a bit value')
    if len(a) == 1:
        return SRange(0, a[0], 1)
    return SRange(a[0], a[1], a[2] if len(a) > 2 else 1)


def min_(*a, **k):
    return _best(a, k, lambda x, y: x < y, builtins.min)


def max_(*a, **k):
    return _best(a, k, lambda x, y: x > y, builtins.max)


def _best(a, k, better, native):
    if k:
        return native(*a, **k)
    it = list(a[0]) if len(a) == 1 else list(a)
    if not it:
        raise ValueError('arg is an empty sequence')
    r = it[0]
    for x in it[1:]:
        if better(x, r):
            r = x
    return r


def type_(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if isinstance(x, SBytearray):
        return bytearray_
    if isinstance(x, SBytes):
        return bytes_
    if isinstance(x, (SInt, SLin)):
        return int_
    if isinstance(x, SBool):
        return bool
    return builtins.type(x)


OWNER = {}


def vc_owned(cls):
    """remember on which path an object was made: Python may delete it during a later one"""
    def __new__(c, *args, **kw):
        o = object.__new__(c)
        OWNER[id(o)] = getattr(core.C, 'serial', None)
        return o
    cls.__new__ = __new__
    return cls


def vc_rec(site):
    def deco(f):
        def call(*a, **k):
            h = getattr(core.C, 'recursive', None)
            return f(*a, **k) if h is None else h(site, f, a, k)
        call.__name__ = f.__name__
        return call
    return deco


def vc_del(f):
    def __del__(self):
        c = core.C
        if c is None or not getattr(c, 'live', False) or OWNER.pop(id(self), None) != c.serial:
            return
        try:
            f(self)
        except BaseException as e:          # recorded; raised again by the engine
            if not isinstance(e, Exception):
                c.pending = e
            # an ordinary exception in __del__ is printed and ignored by CPython
    return __del__


def pack_(fmt, *args):
    order = 'big' if fmt[:1] in '>!' else 'little' if fmt[:1] == '<' else None
    codes = fmt.lstrip('<>!=@')
    size = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
    import re
    codes = re.sub(r'(\d+)(.)', lambda m: m.group(2) * builtins.int(m.group(1)), codes)
    if order is None and any(size.get(x, 9) > 1 for x in codes) or any(x not in size for x in codes):
        raise Undecided('struct format %r' % fmt)
    if len(codes) != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (len(codes), len(args)))
    out = []
    for x, a in zip(codes, args):
        n = size[x]
        if isinstance(a, SLinShr):
            a = a.as_lin()
        if isinstance(a, builtins.int):
            try:
                out.append(tuple(builtins.int(a).to_bytes(n, order or 'big')))
            except OverflowError:
                raise _struct.error('argument out of range')
        else:
            try:
                out += a.to_bytes(n, order or 'big').p
            except OverflowError:
                raise _struct.error('argument out of range')
    return SBytes(out)


def unpack_(fmt, data):
    order = 'big' if fmt[:1] in '>!' else 'little' if fmt[:1] == '<' else None
    codes = fmt.lstrip('<>!=@')
    size = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
    if order is None or any(x not in size for x in codes):
        raise Undecided('struct format %r' % fmt)
    v = SBytes(to_pieces(data)).vec()
    if len(v) != sum(size[x] for x in codes):
        raise _struct.error('unpack requires a buffer of other size')
    out, p = [], 0
    for x in codes:
        w = v[p:p + size[x]]
        p += size[x]
        out.append(int_.from_bytes(SBytes([tuple(w)]), order))
    return tuple(out)


struct_mod = types.ModuleType('struct')
struct_mod.pack, struct_mod.unpack, struct_mod.error = pack_, unpack_, _struct.error
os_mod = types.ModuleType('os')


def urandom(n):
    return core.C.urandom(n)


os_mod.urandom = urandom
secrets_mod = types.ModuleType('secrets')
secrets_mod.token_bytes = urandom


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'struct':
            return struct_mod
        if name == 'os':
            return os_mod
        if name == 'secrets':
            return secrets_mod
    return builtins.__import__(name, globals, locals, fromlist, level)


def vc_for(site, it, names):
    return core.C.for_loop(site, it, names)


def vc_while(site, names):
    return core.C.while_loop(site, names)


class ModLoader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.path).visit(tree)
        ast.fix_missing_locations(tree)
        b = dict(vars(builtins))
        b.update(bytes=bytes_, bytearray=bytearray_, int=int_, len=len_, range=range_, min=min_, max=max_, type=type_,
                 enumerate=enumerate_, __import__=import_, __vc_sub__=vc_sub, __vc_b__=vc_b, __vc_slice__=builtins.slice,
                 __vc_for__=vc_for, __vc_while__=vc_while, __vc_del__=vc_del, __vc_rec__=vc_rec, __vc_owned__=vc_owned)
        mod.__dict__['__builtins__'] = b
        exec(compile(tree, self.path, 'exec'), mod.__dict__)
        SOURCES[mod.__name__] = src


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        p = _os.path.join(REPO, *name.split('.'))
        if _os.path.isdir(p):
            f, pk = _os.path.join(p, '__init__.py'), True
        else:
            f, pk = p + '.py', False
        if not _os.path.exists(f):
            return None
        return importlib.machinery.ModuleSpec(name, ModLoader(f, pk), origin=f, is_package=pk)


_finder = Finder()


def load():
    """(re)load the instrumented package; returns the module table"""
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    import importlib
    importlib.import_module(PKG)
    return {m: sys.modules[m] for m in sys.modules if m.startswith(PKG + '.')}
