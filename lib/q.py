"""Queries over the gated value analysis: run a function once, then ask what holds at its events."""
import sys
import interp
from interp import last, last2, leaves, Fail
from terms import *
from core import NoAnswer

sys.setrecursionlimit(50000)
_cache = {}


class An:
    def __init__(self, prog, fn, boundary=None, args=None, pre=None):
        self.fn = fn
        self.prog = prog
        self.I = I = interp.Interp(prog, boundary=boundary)
        try:
            st = interp.State()
            if pre:
                st.pc = tuple(pre)
            self.st, self.ret = I.run_root(fn, args, st)
        except Fail as e:
            raise NoAnswer('%s could not be analysed: %s' % (fn.npath, e))
        self.events = I.events

    def ev(self, kind=None, name=None):
        for e in self.events:
            if kind is not None and e.kind != kind:
                continue
            if name is not None and not (e.name or '').endswith(name):
                continue
            yield e

    def at(self, e, v, *projs):
        """what the reference v points at when event e happens"""
        st = interp.State(dict(e.mem), e.pc)
        out = BOT
        for c, b, p in reversed(self.I.deref(v, None)):
            x = self.I.read(st, b, p + tuple(projs))
            out = x if out is BOT else ite(c, x, out)
        return self.I.simp(out, e.pc)

    def arg(self, i):
        return mk('sym', 'arg%d' % i)

    def final(self, base):
        return self.I.val(self.st, base)

    def under(self, t, *lits):
        """t where the literals hold"""
        return deep(t, lits)

    def pf(self, v, *path):
        for p in path:
            if isinstance(p, tuple):
                v = self.I.pf(v, p[0], p[1])
            else:
                v = self.I.pf(v, 0, p)
        return v

    def holds(self, pc, g):
        return holds(self.I, pc, g)

    def same(self, a, b, pc=()):
        return same(self.I, a, b, pc)


def holds(I, pc, g):
    g = I.simp(g, tuple(pc))
    if g is TRUE:
        return True
    return Lin(pc, interp.is_signed).holds(g)


def same(I, a, b, pc=()):
    if a is b:
        return True
    a = I.simp(a, tuple(pc))
    b = I.simp(b, tuple(pc))
    if a is b:
        return True
    d = sub(a, b)
    if d is ZERO:
        return True
    return Lin(pc, interp.is_signed).holds(eq(a, b))


def analyse(prog, fn, boundary=None, tag=None, pre=None, args=None):
    k = (fn.key, tag)
    if k not in _cache:
        _cache[k] = An(prog, fn, boundary, pre=pre, args=args)
    return _cache[k]


def fns(prog, npath_suffix):
    return [f for f in prog.local() if f.blocks and (f.npath == npath_suffix or f.npath.endswith('::' + npath_suffix))]


def fn(prog, npath_suffix):
    fs = fns(prog, npath_suffix)
    if not fs:
        raise NoAnswer('no function %s' % npath_suffix)
    return fs[0]


def tname(prog, ty):
    """last path segment of an adt type, or None"""
    if ty is None:
        return None
    t = prog.types[ty]
    return t['path'].rsplit('::', 1)[-1] if t['k'] == 'adt' else None


def fields_of_type(prog, adt_suffix, pred):
    """indices of the fields of a struct whose type satisfies pred"""
    for t in prog.types.values() if isinstance(prog.types, dict) else prog.types:
        if t and t['k'] == 'adt' and (t['path'] == adt_suffix or t['path'].endswith('::' + adt_suffix)):
            return [i for i, f in enumerate(t['fields'][0]) if pred(f)]
    return []


def subs(t):
    return subterms(t)


def mentions(t, x):
    return contains(t, lambda y: y is x)


BULK = ('copy_from', 'add_from', 'clear', 'fill_with_value', 'fill_channel_with_value', 'fill_from_interleaved', 'copy_to_interleaved',
        'clear_range', 'copy_within', 'duplicate_channel', 'apply_gain', 'apply_gain_value', 'add_from_with_gain', 'range_is_valid',
        'set_sample', 'get_sample')


def bulk(c):
    """a bulk operation on an audio buffer stays one event; what it does is decided on its own"""
    import models
    if c.trait == 'AudioBuffer' and c.meth not in models.SHAPE and c.meth not in ('get_channel_data', 'get_channel_data_mut'):
        c.name = 'AudioBuffer::' + c.meth
        return models.opaque(c, havoc=False)
    return None


# -- real arithmetic over float terms ------------------------------------------------------------------
from fractions import Fraction


def fpoly(t, memo=None):
    """a float term as a polynomial over what it cannot see into: {monomial: coefficient}"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    o = t.op
    r = None
    if o == 'fl':
        v = Fraction(t.a[0]) if isinstance(t.a[0], (int, float)) else Fraction(str(t.a[0]))
        r = {(): v} if v else {}
    elif o in ('fadd', 'fsub'):
        a, b = fpoly(t.a[0], memo), fpoly(t.a[1], memo)
        r = dict(a)
        for m, c in b.items():
            c = r.get(m, 0) + (c if o == 'fadd' else -c)
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    elif o == 'fmul':
        r = pmul(fpoly(t.a[0], memo), fpoly(t.a[1], memo))
    elif o == 'fneg':
        r = {m: -c for m, c in fpoly(t.a[0], memo).items()}
    elif o == 'fdiv':
        d = fpoly(t.a[1], memo)
        if set(d) == {()}:
            r = {m: c / d[()] for m, c in fpoly(t.a[0], memo).items()}
        elif len(d) == 1:
            (m, c), = d.items()
            m = tuple(sorted((x.a[0] if x.op == 'inv' else mk('inv', x) for x in m), key=id))
            r = pmul(fpoly(t.a[0], memo), {m: 1 / c})
        else:
            r = pmul(fpoly(t.a[0], memo), {(mk('inv', t.a[1]),): Fraction(1)})
    elif o == 'f2f':
        r = fpoly(t.a[0], memo)
    elif o == 'i2f':
        c, ms = poly_parts(t.a[0])
        r = {(): Fraction(c)} if c else {}
        for m, k in ms.items():
            r[(mk('i2f', m),)] = Fraction(k)
    if r is None:
        r = {(t,): Fraction(1)}
    memo[t] = r
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=id))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pequal(a, b, eps=1e-6):
    return all(abs(c) <= eps for c in psub(a, b).values())


def real_equal(a, b):
    return a is b or pequal(fpoly(a), fpoly(b)) or rkey(a) == rkey(b)


_rk = {}


def rkey(t):
    """a key that is the same for float terms equal by the laws of a commutative ring, also inside functions"""
    if isinstance(t, tuple):
        return tuple(rkey(x) for x in t)
    if not isinstance(t, T):
        return t
    if t in _rk:
        return _rk[t]
    p = fpoly(t) if t.op in ('fl', 'fadd', 'fsub', 'fmul', 'fneg', 'fdiv', 'f2f', 'i2f') else None
    if p is None or set(p) == {(t,)} or not t.a:
        k = (t.op,) + tuple(rkey(x) for x in t.a)
    else:
        k = ('fpoly', frozenset((tuple(sorted(rkey(x) for x in m)), c) for m, c in p.items()))
    r = _rk[t] = _rki.setdefault(k, len(_rki))
    return r


_rki = {}


_rep = {}
_canon = {}


def below(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from below(y)


def canon(t):
    """the first term seen of those equal by the laws of a commutative ring"""
    if t in _canon:
        return _canon[t]
    if t.op == 'f2f':
        r = _canon[t] = canon(t.a[0])
        return r
    r = t
    if t.a and any(isinstance(x, (T, tuple)) for x in t.a):
        m = {x: canon(x) for x in below(t.a)}
        m = {x: y for x, y in m.items() if x is not y}
        if m:
            r = subst(t, m)
    if r.op in ('fadd', 'fsub', 'fmul', 'fneg', 'fdiv') and not set(fpoly(r)) - {()}:
        r = mk('fl', repr(float(fpoly(r).get((), 0))))
    if r.op not in ('poly', 'int'):
        r = _rep.setdefault(rkey(r), r)
    _canon[t] = r
    return r


class Reals:
    """float comparisons as linear facts over monomials, decided by elimination"""

    def __init__(self, facts):
        self.rows = []
        for x in facts:
            neg = x.op == 'not'
            y = x.a[0] if neg else x
            if y.op in ('flt', 'fle'):
                d = psub(fpoly(y.a[0]), fpoly(y.a[1]))
                if neg:
                    d = {m: -v for m, v in d.items()}
                self.rows.append((d, (y.op == 'flt') != neg))
            elif y.op == 'feq' and not neg:
                d = psub(fpoly(y.a[0]), fpoly(y.a[1]))
                self.rows += [(d, False), ({m: -v for m, v in d.items()}, False)]

    def infeasible(self, more=()):
        rows = list(self.rows) + list(more)
        for i in range(40):
            todo = []
            for d, s in rows:
                v = set(d) - {()}
                if not v:
                    k = d.get((), 0)
                    if k > 0 or (s and k == 0):
                        return True
                else:
                    todo.append((d, s))
            if not todo:
                return False
            count = {}
            for d, s in todo:
                for m in d:
                    if m != ():
                        n = count.setdefault(m, [0, 0])
                        n[d[m] > 0] += 1
            x = min(count, key=lambda m: (count[m][0] * count[m][1], str(m)))
            up = [r for r in todo if r[0].get(x, 0) > 0]
            lo = [r for r in todo if r[0].get(x, 0) < 0]
            rows = [r for r in todo if not r[0].get(x, 0)]
            if len(up) * len(lo) > 400:
                return False
            for d, s in up:
                for e, t in lo:
                    n = {}
                    for src, k in ((d, -e[x]), (e, d[x])):
                        for m, v in src.items():
                            w = n.get(m, 0) + v * k
                            if w:
                                n[m] = w
                            else:
                                n.pop(m, None)
                    rows.append((n, s or t))
        return False

    def equal(self, a, b):
        d = self.pinned(psub(fpoly(a), fpoly(b)))
        return self.infeasible([({m: -v for m, v in d.items()}, True)]) and self.infeasible([(d, True)])

    def pinned(self, d):
        """with every atom the facts leave one value replaced by it"""
        pins = {}
        for r, _ in self.rows:
            ms = [m for m in r if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] not in pins:
                m = ms[0]
                v = Fraction(-r.get((), 0)) / Fraction(r[m])
                if self.infeasible([({m: -1, (): v}, True)]) and self.infeasible([({m: 1, (): -v}, True)]):
                    pins[m[0]] = v
        if not pins:
            return d
        out = {}
        for m, k in d.items():
            rest = []
            for x in m:
                if x in pins:
                    k = k * pins[x]
                else:
                    rest.append(x)
            if k:
                out[tuple(rest)] = out.get(tuple(rest), 0) + k
        return {m: k for m, k in out.items() if k}
