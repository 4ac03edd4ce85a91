"""Hash-consed value terms, polynomial normal form for integers, and a small linear-inequality domain."""
from fractions import Fraction


class T:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


_uid = [0]


def fresh(tag='u'):
    _uid[0] += 1
    return mk('sym', tag, _uid[0])


def INT(n):
    return mk('int', int(n))


TRUE = mk('true')
FALSE = mk('false')
ZERO = INT(0)
ONE = INT(1)
UNIT = mk('tuple')
BOT = mk('bottom')


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return '…'
    o = t.op
    if o == 'int':
        return str(t.a[0])
    if o == 'fl':
        return t.a[0] + 'f'
    if o == 'str':
        return repr(t.a[0])
    if o == 'sym':
        return '%s#%s' % t.a if len(t.a) > 1 else str(t.a[0])
    if o == 'poly':
        c, ms = t.a
        parts = []
        for m, k in ms:
            s = show(m, d + 1)
            parts.append(s if k == 1 else '%s*%s' % (k, s))
        if c:
            parts.append(str(c))
        return '(' + ' + '.join(parts) + ')'
    if o in ('true', 'false'):
        return o
    if o == 'le0':
        return '[%s <= 0]' % show(t.a[0], d + 1)
    if o == 'eq0':
        return '[%s == 0]' % show(t.a[0], d + 1)
    if o == 'adt':
        return 'adt%s.%s{%s}' % (t.a[0], t.a[1], ', '.join(show(x, d + 1) for x in t.a[2:]))
    if o == 'ref':
        return '&' + showplace(t.a[0], t.a[1], d)
    if o == 'slice':
        return '&%s[%s;+%s]' % (showplace(t.a[0], t.a[1], d), show(t.a[2], d + 1), show(t.a[3], d + 1))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) if isinstance(x, T) else
                                    ('<%s>' % ','.join(map(str, x)) if isinstance(x, tuple) else str(x)) for x in t.a))


def showplace(b, pr, d=0):
    s = '%s:%s' % (b[0], '.'.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in b[1:]))
    for p in pr:
        if p[0] == 'f':
            s += '.%s' % p[2] if p[1] == 0 else '.v%s.%s' % (p[1], p[2])
        elif p[0] == 'i':
            s += '[%s]' % show(p[1], d + 1)
        else:
            s += '.%s' % '.'.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in p)
    return s


# ---------------------------------------------------------------- integers
def poly_parts(t):
    """(const, {monomial: coef}) ; monomial is a T (atom) or ('mul') T"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'poly':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mkpoly(c, ms):
    ms = {m: k for m, k in ms.items() if k != 0}
    if not ms:
        return INT(c)
    if c == 0 and len(ms) == 1:
        (m, k), = ms.items()
        if k == 1:
            return m
    return mk('poly', c, tuple(sorted(ms.items(), key=lambda x: x[0].id)))


def add(a, b):
    if a.op == 'ite' and b.op == 'int':
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    c1, m1 = poly_parts(a)
    c2, m2 = poly_parts(b)
    m = dict(m1)
    for k, v in m2.items():
        m[k] = m.get(k, 0) + v
    return mkpoly(c1 + c2, m)


def scale(a, n):
    c, m = poly_parts(a)
    return mkpoly(c * n, {k: v * n for k, v in m.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def atoms_of(m):
    return list(m.a) if m.op == 'mulm' else [m]


def mul(a, b):
    c1, m1 = poly_parts(a)
    c2, m2 = poly_parts(b)
    m1 = dict(m1)
    m2 = dict(m2)
    out = {}
    c = c1 * c2
    for k, v in m1.items():
        if c2:
            out[k] = out.get(k, 0) + v * c2
    for k, v in m2.items():
        if c1:
            out[k] = out.get(k, 0) + v * c1
    for k1, v1 in m1.items():
        for k2, v2 in m2.items():
            at = sorted(atoms_of(k1) + atoms_of(k2), key=lambda x: x.id)
            m = mk('mulm', *at)
            out[m] = out.get(m, 0) + v1 * v2
    return mkpoly(c, out)


def div(a, b):
    if b.op == 'int' and b.a[0] == 1:
        return a
    if a.op == 'int' and b.op == 'int' and b.a[0] != 0:
        return INT(int(Fraction(a.a[0], b.a[0])))
    return mk('div', a, b)


def rem(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] != 0:
        x, y = a.a[0], b.a[0]
        return INT(x - y * int(Fraction(x, y)))
    if b.op == 'int' and b.a[0] == 1:
        return ZERO
    return mk('rem', a, b)


def imin(a, b):
    if a is b:
        return a
    if a.op == 'int' and b.op == 'int':
        return INT(min(a.a[0], b.a[0]))
    xs = set()
    for t in (a, b):
        xs.update(t.a if t.op == 'min' else [t])
    # constant offsets: min(x, x+c)
    xs = sorted(xs, key=lambda x: x.id)
    if len(xs) == 1:
        return xs[0]
    return mk('min', *xs)


def imax(a, b):
    if a is b:
        return a
    if a.op == 'int' and b.op == 'int':
        return INT(max(a.a[0], b.a[0]))
    xs = set()
    for t in (a, b):
        xs.update(t.a if t.op == 'max' else [t])
    xs = sorted(xs, key=lambda x: x.id)
    if len(xs) == 1:
        return xs[0]
    return mk('max', *xs)


# ---------------------------------------------------------------- booleans
def BOOL(b):
    return TRUE if b else FALSE


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def const_leaves(e, n=0):
    return e.op == 'ite' and n < 6 and all(x.op == 'int' or const_leaves(x, n + 1) for x in e.a[1:])


def le0(e):
    if e.op == 'int':
        return BOOL(e.a[0] <= 0)
    if const_leaves(e):
        return ite(e.a[0], le0(e.a[1]), le0(e.a[2]))
    # divide by gcd, floor the constant
    c, m = poly_parts(e)
    if len(m) == 1:
        (x, f), = m.items()
        if const_leaves(x):
            return ite(x.a[0], le0(add(scale(x.a[1], f), INT(c))), le0(add(scale(x.a[2], f), INT(c))))
    from math import gcd
    g = 0
    for v in m.values():
        g = gcd(g, abs(v))
    if g > 1:
        e = mkpoly(-((-c) // g), {k: v // g for k, v in m.items()})
    return mk('le0', e)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('true', 'false') or b.op in ('true', 'false'):
        if a.op in ('true', 'false'):
            a, b = b, a
        return a if b is TRUE else notb(a)
    if a.op == 'ite' and b.op == 'int':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and a.op == 'int':
        return ite(b.a[0], eq(b.a[1], a), eq(b.a[2], a))
    if a.op in ('str',) and b.op in ('str',):
        return FALSE
    e = sub(a, b)
    if e.op == 'int':
        return BOOL(e.a[0] == 0)
    c, m = poly_parts(e)
    if len(m) == 1:
        (x, k), = m.items()
        if x.op == 'discr' and abs(k) == 1 and x.a[1]:
            i = -c * k
            if x.a[1] == 2 and i == 0:
                return notb(mk('is', x.a[0], 1))
            return mk('is', x.a[0], i) if 0 <= i < x.a[1] else FALSE
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0:
        e = scale(e, -1)
    return mk('eq0', e)


def notb(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le0':
        return le0(add(scale(b.a[0], -1), ONE))
    if b.op == 'and':
        return orb(*[notb(x) for x in b.a])
    if b.op == 'or':
        return andb(*[notb(x) for x in b.a])
    if b.op == 'ite' and (b.a[1].op in ('true', 'false') or b.a[2].op in ('true', 'false')):
        return ite(b.a[0], notb(b.a[1]), notb(b.a[2]))
    return mk('not', b)


def andb(*xs):
    s = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            st.extend(x.a)
        else:
            s.add(x)
    for x in list(s):
        if notb(x) in s:
            return FALSE
    # absorb: a and (a or b) = a ; a and (not a or b) = a and b
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == 'or':
                if any(y in s for y in x.a):
                    s.discard(x)
                    changed = True
                    break
                keep = [y for y in x.a if notb(y) not in s]
                if len(keep) != len(x.a):
                    s.discard(x)
                    y = orb(*keep)
                    if y is FALSE:
                        return FALSE
                    if y.op == 'and':
                        s.update(y.a)
                    elif y is not TRUE:
                        s.add(y)
                    changed = True
                    break
        if not changed:
            for x in [x for x in s if x.op == 'not' and x.a[0].op == 'eq0']:
                for d in (x.a[0].a[0], scale(x.a[0].a[0], -1)):
                    y = mk('le0', d)
                    if y in s:
                        s.discard(x)
                        s.discard(y)
                        s.add(le0(add(d, ONE)))
                        changed = True
                        break
                if changed:
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return mk('and', *sorted(s, key=lambda x: x.id))


def orb(*xs):
    s = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            st.extend(x.a)
        else:
            s.add(x)
    for x in list(s):
        if notb(x) in s:
            return TRUE
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == 'and':
                if any(y in s for y in x.a):
                    s.discard(x)
                    changed = True
                    break
                keep = [y for y in x.a if notb(y) not in s]
                if len(keep) != len(x.a):
                    s.discard(x)
                    y = andb(*keep)
                    if y is TRUE:
                        return TRUE
                    if y.op == 'or':
                        s.update(y.a)
                    elif y is not FALSE:
                        s.add(y)
                    changed = True
                    break
        if not changed:
            for x in [x for x in s if x.op == 'eq0']:
                for d in (x.a[0], scale(x.a[0], -1)):
                    y = mk('le0', add(d, ONE))
                    if y in s:
                        s.discard(x)
                        s.discard(y)
                        s.add(le0(d))
                        changed = True
                        break
                if changed:
                    break
        if not changed:
            # (a and R) or (not a and R) = R
            ands = [x for x in s if x.op == 'and']
            for i in range(len(ands)):
                for j in range(i):
                    A, B = set(ands[i].a), set(ands[j].a)
                    da, db = A - B, B - A
                    if len(da) == 1 and len(db) == 1 and notb(next(iter(da))) is next(iter(db)):
                        s.discard(ands[i])
                        s.discard(ands[j])
                        r = andb(*(A & B))
                        if r is TRUE:
                            return TRUE
                        s.add(r)
                        changed = True
                        break
                if changed:
                    break
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    if len(s) > 2 and tautology(s):
        return TRUE
    return mk('or', *sorted(s, key=lambda x: x.id))


def tautology(s):
    """does one of s hold whatever their atoms (of which there are few) are?"""
    atoms = []

    def walk(x):
        if x.op in ('and', 'or', 'not'):
            return all(walk(y) for y in x.a)
        if x not in atoms:
            atoms.append(x)
        return len(atoms) <= 4
    if not all(walk(x) for x in s):
        return False

    def holds(x, v):
        if x.op == 'and':
            return all(holds(y, v) for y in x.a)
        if x.op == 'or':
            return any(holds(y, v) for y in x.a)
        if x.op == 'not':
            return not holds(x.a[0], v)
        return v[x]
    return all(any(holds(x, v) for x in s) for v in (
        {a: bool(k >> i & 1) for i, a in enumerate(atoms)} for k in range(1 << len(atoms))))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return notb(c)
    if a is TRUE:
        return orb(c, b)
    if b is FALSE:
        return andb(c, a)
    if a is FALSE:
        return andb(notb(c), b)
    if b is TRUE:
        return orb(notb(c), a)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return mk('adt', a.a[0], a.a[1], *[ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == b.op == 'tuple' and len(a.a) == len(b.a):
        return mk('tuple', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'closure' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        return mk('closure', a.a[0], *[ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == b.op == 'seq' and a.a[0] is b.a[0]:
        return mk('seq', a.a[0], ite(c, a.a[1], b.a[1]))
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    # min / max recognition on integers: ite(x<=y, x, y)
    if c.op == 'le0':
        d = c.a[0]
        if sub(a, b) is d:
            return imin(a, b)
        if sub(b, a) is d:
            return imax(a, b)
        if add(sub(a, b), ONE) is d:
            return imin(a, b)
        if add(sub(b, a), ONE) is d:
            return imax(a, b)
    return mk('ite', c, a, b)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace sub-terms (m: T -> T), rebuilding with the smart constructors"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ('int', 'fl', 'str', 'sym', 'true', 'false', 'bottom'):
        r = t
    elif o == 'poly':
        c, ms = t.a
        r = INT(c)
        for mm, k in ms:
            r = add(r, scale(_subst(mm, m, memo), k))
    elif o == 'mulm':
        r = ONE
        for x in t.a:
            r = mul(r, _subst(x, m, memo))
    else:
        a = tuple(_subst(x, m, memo) for x in t.a)
        if all(x is y for x, y in zip(a, t.a)):
            r = t
        else:
            r = rebuild(o, a)
    memo[t] = r
    return r


def rebuild(o, a):
    if o == 'ite':
        return ite(*a)
    if o == 'le0':
        return le0(a[0])
    if o == 'eq0':
        return eq(a[0], ZERO)
    if o == 'not':
        return notb(a[0])
    if o == 'and':
        return andb(*a)
    if o == 'or':
        return orb(*a)
    if o == 'min':
        r = a[0]
        for x in a[1:]:
            r = imin(r, x)
        return r
    if o == 'max':
        r = a[0]
        for x in a[1:]:
            r = imax(r, x)
        return r
    if o == 'div':
        return div(*a)
    if o == 'rem':
        return rem(*a)
    if o == 'field':
        return field_of(*a)
    if o == 'is':
        v = a[0]
        if v.op == 'adt':
            return BOOL(v.a[1] == a[1])
        if v.op == 'ite':
            return ite(v.a[0], rebuild('is', (v.a[1], a[1])), rebuild('is', (v.a[2], a[1])))
    if o == 'mapget':
        v, k = a
        if v.op == 'mapset':
            if v.a[1] is k:
                return v.a[2]
        if v.op == 'ite':
            return ite(v.a[0], rebuild('mapget', (v.a[1], k)), rebuild('mapget', (v.a[2], k)))
    if o == 'has':
        v, k = a
        if v.op == 'mapset' and v.a[1] is k:
            return TRUE
        if v.op == 'mapdel' and v.a[1] is k:
            return FALSE
        if v.op == 'ite':
            return ite(v.a[0], rebuild('has', (v.a[1], k)), rebuild('has', (v.a[2], k)))
    if o == 'select' and a[0].op == 'array' and a[1].op == 'int' and 0 <= a[1].a[0] < len(a[0].a):
        return a[0].a[a[1].a[0]]
    if o in ('fadd', 'fmul', 'feq') and a[0].id > a[1].id:
        return mk(o, a[1], a[0])
    if o == 'elem':
        v, k = a
        if v.op == 'estore' and v.a[1] is k:
            return v.a[2]
        if v.op == 'ite':
            return ite(v.a[0], rebuild('elem', (v.a[1], k)), rebuild('elem', (v.a[2], k)))
    return mk(o, *a)


def field_of(v, variant, i):
    if isinstance(i, int):
        if v.op == 'adt':
            return v.a[2 + i] if v.a[1] == variant and 2 + i < len(v.a) else BOT
        if v.op == 'tuple':
            return v.a[i] if i < len(v.a) else BOT
        if v.op == 'upd':
            return v.a[3] if v.a[1] == variant and v.a[2] == i else field_of(v.a[0], variant, i)
    if v.op == 'ite':
        return ite(v.a[0], field_of(v.a[1], variant, i), field_of(v.a[2], variant, i))
    if v.op == 'bottom':
        return BOT
    return mk('field', v, variant, i)


def deep(t, lits):
    """t where the literals hold, simplified everywhere inside"""
    m = {}
    todo = list(lits)
    while todo:
        l = todo.pop()
        if l.op == 'and':
            todo += list(l.a)
        elif l.op == 'not':
            if l.a[0].op == 'or':
                todo += [notb(x) for x in l.a[0].a]
            m[l.a[0]] = FALSE
            m[l] = TRUE
        elif l is not TRUE and l is not FALSE:
            m[l] = TRUE
            m[notb(l)] = FALSE
    pos = {}
    for l in list(m):
        if l.op == 'is' and m[l] is TRUE:
            pos[l.a[0]] = l.a[1]
    if pos:
        for x in subterms(t):
            if x.op == 'is' and x.a[0] in pos and x not in m:
                m[x] = BOOL(x.a[1] == pos[x.a[0]])
    for i in range(4):
        n = subst(t, m)
        if n is t:
            break
        t = n
    return t


def subterms(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- linear entailment
EXITS = {}   # exit choice of a loop -> what held when that exit was taken


class Lin:
    """conjunction of linear facts over monomials (all integer atoms that are known unsigned are >= 0)"""

    def __init__(self, facts, signed=lambda t: False):
        self.signed = signed
        self.rows = []
        self.lits = set()
        self.eqs = []
        self.disj = []
        for f in facts:
            self.add(f)

    def add(self, f):
        if f in self.lits:
            return
        self.lits.add(f)
        if f.op == 'le0':
            self.rows.append(f.a[0])
            self.quotient(f.a[0])
        elif f.op == 'eq0':
            self.rows.append(f.a[0])
            self.rows.append(scale(f.a[0], -1))
        elif f.op == 'and':
            for x in f.a:
                self.add(x)
        elif f.op == 'or':
            self.disj.append(f)
        elif f.op == 'exit' or f.op == 'not':
            for x in EXITS.get(f, ()):
                self.add(x)

    def quotient(self, row):
        """q <= a / d is q d <= a, for unsigned a and d"""
        c, ms = poly_parts(row)
        ds = [(x, k) for x, k in ms.items() if x.op == 'div']
        if len(ds) == 1 and ds[0][1] in (1, -1) and not self.signed(ds[0][0]):
            x, k = ds[0]
            a, d = x.a
            rest = sub(row, scale(x, k))
            if k == -1:
                self.rows.append(sub(mul(rest, d), a))
            else:
                self.rows.append(add(sub(a, mul(sub(ONE, rest), d)), ONE))

    def holds(self, g):
        if g is TRUE or g in self.lits or FALSE in self.lits:
            return True
        if g is FALSE:
            return self.infeasible([])
        if g.op == 'and':
            return all(self.holds(x) for x in g.a)
        if g.op == 'or':
            return any(self.holds(x) for x in g.a) or self.by_cases(g)
        if g.op == 'le0':
            # negation: e >= 1
            return self.infeasible([add(scale(g.a[0], -1), ONE)]) or self.by_cases(g)
        if g.op == 'eq0':
            return self.holds(mk('le0', g.a[0])) and self.holds(le0(scale(g.a[0], -1)))
        if g.op == 'not' and g.a[0].op == 'eq0':
            e = g.a[0].a[0]
            return self.infeasible([e, scale(e, -1)])
        return self.by_cases(g)

    def by_cases(self, g, depth=2):
        for d in self.disj[:3]:
            ok = True
            for x in d.a:
                l = Lin([], self.signed)
                l.rows = list(self.rows)
                l.lits = set(self.lits)
                l.disj = [q for q in self.disj if q is not d]
                l.add(x)
                if not l.holds(g):
                    ok = False
                    break
            if ok:
                return True
        return False

    def infeasible(self, extra):
        rows = list(self.rows) + list(extra)
        # relevance closure
        want = set()
        for e in extra:
            want |= set(poly_parts(e)[1])
        if not extra:
            for e in rows:
                want |= set(poly_parts(e)[1])
        rel = []
        pend = list(rows)
        for _ in range(4):
            new = []
            for e in pend:
                m = set(poly_parts(e)[1])
                if m & want:
                    rel.append(e)
                    want |= m
                else:
                    new.append(e)
            pend = new
        # axioms for structured atoms
        seen = set()
        todo = list(want)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            ax = []
            if x.op == 'min':
                ax = [sub(x, y) for y in x.a]
            elif x.op == 'max':
                ax = [sub(y, x) for y in x.a]
            elif x.op == 'div' and x.a[1].op == 'int' and x.a[1].a[0] > 0:
                n = x.a[1].a[0]
                # n*x <= a ; a <= n*x + n-1   (for a>=0)
                ax = [sub(scale(x, n), x.a[0]), sub(x.a[0], add(scale(x, n), INT(n - 1)))]
            elif x.op == 'div':
                ax = [sub(x, x.a[0])]
                # b * (a/b) <= a
                ax.append(sub(mul(x, x.a[1]), x.a[0]))
            elif x.op == 'rem':
                ax = [add(sub(x, x.a[1]), ONE), sub(x, x.a[0])]
            elif x.op == 'ssub':
                ax = [sub(sub(x.a[0], x.a[1]), x), sub(x, x.a[0])]
            for e in ax:
                rel.append(e)
                for m in poly_parts(e)[1]:
                    if m not in seen:
                        todo.append(m)
                        want.add(m)
        # a fact that mentions an atom brought in by an axiom is relevant too
        for _ in range(3):
            new = []
            for e in pend:
                m = set(poly_parts(e)[1])
                if m & want:
                    rel.append(e)
                    want |= m
                else:
                    new.append(e)
            pend = new
        rowsd = []
        for e in rel:
            c, m = poly_parts(e)
            rowsd.append((Fraction(c), {k: Fraction(v) for k, v in m.items()}))
        for x in want:
            if not self.signed(x):
                rowsd.append((Fraction(0), {x: Fraction(-1)}))
        return fm_infeasible(rowsd)


def fm_infeasible(rows, limit=1500):
    """Fourier-Motzkin: are the rows  c + sum k*x <= 0  jointly unsatisfiable over the rationals?"""
    rows = [r for r in rows]
    for c, m in rows:
        if not m and c > 0:
            return True
    vars_ = set()
    for c, m in rows:
        vars_ |= set(m)
    while vars_:
        # pick the variable with fewest products
        best = None
        for v in vars_:
            p = sum(1 for c, m in rows if m.get(v, 0) > 0)
            n = sum(1 for c, m in rows if m.get(v, 0) < 0)
            s = p * n - p - n
            if best is None or s < best[0]:
                best = (s, v)
        v = best[1]
        vars_.discard(v)
        pos = [r for r in rows if r[1].get(v, 0) > 0]
        neg = [r for r in rows if r[1].get(v, 0) < 0]
        rest = [r for r in rows if r[1].get(v, 0) == 0]
        seen = set()
        for c1, m1 in pos:
            for c2, m2 in neg:
                k1 = m1[v]
                k2 = -m2[v]
                m = {}
                for x, k in m1.items():
                    if x is not v:
                        m[x] = m.get(x, 0) + k / k1
                for x, k in m2.items():
                    if x is not v:
                        m[x] = m.get(x, 0) + k / k2
                m = {x: k for x, k in m.items() if k != 0}
                c = c1 / k1 + c2 / k2
                if not m:
                    if c > 0:
                        return True
                    continue
                key = (c, tuple(sorted(((x.id, k) for x, k in m.items()))))
                if key not in seen:
                    seen.add(key)
                    rest.append((c, m))
        rows = rest
        if len(rows) > limit:
            return False
    return False


def drop_distinct(t, pairs):
    """map reads past writes at keys known to differ"""
    ps = set()
    for a, b in pairs:
        ps.add((a, b))
        ps.add((b, a))
    for i in range(12):
        m = {}
        for x in subterms(t):
            if x.op in ('mapget', 'has') and x.a[0].op in ('mapset', 'mapdel') and (x.a[0].a[1], x.a[1]) in ps:
                m[x] = mk(x.op, x.a[0].a[0], x.a[1])
        if not m:
            break
        t = subst(t, m)
    return t
