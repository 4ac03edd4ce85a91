"""Gated value analysis: evaluates a function of the type-checked program once, over all paths at
once.  Merge points become if-then-else terms, loops become symbols with an initial and a step
value (closed forms for inductions), calls that are not followed become events.  No path is
enumerated and nothing is handed to a solver."""
import sys
from terms import *
import re

sys.setrecursionlimit(20000)


class State:
    # pc: everything known to hold here; gates: the part of it that some branch decided (the rest are facts:
    # what must hold or the program would have panicked, what held when a loop ended)
    __slots__ = ('mem', 'pc', 'gates')

    def __init__(self, mem=None, pc=(), gates=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.gates = gates

    def copy(self):
        return State(dict(self.mem), self.pc, self.gates)


class Event:
    __slots__ = ('kind', 'name', 'args', 'vals', 'ret', 'pc', 'gates', 'loops', 'site', 'fn', 'line', 'mem', 'seq', 'inst',
                 'argtys', 'stack', 'targs', 'trait')

    def __repr__(self):
        return 'Event(%s %s %s)' % (self.kind, self.name, self.args)

    @property
    def where(self):
        return '%s:%s' % (self.fn.file, self.line)

    def guard(self):
        return andb(*self.gates)


def mentions_bot(t):
    return contains(t, lambda x: x is BOT)


class LoopInfo:
    __slots__ = ('id', 'k', 'phis', 'pc', 'fn', 'line', 'closed', 'mem0', 'trips')


class Frame:
    __slots__ = ('id', 'fn', 'depth', 'stack', 'rets', 'site')


class Fail(Exception):
    pass


_ifn = {}


def site_intern(x):
    r = _ifn.get(x)
    if r is None:
        r = len(_ifn) + 1
        _ifn[x] = r
    return r


def last(p):
    return p.rsplit('::', 1)[-1]


def last2(p):
    return '::'.join(p.split('::')[-2:])


class CFG:
    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = []
        for b in fn.blocks:
            self.succ.append(list(dict.fromkeys(succs(b[1]))))
        order = []
        seen = set([0])
        st = [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        pos = {b: i for i, b in enumerate(order)}
        self.pos = pos
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, set([s]))
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo.extend(pred[x])
        ok = set()
        todo = [b for b in order if fn.blocks[b][1][0] == 'ret']
        while todo:
            x = todo.pop()
            if x not in ok:
                ok.add(x)
                todo.extend(pred[x])
        # blocks from which the function cannot return
        self.dies = set(order) - ok
        # reducibility
        for b in order:
            for s in self.succ[b]:
                if pos[s] <= pos[b] and s not in self.loops:
                    raise Fail('irreducible control flow in %s' % fn.npath)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'asm':
        return [t[1]] if t[1] is not None else []
    return []


def cfg(fn):
    if fn._cfg is None:
        fn._cfg = CFG(fn)
    return fn._cfg


SIGNED = set()
UNSIGNED = set()


def is_signed(t):
    return t in SIGNED


def decides(s, x):
    """does the state decide the literal x: True, False or None"""
    n = notb(x)
    for y in s.gates:
        if y is x:
            return True
        if y is n:
            return False
        if y.op == 'is' and x.op == 'is' and y.a[0] is x.a[0] and y.a[1] != x.a[1]:
            return False
        if y.op == 'eq0' and x.op == 'eq0':
            d = sub(x.a[0], y.a[0])
            if d.op == 'int' and d.a[0] != 0:
                return False
        if x.op == 'not' and y.op == 'is' and x.a[0].op == 'is' and y.a[0] is x.a[0].a[0] and y.a[1] != x.a[0].a[1]:
            return True
    return None


def implied_not(lit, x):
    """x is a consequence of not lit that carries no information beside it"""
    return False


class Interp:
    count = 0

    def __init__(self, prog, boundary=None, maxdepth=60):
        self.p = prog
        self.boundary = boundary or (lambda call: None)
        self.maxdepth = maxdepth
        self.events = []
        self.scratch = 0
        self.loops = {}
        self.loopstack = []
        self.basety = {}
        self.opaque_calls = {}
        self.inlined = set()
        self.depth = 0
        self.nsteps = 0
        self.callstack = []
        self.maxsteps = 3000000
        Interp.count += 1
        self.uid = Interp.count
        import models
        self.models = models

    # ------------------------------------------------------------ types
    def tk(self, ty):
        return self.p.types[ty]

    def field_ty(self, ty, variant, i):
        if ty is None:
            return None
        t = self.tk(ty)
        k = t['k']
        try:
            if k == 'adt':
                return t['fields'][variant][i]
            if k == 'tuple':
                return t['es'][i]
            if k == 'closure':
                return self.tk(t['up'])['es'][i]
        except (KeyError, IndexError, TypeError):
            return None
        return None

    def nfields(self, ty, variant):
        if ty is None:
            return None
        t = self.tk(ty)
        k = t['k']
        try:
            if k == 'adt':
                return len(t['fields'][variant])
            if k == 'tuple':
                return len(t['es'])
            if k == 'closure':
                return len(self.tk(t['up'])['es'])
        except (KeyError, IndexError, TypeError):
            return None
        return None

    def elem_ty(self, ty):
        if ty is None:
            return None
        t = self.tk(ty)
        if t['k'] in ('array', 'slice'):
            return t['e']
        if t['k'] == 'adt' and t['args'] and isinstance(t['args'][0], int):
            if t['path'].rsplit('::', 1)[-1] in ('HashMap', 'BTreeMap') and len(t['args']) > 1:
                return t['args'][1]
            return t['args'][0]
        return None

    def proj_ty(self, ty, projs):
        for pr in projs:
            if ty is None:
                return None
            if pr[0] == 'f':
                ty = self.field_ty(ty, pr[1], pr[2])
            elif pr[0] == 'i' or pr[0] == 'e':
                ty = self.elem_ty(ty)
            elif pr[0] == 'k':
                t = self.tk(ty)
                ty = t['args'][1] if t['k'] == 'adt' and len(t['args']) > 1 else None
            elif pr[0] == 'sub':
                pass
            else:
                ty = None
        return ty

    def place_ty(self, base, projs):
        return self.proj_ty(self.basety.get(base), projs)

    # ------------------------------------------------------------ values
    def pf(self, v, variant, i):
        o = v.op
        if i == 'idx' and o == 'seq':
            return v.a[1]
        if o == 'adt':
            if v.a[1] == variant:
                if 2 + i < len(v.a):
                    return v.a[2 + i]
                return BOT
            return BOT
        if o == 'tuple':
            return v.a[i] if i < len(v.a) else BOT
        if o == 'closure':
            return v.a[1 + i] if 1 + i < len(v.a) else BOT
        if o == 'ite':
            return ite(v.a[0], self.pf(v.a[1], variant, i), self.pf(v.a[2], variant, i))
        if o == 'upd':
            if v.a[1] == variant and v.a[2] == i:
                return v.a[3]
            return self.pf(v.a[0], variant, i)
        if o == 'box':
            return v
        if o == 'bottom':
            return BOT
        return mk('field', v, variant, i)

    def sf(self, v, ty, variant, i, new):
        o = v.op
        if i == 'idx' and o == 'seq':
            return mk('seq', v.a[0], new)
        if o == 'adt' and v.a[1] == variant and 2 + i < len(v.a):
            a = list(v.a)
            a[2 + i] = new
            return mk('adt', *a)
        if o == 'tuple':
            a = list(v.a)
            while len(a) <= i:
                a.append(BOT)
            a[i] = new
            return mk('tuple', *a)
        if o == 'closure':
            a = list(v.a)
            a[1 + i] = new
            return mk('closure', *a)
        n = self.nfields(ty, variant)
        if n is None or not isinstance(i, int) or i >= n:
            return mk('upd', v, variant, i, new)
        fs = [self.pf(v, variant, j) if o != 'bottom' else BOT for j in range(n)]
        fs[i] = new
        k = self.tk(ty)['k']
        if k == 'tuple':
            return mk('tuple', *fs)
        if k == 'closure':
            return mk('closure', ty, *fs)
        return mk('adt', ty, variant, *fs)

    def select(self, v, i):
        o = v.op
        if o == 'store':
            d = sub(v.a[1], i)
            if d is ZERO:
                return v.a[2]
            if d.op == 'int':
                return self.select(v.a[0], i)
            return mk('select', v, i)
        if o == 'push':
            d = sub(i, self.length(v.a[0]))
            if d is ZERO:
                return v.a[1]
            if d.op == 'int' and d.a[0] < 0:
                return self.select(v.a[0], i)
        if o == 'array' and i.op == 'int' and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if o == 'from_elem':
            return v.a[0]
        if o == 'gen':
            return subst(v.a[2], {v.a[1]: i})
        if o == 'ite':
            return ite(v.a[0], self.select(v.a[1], i), self.select(v.a[2], i))
        if o == 'subarr':
            return self.select(v.a[0], add(v.a[1], i))
        return mk('select', v, i)

    def length(self, v):
        o = v.op
        if o in ('store', 'estore', 'sorted', 'substore', 'submut'):
            return self.length(v.a[0])
        if o == 'push' or o == 'inserted':
            return add(self.length(v.a[0]), ONE)
        if o == 'popped' or o == 'removed':
            return sub(self.length(v.a[0]), ONE)
        if o == 'empty':
            return ZERO
        if o == 'from_elem':
            return v.a[1]
        if o == 'resized':
            return v.a[1]
        if o == 'truncated':
            return imin(self.length(v.a[0]), v.a[1])
        if o == 'array':
            return INT(len(v.a))
        if o == 'gen':
            return v.a[0]
        if o == 'subarr':
            return v.a[2]
        if o == 'ite':
            return ite(v.a[0], self.length(v.a[1]), self.length(v.a[2]))
        if o == 'str':
            return INT(len(v.a[0].encode()))
        if o == 'slice':
            return v.a[3]
        if o == 'mut' and v.a[2] == 'keeplen':
            return self.length(v.a[0])
        if o == 'filtered':
            return mk('len', v)
        return mk('len', v)

    def init(self, base):
        if base[0] == 'P':
            return mk('deref0', base[1])
        if base[0] == 'C':
            return base[1]
        return BOT

    def val(self, st, base):
        v = st.mem.get(base)
        if v is None:
            v = self.init(base)
        return v

    def read(self, st, base, projs):
        v = self.val(st, base)
        for pr in projs:
            k = pr[0]
            if k == 'f':
                v = self.pf(v, pr[1], pr[2])
            elif k == 'i':
                v = self.select(v, pr[1])
            elif k == 'sub':
                if v.op == 'subarr':
                    v = mk('subarr', v.a[0], add(v.a[1], pr[1]), pr[2])
                else:
                    v = mk('subarr', v, pr[1], pr[2])
            elif k == 'k':
                v = self.mapget(v, pr[1])
            elif k == 'e':
                v = mk('elem', v, pr[1])
        if v.op in ('field', 'deref0', 'sym', 'ret', 'phi', 'select', 'elem', 'mapget') and v not in SIGNED and v not in UNSIGNED:
            ty = self.place_ty(base, projs)
            if ty is not None:
                kk = self.tk(ty)['k']
                if kk == 'int':
                    SIGNED.add(v)
                else:
                    UNSIGNED.add(v)
        return v

    def mapget(self, v, key):
        if v.op == 'mapset':
            if v.a[1] is key:
                return v.a[2]
            if sub_const_diff(v.a[1], key):
                return self.mapget(v.a[0], key)
        if v.op == 'ite':
            return ite(v.a[0], self.mapget(v.a[1], key), self.mapget(v.a[2], key))
        return mk('mapget', v, key)

    def write(self, st, base, projs, new):
        if not projs:
            st.mem[base] = new
            return
        v = self.val(st, base)
        st.mem[base] = self.upd(v, self.basety.get(base), projs, new)

    def upd(self, v, ty, projs, new):
        if not projs:
            return new
        pr = projs[0]
        rest = projs[1:]
        k = pr[0]
        if k == 'f':
            c = self.pf(v, pr[1], pr[2]) if rest else None
            return self.sf(v, ty, pr[1], pr[2], self.upd(c, self.field_ty(ty, pr[1], pr[2]), rest, new) if rest else new)
        if k == 'i':
            c = self.upd(self.select(v, pr[1]), self.elem_ty(ty), rest, new) if rest else new
            if v.op == 'store' and v.a[1] is pr[1]:
                return mk('store', v.a[0], pr[1], c)
            if v.op == 'array' and pr[1].op == 'int' and pr[1].a[0] < len(v.a):
                a = list(v.a)
                a[pr[1].a[0]] = c
                return mk('array', *a)
            return mk('store', v, pr[1], c)
        if k == 'sub':
            if rest:
                inner = self.upd(v, ty, rest, new)
                return inner
            return mk('substore', v, pr[1], pr[2], new)
        if k == 'k':
            c = self.upd(self.mapget(v, pr[1]), self.proj_ty(ty, (pr,)), rest, new) if rest else new
            return mk('mapset', v, pr[1], c)
        if k == 'e':
            c = self.upd(mk('elem', v, pr[1]), self.elem_ty(ty), rest, new) if rest else new
            return mk('estore', v, pr[1], c)
        raise Fail('upd %s' % (pr,))

    # ------------------------------------------------------------ places
    def deref(self, ptr, ty):
        """ptr term -> list of (cond, base, projs)"""
        if ptr.op == 'ref':
            return [(TRUE, ptr.a[0], ptr.a[1])]
        if ptr.op == 'box':
            return [(TRUE, ptr.a[0], ())]
        if ptr.op == 'slice':
            return [(TRUE, ptr.a[0], ptr.a[1] + (('sub', ptr.a[2], ptr.a[3]),))]
        if ptr.op == 'ite':
            c = ptr.a[0]
            return [(andb(c, g), b, p) for g, b, p in self.deref(ptr.a[1], ty)] + \
                   [(andb(notb(c), g), b, p) for g, b, p in self.deref(ptr.a[2], ty)]
        if ptr is BOT:
            return []
        if ptr.op == 'str':
            b = ('C', ptr)
            return [(TRUE, b, ())]
        if ptr.op == 'fndef' or ptr.op == 'closure':
            b = ('C', ptr)
            return [(TRUE, b, ())]
        b = ('P', ptr)
        if b not in self.basety and ty is not None:
            self.basety[b] = ty
        return [(TRUE, b, ())]

    def pointee_ty(self, ty):
        if ty is None:
            return None
        t = self.tk(ty)
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'adt' and t['path'].rsplit('::', 1)[-1] in ('Box', 'Unique', 'NonNull', 'Rc', 'Arc') and t['args']:
            return t['args'][0] if isinstance(t['args'][0], int) else None
        return None

    def places(self, fr, st, pl):
        """[(cond, base, projs)] with merged adjacent slice windows"""
        local, prs = pl
        base = ('L', fr.id, local)
        cur = [(TRUE, base, ())]
        ty = fr.fn.locals[local][0]
        variant = 0
        for pr in prs:
            k = pr[0]
            if k == '*':
                nxt = []
                pt = self.pointee_ty(ty)
                for c, b, p in cur:
                    v = self.read(st, b, p)
                    for c2, b2, p2 in self.deref(self.simp(v, st.pc), pt):
                        cc = andb(c, c2)
                        if cc is not FALSE:
                            nxt.append((cc, b2, p2))
                cur = nxt
                ty = pt
                variant = 0
            elif k == 'f':
                cur = [(c, b, p + (('f', variant, pr[1]),)) for c, b, p in cur]
                ty = pr[2]
                variant = 0
            elif k == 'd':
                variant = pr[1]
            elif k == 'i':
                iv = self.read(st, ('L', fr.id, pr[1]), ())
                cur = [(c, b, self.pidx(p, iv)) for c, b, p in cur]
                ty = self.elem_ty(ty)
            elif k == 'ci':
                nxt = []
                for c, b, p in cur:
                    if pr[3]:
                        n = self.length(self.read(st, b, p))
                        nxt.append((c, b, self.pidx(p, sub(n, INT(pr[1])))))
                    else:
                        nxt.append((c, b, self.pidx(p, INT(pr[1]))))
                cur = nxt
                ty = self.elem_ty(ty)
            elif k == 'ss':
                nxt = []
                for c, b, p in cur:
                    n = self.length(self.read(st, b, p))
                    end = sub(n, INT(pr[2])) if pr[3] else INT(pr[2])
                    s0 = ZERO
                    if p and p[-1][0] == 'sub':
                        s0 = p[-1][1]
                        p = p[:-1]
                    nxt.append((c, b, p + (('sub', add(s0, INT(pr[1])), sub(end, INT(pr[1]))),)))
                cur = nxt
            else:
                pass
        return cur, ty

    def pidx(self, p, iv):
        if p and p[-1][0] == 'sub':
            return p[:-1] + (('i', add(p[-1][1], iv)),)
        return p + (('i', iv),)

    def read_place(self, fr, st, pl):
        ps, ty = self.places(fr, st, pl)
        if not ps:
            return BOT
        r = None
        for c, b, p in reversed(ps):
            v = self.read(st, b, p)
            r = v if r is None else ite(c, v, r)
        return r

    def write_place(self, fr, st, pl, v):
        ps, ty = self.places(fr, st, pl)
        if len(ps) == 1:
            self.write(st, ps[0][1], ps[0][2], v)
        else:
            for c, b, p in ps:
                self.write(st, b, p, ite(c, v, self.read(st, b, p)))

    def mkref(self, st, ps):
        r = None
        for c, b, p in reversed(ps):
            if p and p[-1][0] == 'sub':
                t = mk('slice', b, p[:-1], p[-1][1], p[-1][2])
            elif b[0] == 'P' and not p:
                t = b[1]
            elif b[0] == 'A' and not p and self.basety.get(b, 0) is None:
                t = mk('ref', b, p)
            else:
                t = mk('ref', b, p)
            r = t if r is None else ite(c, t, r)
        return r if r is not None else BOT

    # ------------------------------------------------------------ operands
    def const(self, c):
        ty = c['ty']
        t = self.tk(ty)
        if 'v' in c:
            if t['s'] == 'bool':
                return BOOL(c['v'] != 0)
            return INT(c['v'])
        if 'fl' in c:
            return mk('fl', c['fl'])
        if 'str' in c:
            return mk('str', c['str'])
        if 'zst' in c:
            if t['k'] == 'fndef':
                return mk('fndef', ty)
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return mk('closure', ty)
            if t['k'] == 'adt':
                return mk('adt', ty, 0, *[mk('zst', f) for f in t.get('fields', [[]])[0]])
            return mk('zst', ty)
        if 'ref' in c:
            e = self.pointee_ty(ty)
            inner = self.const(dict(c['ref'], ty=e)) if e is not None else mk('const', str(c))
            b = ('C', inner)
            if e is not None:
                self.basety.setdefault(b, e)
            if self.tk(e)['k'] == 'slice' and inner.op == 'array':
                return mk('slice', b, (), ZERO, INT(len(inner.a)))
            return mk('ref', b, ())
        if 'adt' in c and 'fields' in t:
            fts = t['fields'][0]
            return mk('adt', ty, 0, *[self.const(dict(x, ty=ft)) for x, ft in zip(c['adt'], fts)])
        if 'arr' in c:
            e = self.elem_ty(ty)
            return mk('array', *[self.const(dict(x, ty=e)) for x in c['arr']])
        if 'disc' in c and t['k'] == 'adt':
            a = self.p.adts.get(t['path'])
            if a:
                for vi, v in enumerate(a['variants']):
                    if int(v['d']) == c['disc']:
                        return mk('adt', ty, vi)
        if 'variant' in c and t['k'] == 'adt':
            vi = c['variant']
            fts = t['fields'][vi] if 'fields' in t and vi < len(t['fields']) else []
            return mk('adt', ty, vi, *[self.const(dict(x, ty=ft)) for x, ft in zip(c['vf'], fts)])
        if 'static' in c:
            return mk('static', c['static'])
        if 'bytes' in c:
            return mk('const', ty, c['bytes'])
        return mk('const', ty, 'opaque', c.get('uneval', ''))

    def operand(self, fr, st, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.read_place(fr, st, o[1])
        if k == 'k':
            return self.const(o[1])
        if k == 'rc':
            return FALSE
        raise Fail('operand %s' % k)

    def operand_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]['ty']
        if o[0] == 'rc':
            return None
        ty = fr.fn.locals[o[1][0]][0]
        variant = 0
        for pr in o[1][1]:
            if pr[0] == '*':
                ty = self.pointee_ty(ty)
            elif pr[0] == 'f':
                ty = pr[2]
            elif pr[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty

    def place_static_ty(self, fr, pl):
        return self.operand_ty(fr, ['c', pl])

    # ------------------------------------------------------------ rvalues
    def isfloat(self, ty):
        return ty is not None and self.tk(ty)['k'] == 'float'

    def binop(self, op, a, b, ty):
        op = op.replace('Unchecked', '')
        if a.op == 'bottom' or b.op == 'bottom':
            return BOT
        fl = self.isfloat(ty)
        if fl or a.op == 'fl' or b.op == 'fl':
            return self.fbin(op, a, b)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mul':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Rem':
            return rem(a, b)
        s = self.tk(ty)['s'] if ty is not None else ''
        if op in ('Eq', 'Ne'):
            if s == 'bool':
                r = orb(andb(a, b), andb(notb(a), notb(b)))
                if a.op in ('true', 'false'):
                    r = b if a is TRUE else notb(b)
                elif b.op in ('true', 'false'):
                    r = a if b is TRUE else notb(a)
            else:
                r = self.eqt(a, b)
            return r if op == 'Eq' else notb(r)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'BitAnd':
            if s == 'bool':
                return andb(a, b)
            if a.op == b.op == 'int':
                return INT(a.a[0] & b.a[0])
        if op == 'BitOr':
            if s == 'bool':
                return orb(a, b)
            if a.op == b.op == 'int':
                return INT(a.a[0] | b.a[0])
        if op == 'BitXor' and s == 'bool':
            return ite(a, notb(b), b)
        if op == 'Shl' and b.op == 'int':
            return scale(a, 1 << b.a[0])
        if op == 'Shr' and b.op == 'int':
            return div(a, INT(1 << b.a[0]))
        if op == 'Cmp':
            return mk('cmp3', a, b)
        return mk('bop', op, a, b)

    def eqt(self, a, b):
        """equality of scalar-ish terms"""
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'cmp3' and y.op == 'int':
                pass
        return eq(a, b)

    def fbin(self, op, a, b):
        if a.op == 'ite' and b.op == 'fl' and a.a[1].op == 'fl' and a.a[2].op == 'fl':
            return ite(a.a[0], self.fbin(op, a.a[1], b), self.fbin(op, a.a[2], b))
        if op == 'Add':
            x, y = sorted((a, b), key=lambda t: t.id)
            return mk('fadd', x, y)
        if op == 'Mul':
            x, y = sorted((a, b), key=lambda t: t.id)
            return mk('fmul', x, y)
        if op == 'Sub':
            return mk('fsub', a, b)
        if op == 'Div':
            return mk('fdiv', a, b)
        if op == 'Rem':
            return mk('frem', a, b)
        if op == 'Lt':
            return mk('flt', a, b)
        if op == 'Gt':
            return mk('flt', b, a)
        if op == 'Le':
            return mk('fle', a, b)
        if op == 'Ge':
            return mk('fle', b, a)
        if op in ('Eq', 'Ne'):
            x, y = sorted((a, b), key=lambda t: t.id)
            r = mk('feq', x, y)
            if x is y:
                r = mk('feq', x, y)
            if x.op == 'fl' and y.op == 'fl':
                r = BOOL(float(x.a[0]) == float(y.a[0]))
            return r if op == 'Eq' else notb(r)
        return mk('fop', op, a, b)

    def discr(self, v, ty):
        if v.op == 'adt':
            t = self.tk(v.a[0])
            a = self.p.adts.get(t['path'])
            d = int(a['variants'][v.a[1]]['d'])
            return INT(d - 256 if d == 255 and t['path'].endswith('cmp::Ordering') else d)
        if v.op == 'ite':
            return ite(v.a[0], self.discr(v.a[1], ty), self.discr(v.a[2], ty))
        if v.op == 'bottom':
            return BOT
        if v.op == 'const' and len(v.a) == 2 and isinstance(v.a[1], str):
            t = self.tk(ty) if ty is not None else None
            if t and t['k'] == 'adt' and t['path'].endswith('Option'):
                b = bytes.fromhex(v.a[1])
                # Option with an explicit tag or a niche: an all-zero tag/None pointer means None
                if all(x == 0 for x in b):
                    return INT(0)
        n = 0
        if ty is not None and self.tk(ty)['k'] == 'adt':
            a = self.p.adts.get(self.tk(ty)['path'])
            if a and all(int(x['d']) == i for i, x in enumerate(a['variants'])):
                n = len(a['variants'])
        return mk('discr', v, n)

    def is_variant(self, v, ty, vi):
        """boolean term: enum value v is in variant index vi"""
        d = self.discr(v, ty)
        t = self.tk(ty)
        a = self.p.adts[t['path']]
        return self.sw(d, int(a['variants'][vi]['d']), None)

    def sw(self, d, val, ty):
        """literal d == val"""
        if d.op == 'ite':
            return ite(d.a[0], self.sw(d.a[1], val, ty), self.sw(d.a[2], val, ty))
        if d.op == 'int':
            return BOOL(d.a[0] == val or d.a[0] < 0 and d.a[0] == val - 256)
        if d.op == 'discr':
            if d.a[1] == 2:
                if val == 1:
                    return mk('is', d.a[0], 1)
                if val == 0:
                    return notb(mk('is', d.a[0], 1))
            return mk('is', d.a[0], val)
        if d.op == 'bottom':
            return FALSE
        return eq(d, INT(val))

    def rvalue(self, fr, st, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k in ('ref', 'addr'):
            ps, ty = self.places(fr, st, rv[1])
            return self.mkref(st, ps)
        if k == 'bin':
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ty = self.operand_ty(fr, rv[2])
            return self.binop(rv[1], a, b, ty)
        if k == 'cbin':
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ty = self.operand_ty(fr, rv[2])
            return mk('tuple', self.binop(rv[1], a, b, ty), FALSE)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            ty = self.operand_ty(fr, rv[2])
            if rv[1] == 'Not':
                if ty is not None and self.tk(ty)['s'] == 'bool':
                    return notb(a)
                return mk('bnot', a)
            if rv[1] == 'Neg':
                if self.isfloat(ty):
                    if a.op == 'fl':
                        return mk('fl', repr(-float(a.a[0])))
                    return mk('fneg', a)
                return scale(a, -1)
            if rv[1] == 'PtrMetadata':
                return self.ptr_len(st, a, ty)
        if k == 'cast':
            a = self.operand(fr, st, rv[2])
            ck = rv[1]
            sty = self.operand_ty(fr, rv[2])
            dty = rv[3]
            if 'Unsize' in ck:
                # array -> slice
                et = self.pointee_ty(dty)
                spt = self.pointee_ty(sty)
                if spt is not None and self.tk(spt)['k'] == 'array' and et is not None and self.tk(et)['k'] == 'slice':
                    n = INT(self.tk(spt)['n'])
                    if a.op == 'ref':
                        return mk('slice', a.a[0], a.a[1], ZERO, n)
                    if a.op == 'box':
                        return a
                    if a.op not in ('ite',):
                        b = ('P', a)
                        self.basety.setdefault(b, spt)
                        return mk('slice', b, (), ZERO, n)
                return a
            if ck == 'IntToInt':
                s, d = self.tk(sty), self.tk(dty)
                if s['s'] == 'bool':
                    return ite(a, ONE, ZERO)
                if a.op == 'int':
                    return a
                if d.get('bits', 64) < s.get('bits', 64):
                    return mk('trunc', a, d['s'])
                return a
            if ck == 'IntToFloat':
                if a.op == 'int':
                    return mk('fl', repr(float(a.a[0])))
                return mk('i2f', a)
            if ck == 'FloatToInt':
                return mk('f2i', a)
            if ck == 'FloatToFloat':
                if a.op == 'fl':
                    return mk('fl', a.a[0])
                if a.op == 'f2f':
                    return mk('f2f', a.a[0]) if False else mk('f2f', a)
                return mk('f2f', a)
            if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck or 'UnsafeFnPointer' in ck:
                return a
            if 'Transmute' in ck:
                if a.op in ('ref', 'slice', 'box', 'ite'):
                    return a
                if self.pointee_ty(sty) is not None and self.pointee_ty(dty) is not None:
                    return a
                return mk('transmute', a)
            return a
        if k == 'agg':
            h = rv[1]
            ops = [self.operand(fr, st, o) for o in rv[2]]
            if h[0] == 'tuple':
                return mk('tuple', *ops)
            if h[0] == 'adt':
                ty, vi = h[1], h[2]
                if h[3] is not None:  # union
                    return mk('adt', ty, vi, *ops)
                return mk('adt', ty, vi, *ops)
            if h[0] == 'closure':
                return mk('closure', h[1], *ops)
            if h[0] == 'array':
                return mk('array', *ops)
            if h[0] == 'rawptr':
                if ops[0].op in ('ref',):
                    return mk('slice', ops[0].a[0], ops[0].a[1], ZERO, ops[1])
                return mk('rawslice', *ops)
            return mk('agg', *ops)
        if k == 'discr':
            v = self.simp(self.read_place(fr, st, rv[1]), st.pc)
            return self.discr(v, rv[2])
        if k == 'len':
            v = self.read_place(fr, st, rv[1])
            return self.length(v)
        if k == 'rep':
            v = self.operand(fr, st, rv[1])
            return mk('from_elem', v, INT(rv[2]))
        if k == 'tls':
            return mk('static', rv[1])
        raise Fail('rvalue %s' % k)

    def ptr_len(self, st, a, ty):
        if a.op == 'slice':
            return a.a[3]
        if a.op == 'ite':
            return ite(a.a[0], self.ptr_len(st, a.a[1], ty), self.ptr_len(st, a.a[2], ty))
        if a.op == 'str':
            return INT(len(a.a[0].encode()))
        ps = self.deref(a, self.pointee_ty(ty))
        if not ps:
            return BOT
        return self.length(self.read(st, ps[0][1], ps[0][2]))

    # ------------------------------------------------------------ path conditions
    def simp(self, v, pc):
        """simplify an ite-topped term under the path condition"""
        if v.op != 'ite' or not pc:
            return v
        n = 0
        s = None
        while v.op == 'ite' and n < 50:
            if s is None:
                s = set()
                for x in pc:
                    s.add(x)
                    if x.op == 'and':
                        s.update(x.a)
            c = self.lit(v.a[0], s)
            if c is TRUE:
                v = v.a[1]
            elif c is FALSE:
                v = v.a[2]
            else:
                break
            n += 1
        return v

    def lit(self, c, s):
        if c in s:
            return TRUE
        if notb(c) in s:
            return FALSE
        if c.op == 'and':
            r = [self.lit(x, s) for x in c.a]
            return andb(*r)
        if c.op == 'or':
            r = [self.lit(x, s) for x in c.a]
            return orb(*r)
        if c.op == 'ite':
            g = self.lit(c.a[0], s)
            if g is TRUE:
                return self.lit(c.a[1], s)
            if g is FALSE:
                return self.lit(c.a[2], s)
        return c

    def pcset(self, pc):
        s = set()
        for x in pc:
            s.add(x)
            if x.op == 'and':
                s.update(x.a)
        return s

    def assume(self, st, c, gate=True):
        """returns False if c contradicts the path condition"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        s = self.pcset(st.pc)
        c = self.lit(c, s)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        cs = c.a if c.op == 'and' else (c,)
        # unit resolution against known disjunctions
        new = list(st.pc)
        for x in cs:
            if x not in s:
                new.append(x)
        # reject trivially infeasible integer ranges  (x <= a and x >= b, a<b) on a single poly
        lows = {}
        for x in new:
            if x.op == 'le0':
                lows.setdefault(x.a[0], x)
        for x in cs:
            if x.op == 'le0':
                e = x.a[0]
                c0, m = poly_parts(e)
                for y in lows:
                    c1, m1 = poly_parts(y)
                    if len(m1) == len(m) and all(m1.get(k) == -v for k, v in m.items()):
                        # e = c0+M<=0 ; y = c1-M<=0  -> c0+c1<=0
                        if c0 + c1 > 0:
                            return False
                if all(v > 0 for v in m.values()) and c0 > 0 and not any(is_signed(k) for k in m):
                    return False
            if x.op == 'eq0':
                for y in new:
                    if y.op == 'eq0' and y is not x:
                        d = sub(x.a[0], y.a[0])
                        if d.op == 'int' and d.a[0] != 0:
                            return False
                        d = add(x.a[0], y.a[0])
                        if d.op == 'int' and d.a[0] != 0:
                            return False
            if x.op == 'is':
                for y in new:
                    if y.op == 'is' and y.a[0] is x.a[0] and y.a[1] != x.a[1]:
                        return False
        for y in list(new):
            if y.op == 'or':
                z = self.lit(y, s | set(cs))
                if z is FALSE:
                    return False
                if z is not y and z is not TRUE:
                    for q in (z.a if z.op == 'and' else (z,)):
                        if q not in new:
                            new.append(q)
        st.pc = tuple(new)
        if gate:
            st.gates = st.gates + tuple(x for x in cs if x not in st.gates)
        return True

    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        while len(states) > 2:
            l = self.splitter(states)
            if l is None:
                break
            yes = [s for s in states if decides(s, l) is True]
            no = [s for s in states if decides(s, l) is not True]
            return self.merge2(self.merge(yes), self.merge(no), l)
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def splitter(self, states):
        """a literal that every state decides, true in some and false in others"""
        seen = set()
        n = 0
        first = states[0].gates
        for s in states:
            for x in s.gates:
                if x.op == 'not':
                    x = x.a[0]
                if x in seen:
                    continue
                seen.add(x)
                n += 1
                if n > 60:
                    return None
                t = [decides(q, x) for q in states]
                if None not in t and True in t and False in t:
                    return x
        return None

    def merge2(self, a, b, lit=None):
        if a is None or b is None:
            return a or b
        sa, sb = set(a.gates), set(b.gates)
        common = [x for x in a.gates if x in sb]
        la = [x for x in a.gates if x not in sb]
        lb = [x for x in b.gates if x not in sa]
        if lit is None:
            for x in la:
                if x.op != 'or' and decides(b, x) is False:
                    lit = x
                    break
        if lit is None:
            for x in lb:
                if x.op != 'or' and decides(a, x) is False:
                    lit = notb(x)
                    break
        ra, rb = andb(*la), andb(*lb)
        if lit is not None:
            g = lit
            # what the choice already implies need not be repeated
            nl = notb(lit)
            ra = andb(lit, *[x for x in la if x is not lit])
            rb = andb(nl, *[x for x in lb if x is not nl and not implied_not(lit, x)])
        else:
            g = ra
            if ra is TRUE:
                g = notb(rb)
                if rb is TRUE:
                    g = TRUE
                    # identical conditions: cannot distinguish; use a symbol
                    if a.mem != b.mem:
                        g = fresh('nd')
        o = orb(ra, rb)
        ol = () if o is TRUE else (o.a if o.op == 'and' else (o,))
        pb = set(b.pc)
        pc = tuple(x for x in a.pc if x in pb) + ol
        gates = tuple(common) + ol
        mem = {}
        am, bm = a.mem, b.mem
        for k, va in am.items():
            vb = bm.get(k)
            if vb is None:
                if k[0] in ('L', 'A'):
                    mem[k] = va
                    continue
                vb = self.init(k)
            mem[k] = va if va is vb else ite(g, va, vb)
        for k, vb in bm.items():
            if k not in am:
                if k[0] in ('L', 'A'):
                    mem[k] = vb
                else:
                    va = self.init(k)
                    mem[k] = va if va is vb else ite(g, va, vb)
        return State(mem, pc, gates)

    # ------------------------------------------------------------ running
    def event(self, kind, name, fr, st, line, args=(), ret=None, inst=None, argtys=(), targs=(), trait=None):
        e = Event()
        e.kind = kind
        e.name = name
        e.args = list(args)
        e.argtys = list(argtys)
        e.targs = targs
        e.trait = trait
        e.ret = ret
        e.pc = st.pc
        e.gates = st.gates
        e.loops = tuple(self.loopstack)
        e.fn = fr.fn
        e.line = line
        e.inst = inst
        e.stack = fr.stack
        e.seq = len(self.events)
        if not self.scratch:
            e.mem = dict(st.mem)
            self.events.append(e)
        return e

    def run_fn(self, fn, args, st, site, depth, stack, fr_hint=None):
        """evaluate fn on argument terms; returns (state or None, ret)"""
        if fn.blocks is None:
            raise Fail('no body for %s' % fn.npath)
        self.inlined.add(fn.key)
        fr = Frame()
        fr.id = site
        fr.fn = fn
        fr.depth = depth
        fr.stack = stack
        fr.rets = []
        fr.site = site
        for i, a in enumerate(args):
            b = ('L', fr.id, i + 1)
            st.mem[b] = a
            self.basety[b] = fn.locals[i + 1][0]
        for i in range(len(fn.locals)):
            self.basety[('L', fr.id, i)] = fn.locals[i][0]
            if i == 0 or i > len(args):
                st.mem.pop(('L', fr.id, i), None)
        g = cfg(fn)
        self.run_blocks(fr, set(g.rpo), 0, st, None)
        if not fr.rets:
            return None, BOT
        out = self.merge(fr.rets)
        ret = self.val(out, ('L', fr.id, 0))
        for k in [k for k in out.mem if k[0] == 'L' and k[1] == fr.id]:
            # locals may still be referenced only by dangling terms
            del out.mem[k]
        if ret is BOT and self.tk(fn.locals[0][0])['s'] == '()':
            ret = UNIT
        return out, ret

    def run_blocks(self, fr, blocks, entry, instate, header):
        g = cfg(fr.fn)
        pend = {entry: [instate]}
        outs = {}
        backs = []
        skip = set()
        order = [b for b in g.rpo if b in blocks]

        def route(t, s):
            if s is None:
                return
            if t == header:
                backs.append(s)
            elif t in blocks:
                pend.setdefault(t, []).append(s)
            else:
                outs.setdefault(t, []).append(s)

        for b in order:
            if b in skip or b not in pend:
                continue
            st = self.merge(pend.pop(b))
            if b in g.loops and b != header:
                body = g.loops[b]
                for t, ss in self.run_loop(fr, b, body, st).items():
                    for s in ss:
                        route(t, s)
                skip |= body
                continue
            for t, s in self.exec_block(fr, b, st):
                route(t, s)
        return outs, backs

    def run_loop(self, fr, header, body, st0):
        site = ('loop', fr.site, header)

        def bodyfn(st):
            nr = len(fr.rets)
            outs, backs = self.run_blocks(fr, body, header, st, header)
            rets = fr.rets[nr:]
            del fr.rets[nr:]
            return outs, backs, rets

        outs, rets = self.generic_loop(site, st0, bodyfn, fr.fn, fr.fn.blocks[header][2], cfg(fr.fn).dies)
        fr.rets.extend(rets)
        return outs

    def generic_loop(self, site, st0, bodyfn, fn, line, dies=()):
        """bodyfn(state) -> (outs {target: [states]}, backs [states], rets [states])"""
        lid = site_intern((site, tuple(self.loopstack)))
        k = mk('k', lid)
        UNSIGNED.add(k)
        M = {}
        self.loopstack.append(lid)
        try:
            self.scratch += 1
            try:
                for it in range(14):
                    st = st0.copy()
                    for (base, path), ty in M.items():
                        self.setpath(st, base, path, mk('phi', lid, base, path))
                    outs, backs, rets = bodyfn(st.copy())
                    if not backs:
                        break
                    sb = self.merge([s.copy() for s in backs])
                    new = {}
                    for base, v in sb.mem.items():
                        if base in st.mem:
                            v0 = st.mem[base]
                        elif base[0] == 'P':
                            v0 = self.init(base)
                        else:
                            continue
                        if v0 is not v:
                            self.diff(base, (), v0, v, new, 0)
                    add_ = {x: 1 for x in new if x not in M and not any(
                        (x[0], x[1][:j]) in M for j in range(len(x[1]) + 1))}
                    if not add_:
                        break
                    for x in add_:
                        # drop finer phis below a coarser one
                        for y in list(M):
                            if y[0] == x[0] and y[1][:len(x[1])] == x[1]:
                                del M[y]
                        M[x] = 1
                else:
                    raise Fail('loop in %s does not stabilise' % fn.npath)
                closed = {}
                phis = {}
                if backs:
                    for (base, path) in M:
                        ph = mk('phi', lid, base, path)
                        init = self.getpath(st0, base, path)
                        step = self.getpath(sb, base, path)
                        phis[ph] = (base, path, init, step)
                        d = sub(step, ph) if is_intlike(init) or is_intlike(step) else None
                        if d is not None and d.op == 'int' and init is not BOT:
                            closed[ph] = add(init, scale(k, d.a[0]))
                        elif d is not None and d is not None and init is not BOT and self.invariant(d, lid):
                            closed[ph] = add(init, mul(k, d))
                    self.tie(phis, closed)
            finally:
                self.scratch -= 1
            st = st0.copy()
            for (base, path) in M:
                ph = mk('phi', lid, base, path)
                self.setpath(st, base, path, closed.get(ph, ph))
            outs, backs, rets = bodyfn(st.copy())
            if not self.scratch:
                li = LoopInfo()
                li.id = lid
                li.k = k
                li.pc = st0.pc
                li.fn = fn
                li.line = line
                li.closed = closed
                li.mem0 = st0.mem
                li.trips = None
                li.phis = {}
                if backs:
                    sb = self.merge([s.copy() for s in backs])
                    for (base, path) in M:
                        ph = mk('phi', lid, base, path)
                        li.phis[ph] = (base, path, self.getpath(st0, base, path), self.getpath(sb, base, path))
                self.loops[lid] = li
        finally:
            self.loopstack.pop()
        # an exit into code that cannot return is a check, not a way out
        allouts = [x for t, ss in outs.items() for x in ss if t not in dies]
        n0 = len(st0.gates)
        st0pcs = set(st0.pc)
        if len(allouts) + len(rets) == 1:
            x = (allouts + rets)[0]
            suffix = x.gates[n0:] if x.gates[:n0] == st0.gates else None
            facts = tuple(z for z in x.pc if z not in st0pcs)
            closed_exit = False
            if suffix is not None and len(suffix) == 1 and suffix[0].op == 'le0' and allouts:
                # a counting loop: the value of k at the exit is known
                e = suffix[0].a[0]  # e <= 0, e = B - k
                c, m = poly_parts(e)
                if m.get(k) == -1:
                    bound = add(e, k)
                    if not contains(bound, lambda t: t is k or (t.op == 'phi' and t.a[0] == lid)):
                        closed_exit = True
                        if lid in self.loops:
                            self.loops[lid].trips = bound
                        x.pc = st0.pc
                        x.gates = st0.gates
                        self.subst_state(x, {k: bound if self.nonneg(bound, st0.pc) else imax(ZERO, bound)})
            if not closed_exit:
                # the loop is left only here: what held at the exit is a fact, not a condition
                ex = mk('exit', lid, 0, 1)
                EXITS[ex] = facts
                x.pc = st0.pc + (ex,)
                x.gates = st0.gates
        elif len(allouts) + len(rets) > 1:
            # which exit is taken is a fresh choice per loop; what held there is kept as a fact of the choice
            groups = [(t, ss) for t, ss in outs.items() if ss and t not in dies]
            if rets:
                groups.append((None, rets))
            newrets = rets
            n = len(groups)
            prev = ()
            for gi, (t, ss) in enumerate(groups):
                m = self.merge(ss) if t is not None else None
                ms = [m] if m is not None else ss
                if n > 1:
                    here = prev + ((mk('exit', lid, gi, n),) if gi < n - 1 else ())
                    prev = prev + (notb(mk('exit', lid, gi, n)),)
                else:
                    here = (mk('exit', lid, 0, 1),)
                first = True
                for q in ms:
                    facts = tuple(z for z in q.pc if z not in st0pcs)
                    gs = tuple(z for z in q.gates if z not in st0.gates)
                    hg = here if n > 1 else ()
                    if t is not None:
                        q.pc = st0.pc + here
                        q.gates = st0.gates + hg
                        if not first:
                            facts = tuple(z for z in EXITS[here[-1]] if z in facts)
                        EXITS[here[-1]] = facts
                        first = False
                    else:
                        q.pc = st0.pc + here + facts
                        q.gates = st0.gates + hg + (gs if len(ms) > 1 else ())
                if m is not None:
                    outs[t] = [m]
        return outs, rets

    def tie(self, phis, closed):
        """locals that count the same thing up and down: one of them tells the others"""
        cand = []
        for n, (ph, (base, path, init, step)) in enumerate(phis.items()):
            if base[0] != 'L' or path or ph in closed or init is BOT or not (is_intlike(init) or is_intlike(step)):
                continue
            d = sub(step, ph)
            if d is ZERO or d.op == 'ite' or mentions_bot(d):
                continue
            m = poly_parts(d)[1]
            cand.append((0 if init is ZERO else 1 if m and all(v > 0 for v in m.values()) else 2, n, ph, init, d))
        cand.sort(key=lambda c: c[:2])
        for i, (_, _, x, ix, dx) in enumerate(cand):
            if x in closed:
                continue
            for (_, _, y, iy, dy) in cand[i + 1:]:
                if y in closed:
                    continue
                if add(dx, dy) is ZERO:
                    closed[y] = sub(iy, sub(x, ix))
                elif sub(dx, dy) is ZERO:
                    closed[y] = add(iy, sub(x, ix))

    def invariant(self, t, lid):
        return not contains(t, lambda x: (x.op in ('phi', 'k') and x.a[0] == lid) or x.op in ('ret', 'bottom', 'fl', 'str', 'adt', 'ref', 'slice', 'ite', 'tuple'))

    def nonneg(self, t, pc):
        c, m = poly_parts(t)
        if c >= 0 and all(v > 0 and not is_signed(x) for x, v in m.items()):
            return True
        return Lin(pc, is_signed).holds(le(ZERO, t))

    def subst_state(self, s, m):
        memo = {}
        ks = set(m)
        for b in list(s.mem):
            v = s.mem[b]
            s.mem[b] = subst(v, m, memo)
        s.pc = tuple(subst(x, m, memo) for x in s.pc)
        s.gates = tuple(subst(x, m, memo) for x in s.gates)

    def setpath(self, st, base, path, v):
        self.write(st, base, path, v)

    def getpath(self, st, base, path):
        v = self.val(st, base)
        for pr in path:
            v = self.pf(v, pr[1], pr[2])
        return v

    def diff(self, base, path, v0, v1, out, d):
        if v0 is v1:
            return
        if v0.op == v1.op and d < 8:
            if v0.op == 'adt' and v0.a[0] == v1.a[0] and v0.a[1] == v1.a[1]:
                t = self.tk(v0.a[0])
                if t['k'] == 'adt' and len(t.get('fields', [])) == 1:
                    for i in range(len(v0.a) - 2):
                        self.diff(base, path + (('f', v0.a[1], i),), v0.a[2 + i], v1.a[2 + i], out, d + 1)
                    return
            if v0.op == 'tuple' and len(v0.a) == len(v1.a):
                for i in range(len(v0.a)):
                    self.diff(base, path + (('f', 0, i),), v0.a[i], v1.a[i], out, d + 1)
                return
            if v0.op == 'closure' and v0.a[0] == v1.a[0]:
                for i in range(len(v0.a) - 1):
                    self.diff(base, path + (('f', 0, i),), v0.a[1 + i], v1.a[1 + i], out, d + 1)
                return
            if v0.op == 'seq' and v0.a[0] is v1.a[0]:
                out[(base, path + (('f', 0, 'idx'),))] = 1
                return
        if v0.op != 'adt' and v1.op == 'adt' and d < 8 and v0.op != 'bottom':
            # opaque struct against an updated copy of it
            t = self.tk(v1.a[0])
            if t['k'] == 'adt' and len(t.get('fields', [])) == 1:
                for i in range(len(v1.a) - 2):
                    self.diff(base, path + (('f', v1.a[1], i),), self.pf(v0, v1.a[1], i), v1.a[2 + i], out, d + 1)
                return
        if d < 8 and v0.op != 'bottom' and (v1.op == 'ite' or v0.op == 'ite'):
            # a choice between updated copies of a struct: compare the fields
            ty = None
            n = None
            for v in (v0, v1):
                for l in leaves(v):
                    if l.op == 'adt' and len(self.tk(l.a[0]).get('fields') or []) == 1:
                        ty, var, n = l.a[0], l.a[1], len(l.a) - 2
                    elif l.op == 'tuple':
                        ty, var, n = 'tuple', 0, len(l.a)
            if n:
                for i in range(n):
                    self.diff(base, path + (('f', var, i),), self.pf(v0, var, i), self.pf(v1, var, i), out, d + 1)
                return
        out[(base, path)] = 1

    def exec_block(self, fr, b, st):
        self.nsteps += 1
        if self.nsteps > self.maxsteps:
            raise Fail('step budget exceeded in %s' % fr.fn.npath)
        stmts, term, line = fr.fn.blocks[b]
        for s in stmts:
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], s[1])
                self.write_place(fr, st, s[1], v)
            elif s[0] == 'sd':
                ps, ty = self.places(fr, st, s[1])
                for c, bb, p in ps:
                    v = mk('adt', ty, s[2]) if ty is not None else fresh('sd')
                    self.write(st, bb, p, v)
            elif s[0] == 'assume':
                self.assume(st, self.operand(fr, st, s[1]), False)
            elif s[0] == 'cno':
                src = self.operand(fr, st, s[1])
                dst = self.operand(fr, st, s[2])
                if dst.op == 'ref':
                    self.write(st, dst.a[0], dst.a[1], mk('copied', src))
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'ret':
            fr.rets.append(st)
            return []
        if k in ('resume', 'abort', 'unreach'):
            return []
        if k == 'switch':
            d = self.operand(fr, st, term[1])
            d = self.simp(d, st.pc)
            if d is BOT:
                return []
            s = self.tk(term[4])['s'] if term[4] is not None else ''
            res = []
            if s == 'bool':
                conds = []
                rest = TRUE
                for v, t in term[2]:
                    c = notb(d) if v == 0 else d
                    conds.append((c, t))
                    rest = andb(rest, notb(c))
                conds.append((rest, term[3]))
            else:
                conds = []
                rest = TRUE
                for v, t in term[2]:
                    if self.tk(term[4])['k'] == 'int' and v >= (1 << (self.tk(term[4])['bits'] - 1)):
                        v -= 1 << self.tk(term[4])['bits']
                    c = self.sw(d, v, term[4])
                    conds.append((c, t))
                    rest = andb(rest, notb(c))
                conds.append((rest, term[3]))
            live = []
            dies = cfg(fr.fn).dies
            ngate = len({t for c, t in conds if c is not FALSE and t not in dies})
            for c, t in conds:
                if c is FALSE:
                    continue
                tb = fr.fn.blocks[t]
                if not tb[0] and tb[1][0] == 'unreach':
                    continue
                s2 = st.copy()
                # a branch whose other side cannot return is a check: what it asks is a fact
                if self.assume(s2, c, ngate > 1 or t in dies):
                    live.append((t, s2))
            return live
        if k == 'drop':
            tyi = term[3]
            if term[4]:
                v = self.read_place(fr, st, term[1])
                if v is not BOT:
                    self.event('drop', self.tk(tyi)['s'] if tyi is not None else '?', fr, st, line, [v], argtys=[tyi])
            return [(term[2], st)]
        if k == 'assert':
            c = self.operand(fr, st, term[1])
            if not term[2]:
                c = notb(c)
            ops = [self.operand(fr, st, o) for o in term[4]]
            self.event('assert', term[3], fr, st, line, [c] + ops)
            if not self.assume(st, c, False):
                return []
            return [(term[5], st)]
        if k == 'asm':
            return [(term[1], st)] if term[1] is not None else []
        if k == 'call':
            return self.exec_call(fr, b, term, st, line)
        raise Fail('terminator %s' % k)

    def exec_call(self, fr, b, term, st, line):
        callee, aops, dest, target = term[1], term[2], term[3], term[4]
        argtys = term[6]
        args = [self.operand(fr, st, o) for o in aops]
        site = site_intern((fr.site, b))
        dty = self.place_static_ty(fr, dest)
        from models import Call
        call = Call(self, fr, st, callee, args, argtys, dty, site, line)
        if target is None:
            self.event('panic', call.name, fr, st, line, args, argtys=argtys)
            return []
        res = self.models.dispatch(call)
        # res: list of (state, value)
        out = []
        for s, v in res:
            if s is None:
                continue
            if v is None:
                v = UNIT
            self.write_place(fr, s, dest, v)
            out.append(s)
        if not out:
            return []
        return [(target, self.merge(out))]

    # ------------------------------------------------------------ roots
    def run_root(self, fn, args=None, st=None):
        """evaluate a function with symbolic arguments"""
        st = st or State()
        if args is None:
            args = []
            for i in range(fn.argc):
                args.append(mk('sym', 'arg%d' % (i + 1)))
        for i, a in enumerate(args):
            ty = fn.locals[i + 1][0]
            if self.tk(ty)['k'] == 'int':
                SIGNED.add(a)
        return self.run_fn(fn, args, st, site_intern(('root', fn.key, self.uid)), 0, (fn.npath,))


def leaves(v, n=0):
    if v.op == 'ite' and n < 40:
        for x in (v.a[1], v.a[2]):
            yield from leaves(x, n + 1)
    else:
        yield v


def is_intlike(t):
    return t.op in ('int', 'poly', 'phi', 'k', 'field', 'len', 'deref0', 'mulm', 'sym', 'ret', 'app', 'min', 'max', 'div', 'rem')


def sub_const_diff(a, b):
    if a.op == 'str' and b.op == 'str':
        return a is not b
    if a.op == 'int' and b.op == 'int':
        return a is not b
    return False
