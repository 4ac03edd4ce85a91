"""What a function leaves in audio buffers and slices, as a function of the place read: every loop that writes is
solved for the iteration that writes the place asked for, so that two programs that fill a buffer in different
ways come out as the same function of channel and frame."""
from q import *
import interp
import models
from interp import EXITS


class Undecided(Exception):
    pass


def rows(c):
    """audio buffers are accessed row by row; what a row is, is decided on its own"""
    if c.trait == 'AudioBuffer' and c.meth in ('get_channel_data', 'get_channel_data_mut'):
        c.name = 'AudioBuffer::' + c.meth
        return models.opaque(c, havoc=False)
    if c.trait == 'AudioBuffer' and c.meth in models.SHAPE:
        if models.load(c, c.args[0], c.arg_pointee(0)).op == 'adt':
            return None
        return models.trait_event(c)
    if c.trait == 'AudioBuffer' and c.meth == 'duplicate_channel':
        c.name = 'AudioBuffer::' + c.meth
        return models.opaque(c, havoc=False)
    if c.name.endswith('approx::Relative::eq'):
        made = [e.name for e in c.I.events if e.ret is c.args[0] or c.args[0].op == 'ref' and e.ret is models.load(c, c.args[0], c.arg_pointee(0))]
        if not made or not made[-1].endswith('::default'):
            return None     # not the tolerance of one that is asked for nothing else
        a = models.load(c, c.args[1], c.arg_pointee(1))
        b = models.load(c, c.args[2], c.arg_pointee(2))
        return c.ret(mk('app', 'approx', a, b))
    return None


def rows_valid(c):
    """as rows; what range_is_valid says is decided on its own"""
    if c.trait == 'AudioBuffer' and c.meth == 'range_is_valid':
        from rules.params import fidx
        o = c.args[0]
        v = models.root_value(models.load(c, o, c.arg_pointee(0)))
        r = models.load(c, c.args[1], c.arg_pointee(1))
        ch, fr, cc, fc = [c.I.pf(r, 0, fidx(c.I.p, 'SampleRange', n)) for n in ('channel', 'frame', 'channel_count', 'frame_count')]
        for m in ('channel_count', 'frame_count'):
            models.UNSIGNED.add(mk('app', m, v))
        return c.ret(andb(le(add(ch, cc), mk('app', 'channel_count', v)), le(add(fr, fc), mk('app', 'frame_count', v))))
    return rows(c)


def default_body(p, meth):
    """the body every kind of buffer shares for an operation, None if some have their own"""
    own = None
    for g in p.local():
        if g.npath.endswith('AudioBuffer>::' + meth) and g.npath.startswith('<'):
            return None
        if own is None and g.blocks and g.npath.endswith('audio_buffer::AudioBuffer::' + meth):
            own = g
    return own


def effects(c):
    """as rows, for what renders audio: operations of buffers whose kind is not known are their default bodies,
    windows lead to the buffer below, and the values of a parameter are opaque"""
    if c.tgt is not None and c.tgt.krate == 'rawdio' and c.tgt.npath.rsplit('::', 2)[-2:-1] == ['dsp'] and c.tgt.npath.rsplit('::', 1)[-1] in KERNELS:
        return kernel(c)
    if c.meth == 'get_parameter_values' and c.name.endswith('DspParameters::get_parameter_values'):
        c.name = 'parameter'
        return models.opaque(c, havoc=False)
    if c.trait == 'AudioBuffer':
        if c.callee['k'] in ('virtual', 'unresolved') and c.meth not in models.SHAPE + ROWS:
            g = default_body(c.I.p, c.meth)
            if g is not None:
                return models.inline(c, c.st, g, c.args)
        if c.meth in ROWS and c.tgt is not None and c.tgt.blocks and models.load(c, c.args[0], c.arg_pointee(0)).op == 'adt' and \
                c.tgt.npath.endswith('AudioBuffer>::' + c.meth) and 'orrowed' in c.tgt.npath:
            return models.inline(c, c.st, c.tgt, c.args)
    return rows(c)


def arg(i):
    return mk('sym', 'arg%d' % i)


# what the kernels leave in one of their arguments, as a function of the place: decided on their own (R23)
KERNELS = {
    'mix_into': (2, lambda x, e: mk('fadd', e(2, x), e(1, x)), (1, 2)),
    'mix_into_with_gain': (2, lambda x, e: mk('fadd', e(2, x), mk('fmul', e(1, x), arg(3))), (1, 2)),
    'mix_into_with_gains': (2, lambda x, e: mk('fadd', e(2, x), mk('fmul', e(1, x), e(3, x))), (1, 2, 3)),
    'mix': (3, lambda x, e: mk('fadd', e(1, x), e(2, x)), (1, 2, 3)),
    'subtract_from': (2, lambda x, e: mk('fsub', e(2, x), e(1, x)), (1, 2)),
    'multiply': (1, lambda x, e: mk('fmul', e(1, x), e(2, x)), (1, 2)),
    'multiply_by_value': (1, lambda x, e: mk('fmul', e(1, x), arg(2)), (1,)),
}


def kernel(c):
    """a kernel whose slices are of the same length"""
    I, st = c.I, c.st
    dst, val, slices = KERNELS[c.tgt.npath.rsplit('::', 1)[-1]]
    refs = {i: models.whole(c, c.args[i - 1], c.arg_pointee(i - 1)) for i in slices}
    lens = {i: models.seq_len_of_ref(c, c.args[i - 1], c.arg_pointee(i - 1)) for i in slices}
    old = {i: models.load(c, refs[i], c.arg_pointee(i - 1)) for i in slices}
    e = I.event('kernel', c.tgt.npath, c.fr, st, c.line, [lens[i] for i in slices], argtys=c.argtys)
    for i in slices:
        if i != dst:
            I.event('assert', 'lengths', c.fr, st, c.line, [eq(lens[i], lens[dst]), lens[i], lens[dst]])
            I.assume(st, eq(lens[i], lens[dst]), False)
    x = mk('sym', 'each%d' % e.seq)
    body = subst(val(x, lambda i, y: mk('select', mk('sym', 'arr%d' % i), y)), {arg(i + 1): v for i, v in enumerate(c.args) if i + 1 not in slices})
    m = {}
    for t in subterms(body):
        if t.op == 'select' and t.a[0].op == 'sym' and str(t.a[0].a[0]).startswith('arr'):
            m[t] = I.select(old[int(str(t.a[0].a[0])[3:])], t.a[1])
    new = mk('gen', lens[dst], x, subst(body, m))
    for g, b, p in I.deref(refs[dst], c.arg_pointee(dst - 1)):
        I.write(st, b, p, new if g is TRUE else ite(g, new, I.read(st, b, p)))
    return c.ret(models.UNIT)


ROWS = ('get_channel_data', 'get_channel_data_mut', 'duplicate_channel')


def at(v, k, val):
    return subst(v, {k: val})


def solve(e, k):
    """the value of k where e is 0, or None"""
    c, m = poly_parts(e)
    q = m.get(k)
    if q in (1, -1) and not any(contains(x, lambda t: t is k) for x in m if x is not k):
        return scale(add(e, scale(k, -q)), -q)
    return None


class Content:
    """elements of arrays after a function"""

    def __init__(self, A):
        self.A = A
        self.I = A.I
        self.site = {}
        self.facts = []
        self.prefix = ()     # loops of which one pass is looked at
        self.own = None
        self.follow = set() # loops that state of the function is followed through
        self.shapes = {}     # a buffer the function makes -> (channels, frames)
        for e in A.events:
            if e.kind == 'call' and e.name.endswith(('::get_channel_data', '::get_channel_data_mut')) and e.ret is not None:
                self.site[e.ret.a[0]] = e

    names = {}

    def named(self, t):
        return subst(t, self.names) if self.names else t

    def ks(self, e):
        return [self.I.loops[l].k for l in e.loops[len(self.prefix):] if l in self.I.loops]

    def all_ks(self, e):
        return [self.I.loops[l].k for l in e.loops if l in self.I.loops]

    def elem(self, v, x, selfs=()):
        """v[x]; for a phi in selfs: its content before the present iteration, ('prev', phi, x)"""
        o = v.op
        if v in selfs:
            return mk('prev', v, x)
        if o == 'store':
            return ite(eq(v.a[1], x), v.a[2], self.elem(v.a[0], x, selfs))
        if o == 'substore':
            b, n = v.a[1], v.a[2]
            return ite(andb(le(b, x), lt(x, add(b, n))), self.elem(v.a[3], sub(x, b), selfs), self.elem(v.a[0], x, selfs))
        if o == 'from_elem':
            return v.a[0]
        if o == 'gen':
            val = subst(v.a[2], {v.a[1]: x})
            m = {}
            for t in subterms(val):
                if t.op == 'select' and (t.a[0] in selfs or t.a[0].op in ('phi', 'store', 'substore', 'moved', 'from_elem', 'gen', 'ite')):
                    r = self.elem(t.a[0], t.a[1], selfs)
                    if r is not t:
                        m[t] = r
            return subst(val, m) if m else val
        if o == 'ite':
            return ite(v.a[0], self.elem(v.a[1], x, selfs), self.elem(v.a[2], x, selfs))
        if o == 'moved':
            a, b, d = v.a[1:4]
            return ite(andb(le(d, x), lt(x, add(d, sub(b, a)))), self.elem(v.a[0], add(sub(x, d), a), selfs), self.elem(v.a[0], x, selfs))
        if o == 'subarr':
            return self.elem(v.a[0], add(v.a[1], x), selfs)
        if o == 'resized' and len(v.a) == 3:
            return ite(lt(x, self.I.length(v.a[0])), self.elem(v.a[0], x, selfs), v.a[2])
        if o == 'phi' and (not v.a[2] or v.a[0] in self.follow) and v.a[0] in self.I.loops and v in self.I.loops[v.a[0]].phis:
            return self.one_row(v, x, selfs) or self.after(v, x, selfs)
        if o == 'array' and x.op == 'int' and 0 <= x.a[0] < len(v.a):
            return v.a[x.a[0]]
        return mk('select', v, x)

    def trips(self, lid):
        """how often the loop runs, None if that is not a number known before it"""
        li = self.I.loops[lid]
        if li.trips is not None:
            return li.trips
        ex = [(k, fs) for k, fs in EXITS.items() if k.op == 'exit' and k.a[0] == lid]
        if len(ex) != 1 or ex[0][0].a[2] != 1:
            return None
        for f in ex[0][1]:
            # as many as the shorter of what it goes along
            if f.op == 'or' and all(x.op == 'le0' for x in f.a):
                bs = []
                for x in f.a:
                    b = self.lengths(add(x.a[0], li.k))
                    if poly_parts(x.a[0])[1].get(li.k) != -1 or contains(b, lambda t: t is li.k or (t.op == 'phi' and t.a[0] == lid)):
                        return None
                    bs.append(b)
                r = bs[0]
                for b in bs[1:]:
                    r = imin(r, b)
                return r
            if f.op == 'le0' and poly_parts(f.a[0])[1].get(li.k) == -1:
                b = self.lengths(add(f.a[0], li.k))
                if not contains(b, lambda t: t is li.k or (t.op == 'phi' and t.a[0] == lid)):
                    return b
        return None

    def counted(self, lid):
        li = self.I.loops[lid]
        if self.trips(lid) is None:
            raise Undecided('a loop that is not counted fills the array (%s:%s)' % (li.fn.file, li.line))
        return li

    def one_row(self, v, x, selfs):
        """v[x] when the loop of v is done, if each pass changes the same element: then that element is a state of its own"""
        li = self.I.loops[v.a[0]]
        base, path, init, step = li.phis[v]
        if v.a[0] not in self.follow or step.op != 'store' or step.a[0] is not v:
            return None
        i0 = step.a[1]
        if contains(i0, lambda t: t is li.k or t is v):
            return None
        ph = mk('phi', v.a[0], v.a[1], v.a[2] + (('i', i0),))
        inner = subst(step.a[2], {mk('select', v, i0): ph})
        if contains(inner, lambda t: t is v):
            return None
        li.phis[ph] = (base, path, self.elem(init, i0, selfs), inner)
        return ite(eq(i0, x), ph, self.elem(init, x, selfs))

    def after(self, v, x, selfs):
        """v[x] when the loop of v is done"""
        li = self.counted(v.a[0])
        base, path, init, step = li.phis[v]
        before = self.elem(init, x, selfs)
        one = self.elem(step, x, selfs + (v,))
        return self.done(one, v, x, before, li, init, selfs)

    def done(self, one, v, x, before, li, init, selfs):
        """the effect on place x of all iterations, `one` being that of one"""
        k = li.k
        if one is mk('prev', v, x):
            return before
        if one.op == 'ite':
            c = one.a[0]
            if not contains(c, lambda t: t is k):
                return ite(c, self.done(one.a[1], v, x, before, li, init, selfs), self.done(one.a[2], v, x, before, li, init, selfs))
            r = self.only(one, v, x, before, li, init, selfs)
            if r is not None:
                return r
            if one.a[2] is mk('prev', v, x):
                return self.once(c, one.a[1], v, x, before, li, init, selfs)
            if one.a[1] is mk('prev', v, x):
                return self.once(notb(c), one.a[2], v, x, before, li, init, selfs)
            # two writers under different conditions, at most one iteration each
            for c1, t1, rest in ((c, one.a[1], one.a[2]), (notb(c), one.a[2], one.a[1])):
                try:
                    b2 = self.done(rest, v, x, before, li, init, selfs)
                    return self.once(c1, t1, v, x, b2, li, init, selfs)
                except Undecided:
                    continue
        if not contains(one, lambda t: t is k or (t.op == 'prev' and t.a[0] is v)):
            return ite(lt(ZERO, self.trips(li.id)), one, before)
        raise Undecided('the iteration that writes an element cannot be told (%s:%s)' % (li.fn.file, li.line))

    def only(self, one, v, x, before, li, init, selfs):
        """an equation without which nothing is written tells the iteration"""
        k = li.k
        pv = mk('prev', v, x)
        for z in sorted({y for t in subterms(one) if t.op == 'ite' for y in subterms(t.a[0]) if y.op == 'eq0'}, key=lambda t: t.id):
            if not contains(z, lambda t: t is k) or contains(z, lambda t: t.op == 'prev'):
                continue
            if subst(one, {z: FALSE}) is not pv:
                continue
            for kv in self.solutions(z.a[0], k, x):
                there = at(subst(one, {z: TRUE}), k, kv)
                cond = andb(at(z, k, kv), le(ZERO, kv), lt(kv, self.trips(li.id)))
                return ite(cond, self.previous(there, v, x, li, init, selfs, kv, z, k), before)
        return None

    def once(self, c, val, v, x, before, li, init, selfs):
        """the iteration in which c holds writes val"""
        k = li.k
        lits = c.a if c.op == 'and' else (c,)
        for l in lits:
            if l.op != 'eq0':
                continue
            for kv in self.solutions(l.a[0], k, x):
                cond = andb(at(c, k, kv), le(ZERO, kv), lt(kv, self.trips(li.id)))
                val2 = at(val, k, kv)
                return ite(cond, self.previous(val2, v, x, li, init, selfs, kv, c, k), before)
        kv = self.radix(lits, k, x)
        if kv is not None:
            cond = andb(at(c, k, kv), le(ZERO, kv), lt(kv, self.trips(li.id)))
            return ite(cond, self.previous(at(val, k, kv), v, x, li, init, selfs, kv, c, k), before)
        raise Undecided('the iteration that writes an element cannot be told (%s:%s)' % (li.fn.file, li.line))

    def radix(self, lits, k, x):
        """0 <= x - a*k < b for an x = a*q + r with 0 <= r < a and b <= a: only k = q"""
        L = Lin(tuple(self.facts), interp.is_signed)
        for l in lits:
            if l.op != 'le0':
                continue
            for t, q in poly_parts(l.a[0])[1].items():
                if t.op != 'mulm' or len(t.a) != 2 or k not in t.a or q != 1 or t.a[0] is t.a[1]:
                    continue
                a = t.a[0] if t.a[1] is k else t.a[1]
                rest = sub(add(l.a[0], scale(t, -1)), ZERO)
                # a*k - x <= 0: the lower bound
                y = scale(rest, -1)
                for t2, q2 in poly_parts(y)[1].items():
                    if t2.op == 'mulm' and len(t2.a) == 2 and a in t2.a and q2 == 1:
                        r = sub(y, t2)
                        z = sub(y, t)
                        upper = [u for u in lits if u.op == 'le0' and poly_parts(u.a[0])[1].get(t) == -1]
                        if L.holds(le(ZERO, r)) and L.holds(lt(r, a)) and any(
                                Lin(tuple(self.facts) + (u,), interp.is_signed).holds(lt(z, a)) for u in upper):
                            return t2.a[0] if t2.a[1] is a else t2.a[1]
        return None

    def solutions(self, e, k, x):
        s = solve(e, k)
        if s is not None:
            return [s]
        # stride: a*k + b = a*f + c
        c, m = poly_parts(e)
        for t, q in m.items():
            if t.op == 'mulm' and len(t.a) == 2 and k in t.a and t.a[0] is not t.a[1]:
                a = t.a[0] if t.a[1] is k else t.a[1]
                for t2, q2 in m.items():
                    if t2 is not t and t2.op == 'mulm' and len(t2.a) == 2 and a in t2.a and q2 == -q:
                        return [t2.a[0] if t2.a[1] is a else t2.a[1]]
        return []

    def previous(self, val, v, x, li, init, selfs, kv, c, k):
        """reads of the array itself in the iteration that writes x: only of x itself, which no other iteration writes"""
        m = {}
        for t in subterms(val):
            if t.op == 'select' and t.a[0] is v:
                y = t.a[1]
            elif t.op == 'prev' and t.a[0] is v:
                y = t.a[1]
            else:
                continue
            if sub(y, x) is not ZERO and not self.untouched(y, v, li):
                # equal where the write happens?
                cond = [l for l in (c.a if c.op == 'and' else (c,))]
                if not Lin([at(l, k, kv) for l in cond], interp.is_signed).holds(eq(y, x)):
                    raise Undecided('an element is computed from others of the same array')
            m[t] = self.elem(init, x if sub(y, x) is ZERO else y, selfs)
        return subst(val, m)

    def untouched(self, y, v, li):
        return False

    def reads(self, val):
        """element reads of arrays that loops before have written"""
        for i in range(6):
            m = {}
            for t in subterms(val):
                if t.op == 'select' and t.a[0].op in ('phi', 'store', 'substore', 'moved', 'from_elem', 'gen'):
                    r = self.elem(t.a[0], t.a[1])
                    if r is not t:
                        m[t] = r
            if not m:
                break
            val = subst(val, m)
        return val

    # -- rows ------------------------------------------------------------------------------------
    def place(self, ret):
        """the buffer, channel and first frame of a row"""
        e = self.site.get(ret.a[0]) if ret.op == 'ret' else None
        if e is None:
            return None
        m = dict(zip(self.all_ks(e), ret.a[1:]))
        loc = e.args[1]
        ch = subst(self.I.pf(loc, 0, 0), m)
        fr = subst(self.I.pf(loc, 0, 1), m)
        return e, subst(e.args[0], m), ch, fr

    def samples(self, val, own, lits=()):
        """reads of rows as samples of buffers"""
        for i in range(6):
            m = {}
            for t in subterms(val):
                if t.op == 'select' and t.a[0].op == 'deref0':
                    p = self.place(t.a[0].a[0])
                    if p is None:
                        continue
                    e, obj, ch, fr = p
                    fr = add(fr, t.a[1])
                    if obj is own:
                        m[t] = mk('app', 'own', ch, fr, INT(e.seq))
                    elif self.written(obj):
                        m[t] = mk('app', 'oth', obj, ch, fr, INT(e.seq))
                    else:
                        m[t] = mk('app', 'smp', obj, ch, fr)
            if not m:
                return val
            val = subst(val, m)
        return val

    def own_reads(self, val, c, f, e, writers, own, lits, rowwise):
        """the buffer's own samples, as what was there before the iteration that writes (c, f)"""
        if val.op == 'ite':
            q = val.a[0]
            q2 = self.own_reads(q, c, f, e, writers, own, lits, rowwise)
            return ite(q2, self.own_reads(val.a[1], c, f, e, writers, own, lits + (q,), rowwise),
                       self.own_reads(val.a[2], c, f, e, writers, own, lits + (notb(q),), rowwise))
        m = {}
        for t in subterms(val):
            if t.op == 'app' and t.a[0] == 'oth':
                m[t] = self.read_at(t.a[1], t.a[2], t.a[3], t.a[4].a[0])
            if t.op == 'app' and t.a[0] == 'own' and len(t.a) == 4:
                ch, fr, seq = t.a[1], t.a[2], t.a[3].a[0]
                L = Lin(lits, interp.is_signed)
                here = L.holds(eq(ch, c)) and L.holds(eq(fr, f))
                if here:
                    m[t] = self.upto([w for w in writers if w.seq < min(seq, e.seq)], own, c, f)
                elif rowwise and seq == e.seq and L.holds(eq(ch, c)):
                    # each row is handed out once: what it held is what was there before
                    m[t] = self.upto([w for w in writers if w.seq < e.seq], own, c, fr)
                elif not writers or (len(writers) == 1 and not self.ks(e)):
                    m[t] = mk('app', 'own', ch, fr)
                else:
                    m[t] = self.read_at(own, ch, fr, seq)
        return subst(val, m) if m else val

    def read_at(self, obj, ch, fr, seq):
        """the sample of a buffer as an access finds it that no write is interleaved with"""
        r = [x for x in self.site.values() if x.seq == seq][0]
        n = len(self.prefix)
        for w in self.written(obj):
            if w.seq != seq and set(w.loops[n:]) & set(r.loops[n:]):
                raise Undecided('a sample is computed from others of the same buffer')
        val = self.upto([w for w in self.written(obj) if w.seq < seq], obj, ch, fr)
        if obj is self.own:
            return val
        # what was there before, of another buffer
        return subst(val, {t: mk('app', 'smp', obj, t.a[1], t.a[2]) for t in subterms(val) if t.op == 'app' and t.a[0] == 'own' and len(t.a) == 3})

    def lengths(self, t):
        """lengths of rows: the frames of the buffer from the row's first"""
        for i in range(6):
            m = {}
            for x in subterms(t):
                if x.op != 'len':
                    continue
                v = x.a[0]
                if v.op == 'deref0':
                    p = self.place(v.a[0])
                    if p is not None:
                        m[x] = sub(self.frames_of(p[1]), p[3])
                elif v.op == 'phi' and v.a[0] in self.I.loops and v in self.I.loops[v.a[0]].phis:
                    m[x] = self.I.length(self.I.loops[v.a[0]].phis[v][2])
                elif v.op == 'phi' and not v.a[2] and v.a[1][0] == 'P' and self.place(v.a[1][1]) is not None:
                    p = self.place(v.a[1][1])
                    m[x] = sub(self.frames_of(p[1]), p[3])
                elif v.op in ('store', 'substore', 'moved'):
                    m[x] = self.I.length(v.a[0])
            if not m:
                return t
            t = subst(t, m)
        return t

    def frames_of(self, obj):
        if obj in self.shapes:
            return self.shapes[obj][1]
        return mk('app', 'frame_count', mk('deref0', obj))

    def written(self, own):
        return [e for e in self.A.events if e.kind == 'call' and e.name.endswith(('::get_channel_data_mut', '::duplicate_channel')) and e.args[0] is own and
                e.loops[:len(self.prefix)] == self.prefix]

    def row(self, e):
        """what the row handed out by e holds when the iteration that got it is done"""
        base = ('P', e.ret)
        if e.loops:
            li = self.I.loops[e.loops[-1]]
            for ph, (b, p, init, step) in li.phis.items():
                if b == base and not p:
                    return step, ph
            return None, None
        v = self.A.st.mem.get(base)
        return v, None

    def final(self, own, c, f):
        """the sample of the buffer at channel c, frame f, as the function leaves it; app(own, c, f) is what it was"""
        self.own = own
        return self.upto(self.written(own), own, c, f)

    def upto(self, writers, own, c, f):
        val = mk('app', 'own', c, f)
        for e in writers:
            val = self.through(e, own, c, f, val, writers)
        return val

    def duplicated(self, e, own, c, f, prev, writers):
        """one channel becomes another, from a frame on"""
        ks = self.ks(e)
        for l in e.loops[len(self.prefix):]:
            if l in self.I.loops:
                self.counted_or_first(l)
        loc, to, count = e.args[1:4]
        ch, fr = self.I.pf(loc, 0, 0), self.I.pf(loc, 0, 1)
        conds, sol = [], {}
        used = [k for k in ks if contains(to, lambda t: t is k)]
        if len(used) > 1 or any(contains(x, lambda t: t in ks) for x in (ch, fr, count)):
            raise Undecided('which channel is copied cannot be told')
        lits = []
        for l in e.loops[len(self.prefix):]:
            if l in self.I.loops:
                k = self.I.loops[l].k
                lits += [le(ZERO, k), lt(k, self.trips(l))]
                if k not in used:
                    conds.append(lt(ZERO, self.trips(l)))
        if used:
            s = solve(sub(to, c), used[0])
            if s is None:
                raise Undecided('which channel is copied to cannot be told')
            sol[used[0]] = s
            lid = [l for l in e.loops if l in self.I.loops and self.I.loops[l].k is used[0]][0]
            conds += [le(ZERO, s), lt(s, self.trips(lid))]
        else:
            conds.append(eq(to, c))
        others = [w for w in writers if w is not e and set(w.loops[len(self.prefix):]) & set(e.loops[len(self.prefix):])]
        if ks and (others or not Lin(tuple(lits) + (eq(to, ch),), interp.is_signed).infeasible([])):
            raise Undecided('a channel is copied that changes meanwhile')
        val = self.upto([w for w in writers if w.seq < e.seq], own, ch, f)
        g = [subst(z, sol) for z in e.gates]
        reach = andb(*(conds + g + [le(fr, f), lt(f, add(fr, count))]))
        return self.lengths(ite(reach, val, prev))

    def through(self, e, own, c, f, prev, writers):
        if e.name.endswith('::duplicate_channel'):
            return self.duplicated(e, own, c, f, prev, writers)
        v, ph = self.row(e)
        if v is None:
            return prev
        ks = self.ks(e)
        for l in e.loops[len(self.prefix):]:
            if l in self.I.loops:
                self.counted_or_first(l)
        ch = self.I.pf(e.args[1], 0, 0)
        fr = self.I.pf(e.args[1], 0, 1)
        sol = {}
        conds = []

        def assign(expr, target, allowed):
            expr = subst(expr, sol)
            for k in allowed:
                if k in sol or not contains(expr, lambda t: t is k):
                    continue
                s = solve(sub(expr, target), k)
                if s is None:
                    raise Undecided('which row is written cannot be told')
                for q in list(sol):
                    sol[q] = at(sol[q], k, s)
                sol[k] = s
                conds.append(le(ZERO, s))
                t = self.trips([l for l in e.loops if self.I.loops[l].k is k][0])
                if t is not None:
                    conds.append(('lt', s, t))
                return
            conds.append(eq(expr, target))
        for k, l in zip(ks, [l for l in e.loops[len(self.prefix):] if l in self.I.loops]):
            if self.trips(l) is ONE:
                sol[k] = ZERO
        assign(ch, c, ks)
        left = [k for k in ks if contains(subst(fr, sol), lambda t: t is k)]
        X = mk('sym', 'x')
        raw_ = self.elem(v, X, (ph,) if ph is not None else ())
        pv = mk('prev', ph, X) if ph is not None else None
        if left:
            # a row of which one element is written: the element tells the frame
            idx = None
            for t in subterms(raw_):
                if t.op == 'eq0' and X in poly_parts(t.a[0])[1]:
                    s = solve(t.a[0], X)
                    if idx is not None and s is not idx:
                        raise Undecided('which frame is written cannot be told')
                    idx = s
            if idx is None or contains(idx, lambda t: t in left):
                raise Undecided('which frame is written cannot be told')
            assign(add(fr, idx), f, ks)
            x = subst(idx, sol)
        else:
            x = sub(f, subst(fr, sol))
        # loops around that the place does not depend on: each pass must do the same
        rest = [k for k in ks if k not in sol]
        m = dict(sol)
        m[X] = x
        val = subst(raw_, m)
        for k in rest:
            if contains(val, lambda t: t is k) or contains(val, lambda t: t.op == 'prev'):
                raise Undecided('a row is written in more than one pass')
            lid = [l for l in e.loops if self.I.loops[l].k is k][0]
            if self.trips(lid) is None:
                raise Undecided('a row is written in more than one pass')
            conds.append(lt(ZERO, self.trips(lid)))
        cs = [lt(subst(z[1], sol), subst(z[2], sol)) if isinstance(z, tuple) else subst(z, sol) for z in conds]
        g = [subst(z, m) for z in e.gates]
        reach = andb(*(cs + g + [le(ZERO, x)]))
        seq = INT(e.seq)
        mm = {}
        for t in subterms(val):
            if t.op == 'prev' or (ph is not None and t.op == 'select' and t.a[0].op == 'phi' and t.a[0] is subst(ph, m)):
                mm[t] = mk('app', 'own', c, add(sub(f, x), t.a[1]), seq)
        val = subst(val, mm)
        val = self.samples(val, own)
        lits = tuple(reach.a) if reach.op == 'and' else (reach,)
        val = self.own_reads(val, c, f, e, writers, own, lits, not left and not rest)
        return self.lengths(ite(reach, val, prev))

    def counted_or_first(self, l):
        if self.trips(l) is None:
            raise Undecided('rows are written in a loop that is not counted (%s:%s)' % (self.I.loops[l].fn.file, self.I.loops[l].line))


# -- comparing two contents ---------------------------------------------------------------------------

class Cases:
    """do two terms agree wherever the facts hold: case distinction over their conditions, pruned by linear arithmetic"""

    def __init__(self, I, facts, limit=6000, approx=True):
        self.I = I
        self.facts = list(facts)
        self.n = 0
        self.limit = limit
        self.approx = approx
        self.failed = None

    def atom(self, ts):
        best = None
        for t in ts:
            for x in subterms(t):
                if x.op == 'ite':
                    cs = self.literals(x.a[0])
                elif x.op in ('min', 'max') and len(x.a) >= 2 and le(x.a[0], x.a[1]).op == 'le0':
                    cs = (le(x.a[0], x.a[1]),)
                else:
                    continue
                for y in cs:
                    # what is equal first, then the shorter of two lengths
                    r = (0 if y.op == 'eq0' else 1 if x.op != 'ite' else 2, y.id)
                    if best is None or r < best[0]:
                        best = (r, y)
        return best[1] if best else None

    def literals(self, c):
        if c.op in ('and', 'or'):
            for x in c.a:
                yield from self.literals(x)
        elif c.op == 'not':
            yield from self.literals(c.a[0])
        elif c.op == 'ite':
            for x in c.a:
                yield from self.literals(x)
        elif c.op not in ('true', 'false'):
            yield c

    def agree(self, a, b, facts=None, eqs=None, depth=0):
        facts = self.facts if facts is None else facts
        self.n += 1
        if self.n > self.limit:
            raise Undecided('too many cases')
        if a is b:
            return True
        y = self.atom((a, b))
        if y is None:
            a, b = canon(a), canon(b)
            facts = [canon(x) for x in facts]
            if self.equal(a, b, facts) or self.contrary(facts):
                return True
            if self.real(a, b, facts, depth):
                return True
            self.failed = (a, b, facts)
            return False
        for pos in (True, False):
            l = y if pos else notb(y)
            L = Lin(tuple(facts) + tuple(self.bounds(a, b)), interp.is_signed)
            if L.holds(notb(l)):
                continue
            m = {y: TRUE if pos else FALSE}
            m[notb(y)] = FALSE if pos else TRUE
            extra = []
            if pos and y.op == 'eq0':
                s = self.orient(y.a[0])
                if s:
                    m2 = dict([s])
                    a2, b2 = subst(subst(a, m), m2), subst(subst(b, m), m2)
                    f2 = [subst(z, m2) for z in facts] + [l]
                    if not self.agree(a2, b2, f2, None, depth + 1):
                        return False
                    continue
            if pos and y.op == 'is':
                # of one variant only
                for t in (a, b, *facts):
                    for x in subterms(t):
                        if x.op == 'is' and x.a[0] is y.a[0] and x is not y:
                            m[x] = FALSE
            if pos and y.op == 'feq':
                v = next(((p, q) for p, q in (y.a, y.a[::-1]) if p.op == 'phi' and p.a[2] and not contains(q, lambda t: t is p)), None)
                if v:
                    m2 = dict([v])
                    if not self.agree(subst(subst(a, m), m2), subst(subst(b, m), m2), [subst(z, m2) for z in facts], None, depth + 1):
                        return False
                    continue
            a2, b2 = subst(a, m), subst(b, m)
            a2, b2 = self.minmax(a2, y, pos), self.minmax(b2, y, pos)
            a2, b2 = self.settle(a2, facts + [l]), self.settle(b2, facts + [l])
            f2 = [z for z in (self.minmax(subst(z, m) if z is not y else z, y, pos) for z in facts) if z is not TRUE]
            if FALSE in f2:
                continue
            f2.append(l)
            if not self.agree(a2, b2, f2, None, depth + 1):
                return False
        return True

    def real(self, a, b, facts, depth):
        """the comparisons of floats among the facts, as facts about reals"""
        fs = [x for x in facts if (x.a[0] if x.op == 'not' else x).op in ('flt', 'fle', 'feq')]
        for t in (a, b):
            for x in subterms(t):
                if x.op == 'app' and x.a[0] in ('min', 'max') and len(x.a) == 3:
                    y = mk('flt', x.a[1], x.a[2])
                    if y in facts or notb(y) in facts:
                        continue
                    first = x.a[0] == 'min'
                    for l, v in ((y, x.a[1] if first else x.a[2]), (notb(y), x.a[2] if first else x.a[1])):
                        m = {x: v}
                        if not self.agree(subst(a, m), subst(b, m), [subst(z, m) for z in facts] + [l], None, depth + 1):
                            return False
                    return True
        if not fs:
            return False
        R = Reals(fs)
        return R.infeasible() or R.equal(a, b)

    def contrary(self, facts):
        """the facts exclude each other"""
        for x in facts:
            y = x.a[0] if x.op == 'not' else x
            if y.op == 'app' and y.a[0] == 'approx' and y.a[1].op == 'fl' and y.a[2].op == 'fl':
                if (abs(float(y.a[1].a[0]) - float(y.a[2].a[0])) < 1e-9) == (x.op == 'not'):
                    return True
        L = Lin(tuple(facts), interp.is_signed)
        return L.infeasible([]) or any(z.op == 'not' and z.a[0].op == 'eq0' and L.holds(z.a[0]) for z in facts)

    def settle(self, t, facts):
        """conditions the facts decide"""
        L = None
        for i in range(3):
            m = {}
            for x in subterms(t):
                if x.op in ('le0', 'eq0') and x not in m:
                    if L is None:
                        L = Lin(tuple(facts) + tuple(self.bounds(t)), interp.is_signed)
                    if L.holds(x):
                        m[x] = TRUE
                    elif L.holds(notb(x)):
                        m[x] = FALSE
            if not m:
                return t
            t = subst(t, m)
        return t

    def minmax(self, t, y, pos):
        m = {}
        for x in subterms(t):
            if x.op in ('min', 'max') and len(x.a) == 2 and le(x.a[0], x.a[1]) is y:
                m[x] = x.a[0] if pos == (x.op == 'min') else x.a[1]
            elif x.op in ('min', 'max') and len(x.a) > 2 and le(x.a[0], x.a[1]) is y:
                keep = x.a[0] if pos == (x.op == 'min') else x.a[1]
                m[x] = rebuild(x.op, (keep,) + x.a[2:])
        return subst(t, m) if m else t

    def orient(self, e):
        """an equation as a replacement of one of its atoms"""
        c, ms = poly_parts(e)
        cand = [x for x, q in ms.items() if q in (1, -1) and not any(contains(z, lambda t: t is x) for z in ms if z is not x)]
        if not cand:
            return None
        x = max(cand, key=lambda z: (z.op == 'app', z.id))
        return x, solve(e, x)

    def bounds(self, *ts):
        out = []
        seen = set()
        for t in ts:
            for x in subterms(t):
                if x.op == 'app' and x.a[0] in ('simdpre', 'simdmid') and x not in seen:
                    seen.add(x)
                    out.append(le(ZERO, x))
                    if x.a[0] == 'simdmid':
                        out.append(le(add(x.a[2], x), x.a[1]))
                if x.op == 'min' and x not in seen:
                    seen.add(x)
                    out += [le(x, z) for z in x.a]
                if x.op == 'max' and x not in seen:
                    seen.add(x)
                    out += [le(z, x) for z in x.a]
        return out

    def equal(self, a, b, facts):
        if real_equal(a, b):
            return True
        # locations that are the same under the facts
        L = Lin(tuple(facts), interp.is_signed)
        xs = sorted({x for t in (a, b) for x in subterms(t) if x.op == 'select' or x.op == 'app' and x.a[0] in ('smp', 'own')}, key=lambda x: x.id)
        m = {}
        for i, x in enumerate(xs):
            for y in xs[:i]:
                if y in m or y.op != x.op or len(y.a) != len(x.a) or y.a[0] is not x.a[0]:
                    continue
                if all(p is q or (isinstance(p, T) and isinstance(q, T) and L.holds(eq(p, q))) for p, q in zip(x.a, y.a)):
                    m[x] = y
                    break
        if m:
            a3, b3 = subst(a, m), subst(b, m)
            if real_equal(a3, b3):
                return True
            # one may hide the other
            for x, y in m.items():
                if real_equal(subst(a, {x: y}), subst(b, {x: y})):
                    return True
        # a value that is as good as a constant here
        ap = {}
        for f in facts:
            if f.op == 'app' and f.a[0] == 'approx':
                x, v = f.a[1], f.a[2]
                if v.op == 'fl':
                    ap[x] = v
        if ap and self.approx:
            a2, b2 = subst(a, ap), subst(b, ap)
            if real_equal(a2, b2):
                return True
        return False
