"""R31: the convolution effect is dry input plus the wet convolution of everything it was given with its impulse.

A pass of the loop over chunks is evaluated for a symbolic channel and place: what is kept of the input, what is transformed,
what is multiplied, what is transformed back, and which part of that reaches the output."""
from q import *
from arrays import *
from .params import short, fidx
from .buffers import check, arg, d0, chans, frames, smp, c, f, FL0, Contents
from .fx import Fx, IN, OUT, made, is_call, as_gen, failures, M_
from .mixing import window, deep
from interp import last
from .engine import prog_fields
import interp
import os

ME = mk('deref0', arg(1))
ONE_F = mk('fl', '1.0')


class Spectra:
    """elements of arrays of rows of complex numbers, as a pass over a chunk leaves them"""

    def __init__(self, F, chunk):
        self.F, self.C, self.I, self.A = F, F.C, F.I, F.A
        self.chunk = chunk
        self.calls = {e.ret.a[0]: e for e in F.A.events if e.kind == 'call' and e.ret is not None and e.ret.op == 'ret'}
        self.lens = set()
        self.depth = 0
        self.mine = None

    def inner(self, l, step):
        out = set()
        for e in self.A.events:
            if l in e.loops:
                out |= set(e.loops[e.loops.index(l) + 1:])
        for s in subterms(step):
            if s.op == 'phi' and s.a[0] != l and s.a[0] in self.I.loops and s in self.I.loops[s.a[0]].phis:
                init = self.I.loops[s.a[0]].phis[s][2]
                if contains(init, lambda t: t.op == 'phi' and t.a[0] == l):
                    out.add(s.a[0])
        return out

    def own_phi(self, v):
        return v.op == 'phi' and v.a[0] in self.I.loops and v in self.I.loops[v.a[0]].phis

    def kept(self, v):
        return self.own_phi(v) and v.a[0] == self.chunk

    def row(self, w, i, y):
        """w[i][y]"""
        w = self.tame(w)
        if w.op == 'ite':
            return ite(w.a[0], self.row(w.a[1], i, y), self.row(w.a[2], i, y))
        if w.op == 'store':
            return ite(eq(w.a[1], i), self.read(w.a[2], y), self.row(w.a[0], i, y))
        if self.own_phi(w) and w.a[0] in self.C.follow:
            r = self.C.elem(self.C.elem(w, i), y)
            if r is mk('select', mk('select', w, i), y):
                raise Undecided('what a loop leaves in a row is not known')
            return self.resolve(r, self.mine)
        if self.own_phi(w) and w.a[0] != self.chunk:
            return self.stage(w, i, y)
        return mk('select', mk('select', w, i), y)

    def tame(self, w):
        return w

    def stage(self, v, i, y):
        """v is what a loop over the rows leaves"""
        l = v.a[0]
        li = self.I.loops[l]
        base, path, init, step = li.phis[v]
        if step is v:
            return self.row(init, i, y)
        n = self.C.trips(l)
        if n is None:
            raise Undecided('how many channels are looked at is not known (line %s)' % li.line)
        k = li.k
        old = self.C.follow, self.mine
        self.C.follow, self.mine = self.inner(l, step), v
        o, J = mk('sym', '#o%d' % self.depth), mk('sym', '#y%d' % self.depth)
        self.depth += 1
        try:
            rest = deep(self.C.elem(step, o, (v,)), (notb(eq(o, k)),))
            if rest is not mk('prev', v, o) and rest is not mk('select', v, o):
                if os.environ.get('DBG'):
                    print('REST', str(rest)[:1500], '\nSTEP', str(step)[:1500], self.C.follow)
                raise Undecided('a pass over a channel changes another one (line %s)' % li.line)
            mine = self.C.elem(step, k)
            self.lens.add(self.I.length(mine))
            r = self.C.elem(mine, J)
            r = self.resolve(r, v)
        finally:
            self.C.follow, self.mine = old
            self.depth -= 1
        r = subst(r, {k: i, J: y})
        before = self.row(init, i, y)
        r = self.initial(r, v, init)
        return ite(andb(le(ZERO, i), lt(i, n)), r, before)

    def initial(self, t, v, init):
        """what was in the row before the loop"""
        m = {}
        for x in subterms(t):
            if x.op in ('select', 'prev') and x.a[0].op in ('select', 'prev') and x.a[0].a[0] is v:
                m[x] = self.row(init, x.a[0].a[1], x.a[1])
        t = subst(t, m) if m else t
        if contains(t, lambda x: x is v and x.op == 'phi') and any(x.op in ('select', 'prev') and x.a[0] is v for x in self.not_len(t)):
            raise Undecided('a channel is made from another one')
        return t

    def not_len(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return
        seen.add(t)
        if t.op == 'len':
            return
        yield t
        for x in t.a:
            if isinstance(x, T):
                yield from self.not_len(x, seen)

    def read(self, row, y):
        return self.resolve(self.C.elem(row, y), None)

    def resolve(self, t, mine):
        """values of other stages, transforms and products, named"""
        def R(x):
            m = {}
            self.outer(x, R, mine, m, set())
            return subst(x, m) if m else x
        return R(t)

    def outer(self, x, R, mine, m, seen):
        """the outermost parts that have a name"""
        if isinstance(x, tuple):
            for y in x:
                self.outer(y, R, mine, m, seen)
            return
        if not isinstance(x, T) or x in seen or x.op == 'len':
            return
        seen.add(x)
        r = self.one(x, R, mine)
        if r is not None:
            if r is not x:
                m[x] = r
            return
        for y in x.a:
            self.outer(y, R, mine, m, seen)

    def one(self, x, R, mine):
        if x.op == 'select' and x.a[0].op == 'mut':
            return self.transformed(x.a[0], R(x.a[1]), mine)
        if x.op == 'select' and x.a[0].op in ('subarr', 'store', 'substore', 'moved', 'resized', 'ite'):
            y = self.C.elem(x.a[0], x.a[1])
            if y is not x:
                return R(y)
        if x.op == 'select' and x.a[0].op == 'select' and x.a[0].a[0] is not mine:
            w = x.a[0].a[0]
            if self.own_phi(w) and w.a[0] != self.chunk or w.op in ('store', 'ite'):
                return self.row(w, R(x.a[0].a[1]), R(x.a[1]))
        if x.op == 'ret' and x.a[0] in self.calls:
            e = self.calls[x.a[0]]
            if e.name.endswith('Complex::new'):
                return mk('app', 'cplx', *[R(self.val(e, a, x)) for a in e.args])
            if e.name.endswith(('Mul>::mul', 'Mul::mul')):
                return mk('app', 'cmul', *sorted((R(self.val(e, a, x)) for a in e.args), key=lambda t: t.id))
            if last(e.name) == 'zero' and not e.args:
                return mk('app', 'cplx', FL0, FL0)
            return x
        if x.op == 'field' and x.a[0].op in ('ret', 'select', 'ite'):
            y = R(x.a[0])
            if y.op == 'app' and y.a[0] == 'cplx':
                return y.a[1 + x.a[2]]
            return mk('field', y, *x.a[1:])
        return None

    def val(self, e, a, x):
        m = dict(zip(self.C.all_ks(e), x.a[1:]))
        v = self.A.at(e, a) if a.op == 'ref' else a
        return subst(v, m)

    def transformed(self, w, y, mine):
        """a row that a call was given to change"""
        src, ev = w.a[0], w.a[1]
        e = self.calls.get(ev.a[0])
        if e is None or w.a[2] != 'keeplen' or not e.name.endswith(('Fft::process_with_scratch', 'Fft::process')):
            raise Undecided('what a call leaves in a row is not known')
        if not str(ev.a[1]) in ('<1>', '(1,)') and ev.a[1] != 1 and ev.a[1] != (1,):
            raise Undecided('a scratch row is used')
        b = mk('sym', '#%d' % self.depth)
        self.depth += 1
        try:
            body = self.resolve(self.C.elem(src, b), mine)
        finally:
            self.depth -= 1
        n = self.I.length(src)
        who = subst(e.args[0], dict(zip(self.C.all_ks(e), ev.a[2:])))
        return mk('app', 'tr', who, n, b, body, y)


def first_loop(F):
    ls = {e.loops[:1] for e in F.C.site.values()}
    if len(ls) == 1 and ls != {()}:
        return ls.pop()[0]
    return None


def r31(prog, res, tier):
    F = Fx(prog, 'ConvolutionProcessor')
    try:
        processed(prog, res, F)
    except Undecided as u:
        res.bad('sample', F.who, 'not established: what becomes of a chunk (%s)' % u, F.g.where)
    res.cov['functions'] = len({e.where.rsplit(':', 1)[0] for e in F.A.events if e.where})


def rooted(v):
    """state of the processor: how many indices below a field of it"""
    n = 0
    while True:
        if v.op == 'select':
            v, n = v.a[0], n + 1
        elif v.op in ('store', 'substore', 'mut', 'resized'):
            v = v.a[0]
        elif v.op == 'phi':
            p = v.a[1]
            if tuple(p) == ('P', arg(1)):
                return n + sum(1 for q in v.a[2] if q[0] == 'i')
            return None
        elif v.op == 'field' and v.a[0] is ME:
            return n
        else:
            return None


NLEN, BACK, FORTH = mk('sym', '@N'), mk('sym', '@back'), mk('sym', '@forth')


def processed(prog, res, F):
    C, I, A = F.C, F.I, F.A
    F.counts(res)
    L0 = first_loop(F)
    if L0 is None:
        raise NoAnswer('the pass over a chunk cannot be found in %s' % F.who)
    k = I.loops[L0].k
    C.prefix = (L0,)
    wins = {}
    for e in C.site.values():
        o = e.args[0]
        if o.op == 'ref':
            w = window(A, e, A.at(e, o))
        else:
            w = None
        if w is None or w[0] not in (IN, OUT):
            raise NoAnswer('the part of a buffer a chunk is about cannot be resolved in %s' % F.who)
        wins[o] = w
        C.shapes[o] = (w[3], w[4])
    outs = [o for o, w in wins.items() if w[0] is OUT]
    if len(outs) != 1:
        raise NoAnswer('the part of the output a chunk is about cannot be resolved in %s' % F.who)
    out = outs[0]
    off, n = wins[out][2], wins[out][4]
    size = mk('field', ME, 0, fidx(prog, 'ConvolutionProcessor', 'maximum_frame_count'))
    S = Spectra(F, L0)

    def norm(t):
        for i in range(4):
            m = {}
            for x in subterms(t):
                if x.op == 'len':
                    r = rooted(x.a[0])
                    if r == 1:
                        m[x] = NLEN
                    elif r == 0:
                        m[x] = chans(OUT)
                    elif x.a[0].op == 'phi' and not x.a[0].a[2] and x.a[0].a[1][0] == 'P':
                        m[x] = mk('len', mk('deref0', x.a[0].a[1][1]))
                    elif x.a[0].op == 'deref0' and C.place(x.a[0].a[0]) is not None:
                        y = Content.lengths(C, x)
                        if y is not x:
                            m[x] = y
            if not m:
                break
            t = subst(t, m)
        return t
    n = norm(n)
    trips = C.trips(L0)
    frame = frames(OUT)
    base = F.base + F.given + [le(ONE, size), le(size, NLEN)]
    same = lambda t: subst(t, {frames(IN): frames(OUT)})
    good = all(same(w[2]) is same(off) and w[1] is ZERO and w[3] is chans(w[0]) and norm(same(w[4])) is same(n) for w in wins.values())
    if good:
        res.ok('chunk', F.who, 'what is read and what is written of a chunk are the same frames')
    else:
        res.bad('chunk', F.who, 'what is read and what is written of a chunk are not the same frames', F.g.where)
        return
    good = trips is not None and same(off) is mul(size, k) and same(n) is imin(size, sub(frame, mul(size, k))) and \
        same(trips) is div(sub(add(frame, size), ONE), size)
    if not good and off.op == 'phi':
        q = I.loops[L0].phis[off]
        good = q[2] is ZERO and norm(same(q[3])) is same(add(off, n)) and same(n) is imin(size, sub(frame, off))
    if good:
        res.ok('chunks', F.who, 'the chunks follow one another, cover the block and are not longer than the transform is made for')
    else:
        res.bad('chunks', F.who, 'the chunks do not cover the block one after another, or are longer than the transform is made for', F.g.where)
        return
    given = [x for x in base if x is not lt(f, frame)] + [le(ONE, n), lt(f, n), le(n, size), le(ZERO, k), le(add(off, n), frame), le(ZERO, off)]
    if trips is not None:
        given.append(lt(k, trips))
    got = F.named(C.final(out, c, f))
    got = subst(got, {t: FL0 for t in subterms(got) if t.op == 'app' and t.a[0] == 'own' and len(t.a) == 3})
    got = norm(F.named(C.samples(S.resolve(got, None), None)))
    K = Contents(C, given)
    got = K.settle(got, given)
    trs = tops(got)
    if os.environ.get("DBG"):
        print(len(trs), str(got)[:3000])
    if len(trs) != 1:
        res.bad('sample', F.who, 'what is added to the output is not one transformed row', F.g.where)
        return
    back = trs.pop()
    got = subst(got, {back: BACK})
    inp = [o for o, w in wins.items() if w[0] is IN]

    def inw(ch, fr):
        return ite(lt(ch, chans(IN)), mk('app', 'smp', IN, ch, add(off, fr)), FL0)
    in_ = lambda t: subst(t, {x: mk('app', 'smp', IN, x.a[2], add(off, x.a[3])) for x in subterms(t) if x.op == 'app' and x.a[0] == 'smp' and x.a[1] in inp})
    at_ = add(off, f)
    scale_ = mk('field', ME, 0, fidx(prog, 'ConvolutionProcessor', 'output_scale'))
    want = mk('fadd', M_(inw(c, f), mk('select', mk('sym', '@dry'), at_)), M_(scale_, mk('field', BACK, 0, 0), mk('select', mk('sym', '@wet'), at_)))
    check(res, 'sample', C, F.who, in_(got), want, given, 'a sample is that of the input times dry plus the transformed sample times wet, of the same frame',
          'a sample is not that of the input times dry plus the transformed sample times wet')
    fields = transforms(prog, res, F)
    if fields is None:
        return
    fw, bw, imp = fields
    _, who, ln, b, body, y = back.a
    expect(res, F, who is mk('field', ME, 0, bw) and norm(ln) is NLEN, 'back', 'the row is transformed back')
    L = Lin(tuple(given), interp.is_signed)
    expect(res, F, L.holds(eq(y, sub(add(f, NLEN), n))), 'newest', 'the end of the row reaches the output')
    inside = [le(ZERO, b), lt(b, NLEN)]
    body = K.settle(in_(body), given + inside)
    t1 = tops(body)
    if len(t1) != 1:
        res.bad('product', F.who, 'what is transformed back is not the product of a transformed row', F.g.where)
        return
    fwd = t1.pop()
    row = mk('select', mk('select', mk('field', ME, 0, imp), c), b)
    body = subst(body, {mk('app', 'cmul', *p): mk('app', 'cmul', FORTH, row) for p in ((fwd, row), (row, fwd))})
    check(res, 'product', C, F.who, body, mk('app', 'cmul', FORTH, row), given + inside,
          'each place of the transformed input is multiplied with that of the impulse of the channel',
          'a place of the transformed input is not multiplied with that of the impulse of the channel')
    _, who, ln, b2, body2, y2 = fwd.a
    expect(res, F, who is mk('field', ME, 0, fw) and norm(ln) is NLEN and y2 is b, 'forth', 'what was received is transformed')
    inside = [le(ZERO, b2), lt(b2, NLEN), le(n, NLEN)]
    body2 = K.settle(in_(body2), given + inside)
    if os.environ.get('DBG'):
        print(str(body2)[:3000])
    hist = {t.a[0].a[0] for t in subterms(body2) if t.op == 'select' and t.a[0].op == 'select' and S.kept(t.a[0].a[0])}
    if len(hist) != 1:
        res.bad('history', F.who, 'what is transformed is not what was received before and in this chunk', F.g.where)
        return
    hist = hist.pop()
    h = lambda x: mk('select', mk('select', hist, c), x)
    new = mk('app', 'cplx', inw(c, sub(b2, sub(NLEN, n))), FL0)
    want = ite(lt(b2, sub(NLEN, n)), h(add(b2, n)), new)
    check(res, 'history', C, F.who, body2, want, given + inside + [lt(c, chans(IN))],
          'the row holds what was received before, moved on, and ends with this chunk',
          'the row does not hold what was received before, moved on, and end with this chunk')
    check(res, 'missing', C, F.who, body2, h(b2), given + inside + [le(chans(IN), c)],
          'a channel that the input does not have stays as it is', 'a channel that the input does not have changes')
    nxt = in_(norm(F.named(C.samples(S.row(I.loops[L0].phis[hist][3], c, b2), None))))
    check(res, 'kept', C, F.who, nxt, body2, given + inside, 'that row is what the next chunk and the next block find',
          'the next chunk does not find the row that was transformed')
    if os.environ.get('DBG'):
        print([str(norm(x))[:300] for x in S.lens])
    bad = [x for x in S.lens if norm(x) is not NLEN]
    expect(res, F, not bad, 'length', 'every row keeps its length')
    # the checks on the way, lengths as they are
    C.lengths = lambda t: same(norm(t))
    try:
        failures(res, F, [x for x in given if x not in (lt(f, n), le(ZERO, f))] + [le(n, NLEN)])
    finally:
        del C.lengths


def expect(res, F, good, rule, what):
    if good:
        res.ok(rule, F.who, what)
    else:
        res.bad(rule, F.who, 'not so: ' + what, F.g.where)


def tops(t):
    """the transforms in a term that lie in no other"""
    out = set()

    def go(x, seen):
        if isinstance(x, tuple):
            for y in x:
                go(y, seen)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == 'app' and x.a[0] == 'tr':
            out.add(x)
            return
        for y in x.a:
            go(y, seen)
    go(t, set())
    return out


class Maker:
    """a function that builds the processor, for Spectra"""

    def __init__(self, A):
        self.A, self.I, self.C = A, A.I, Content(A)


def plain_lengths(I, t):
    """the length of what a loop fills without making it longer is what it was before"""
    for i in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'len' and x.a[0].op == 'phi' and x.a[0].a[0] in I.loops and x.a[0] in I.loops[x.a[0].a[0]].phis:
                q = I.loops[x.a[0].a[0]].phis[x.a[0]]
                if I.length(q[3]) is x:
                    m[x] = I.length(q[2])
        if not m:
            break
        t = subst(t, m)
    return t


def transforms(prog, res, F):
    """which parts of the processor are the transforms and the transformed impulse, as every maker has them"""
    found = None
    n = 0
    for g, A, v, e in made(prog, F):
        n += 1
        who = short(g)

        def say(good, rule, what):
            if good:
                res.ok(rule, who, what)
            else:
                res.bad(rule, who, 'not so: ' + what, e.where)
        I = A.I
        nf = len(prog_fields(prog, 'ConvolutionProcessor'))
        vals = [I.pf(v, 0, i) for i in range(nf)]
        calls = {x.ret: x for x in A.events if x.kind == 'call' and x.ret is not None}
        plan = {i: calls[t] for i, t in enumerate(vals) if t in calls and last(calls[t].name).startswith('plan_fft')}
        fw = [i for i in plan if last(plan[i].name) == 'plan_fft_forward']
        bw = [i for i in plan if last(plan[i].name) == 'plan_fft_inverse']
        if len(fw) != 1 or len(bw) != 1:
            raise NoAnswer('the transforms of %s cannot be resolved' % F.who)
        N = plan[fw[0]].args[1]
        say(plan[bw[0]].args[1] is N, 'plans', 'both transforms are of the same length')
        buf = [t for t in subterms(N) if t.op == 'field' and t.a[0].op in ('sym', 'deref0')]
        B = buf[0].a[0] if len({t.a[0] for t in buf}) == 1 else None
        if B is None:
            raise NoAnswer('the impulse of %s cannot be resolved' % F.who)
        of = {k: mk('field', B, 0, fidx(prog, 'OwnedAudioBuffer', k)) for k in ('channel_count', 'frame_count', 'data')}
        i_size = fidx(prog, 'ConvolutionProcessor', 'maximum_frame_count')
        size = vals[i_size]
        say(is_call(A, size, 'maximum_frame_count'), 'longest', 'a chunk is as long as the longest block')
        facts = [le(ONE, size), le(ONE, of['channel_count']), le(ONE, of['frame_count']),
                 eq(mk('len', of['data']), mul(of['channel_count'], of['frame_count']))]
        facts += [le(t.a[1], t) for t in subterms(N) if t.op == 'app' and t.a[0] == 'next_power_of_two']
        L = Lin(tuple(facts), interp.is_signed)
        say(L.holds(le(sub(add(of['frame_count'], size), ONE), N)), 'long', 'a row has room for the impulse and the longest block')
        scale_ = vals[fidx(prog, 'ConvolutionProcessor', 'output_scale')]
        say(real_equal(scale_, mk('fdiv', ONE_F, mk('i2f', N))), 'scale', 'what comes out is scaled by one over the length')
        say(e.args[3] is of['channel_count'], 'channels', 'the node has as many outputs as the impulse has channels')
        S = Spectra(Maker(A), None)
        imp = None
        rows = 0
        ch = mk('sym', '#c')
        for i, t in enumerate(vals):
            t = as_gen(A, t)
            if t.op != 'gen':
                continue
            row = t.a[2]
            if I.length(row).op == 'len' and I.length(row).a[0] is row:
                continue
            rows += 1
            say(t.a[0] is of['channel_count'] and L.holds(eq(plain_lengths(I, I.length(row)), N)), 'rows', 'part %d has a row of that length for every channel of the impulse' % i)
            y = mk('sym', '#j')
            z = subst(plain_lengths(I, S.read(row, y)), {t.a[1]: ch})
            inside = facts + [le(ZERO, ch), lt(ch, of['channel_count']), le(ZERO, y), lt(y, N)]
            z = Contents(S.C, inside).settle(z, inside)
            t1 = tops(z)
            if not t1:
                say(z is mk('app', 'cplx', FL0, FL0), 'silent', 'part %d starts with silence' % i)
                continue
            if imp is not None or len(t1) != 1 or z not in t1:
                raise NoAnswer('the transformed impulse of %s cannot be resolved' % F.who)
            imp = i
            _, tr, ln, b, body, y2 = z.a
            say(tr is vals[fw[0]] and L.holds(eq(ln, N)) and y2 is y, 'forth', 'the impulse is transformed like the input')
            here = add(mul(ch, of['frame_count']), b)
            want = ite(lt(b, of['frame_count']), mk('app', 'cplx', mk('select', of['data'], here), FL0), mk('app', 'cplx', FL0, FL0))
            inside = facts + [le(ZERO, ch), lt(ch, of['channel_count']), le(ZERO, b), lt(b, N)]
            check(res, 'impulse', S.C, who, body, want, inside, 'the channel of the impulse is what is transformed, with silence behind it',
                  'what is transformed is not the channel of the impulse with silence behind it')
        if imp is None:
            raise NoAnswer('the transformed impulse of %s cannot be resolved' % F.who)
        now = (fw[0], bw[0], imp)
        if found is not None and found != now:
            raise NoAnswer('the makers of %s differ' % F.who)
        found = now
        res.cov['rows'] = rows
    res.need('makers of %s' % F.who, n, 1)
    return found


RULES = {'R31': r31}
