"""What the effects make of the samples they are given.
R25: gain, pan, adsr, oscillator, mixer and waveshaper.
R26: biquad."""
from q import *
from arrays import *
import arrays
from .params import short, adt, fidx, constructors, processor_of
from .buffers import Contents, check, no_failure, impossible, arg, d0, chans, frames, rate, was, smp, c, f, FL0
import interp
import models

IN, OUT = mk('field', mk('deref0', arg(2)), 0, 0), mk('field', mk('deref0', arg(2)), 0, 1)
ONE_F = mk('fl', '1.0')


def flt(x):
    return mk('fl', repr(float(x)))


def processor(prog, owner):
    fs = [g for g in prog.trait_method('DspProcessor', 'process_audio') if g.blocks and (g.selfty or '').rsplit('::', 1)[-1] == owner]
    if len(fs) != 1:
        raise NoAnswer('no processor %s' % owner)
    return fs[0]


def context_fields(prog):
    """the two buffers of a context"""
    return tuple(mk('field', mk('deref0', arg(2)), 0, fidx(prog, 'ProcessContext', n)) for n in ('input_buffer', 'output_buffer'))


class Fx:
    """a processor, with the values of its parameters named"""

    def __init__(self, prog, owner, g=None):
        self.g = g or processor(prog, owner)
        self.A = analyse(prog, self.g, arrays.effects, 'fx')
        self.C = Content(self.A)
        self.I = self.A.I
        self.who = short(self.g)
        self.names = {}
        self.given = []
        self.count = []
        for e in self.A.events:
            if e.kind == 'call' and e.name == 'parameter':
                name = [a for a in e.args if a.op in ('str', 'lit', 'const') or str(a).startswith("'")]
                if len(name) != 1 or e.loops:
                    raise NoAnswer('the parameter %s asks for cannot be resolved' % self.who)
                name = str(name[0]).strip("'")
                s = mk('sym', '@' + name)
                self.names[mk('deref0', e.ret)] = s
                self.count.append((name, e.args[2], e))
                self.given.append(eq(mk('len', s), frames(OUT)))
        self.C.names = self.names
        self.values = {name for name, _, _ in self.count}
        self.base = [le(ZERO, c), lt(c, chans(OUT)), le(ZERO, f), lt(f, frames(OUT)), eq(frames(IN), frames(OUT)), le(ONE, chans(OUT)), le(ONE, frames(OUT))]

    def named(self, t):
        return subst(t, self.names) if self.names else t

    def silent(self, t):
        """the output is silent when a processor starts"""
        m = {x: FL0 for x in subterms(t) if x.op == 'app' and x.a[0] == 'own' and len(x.a) == 3}
        return subst(t, m) if m else t

    def p(self, name, fr=f):
        return mk('select', mk('sym', '@' + name), fr)

    def out(self, own=OUT):
        v = self.named(self.C.final(own, c, f))
        return self.silent(v) if own is OUT else v

    def counts(self, res):
        """every parameter is asked for as many values as the block has frames"""
        L = Lin(tuple(self.base), interp.is_signed)
        for name, n, e in self.count:
            if L.holds(eq(n, frames(OUT))):
                res.ok('values', self.who, 'has a value of %s for every frame' % name)
            else:
                res.bad('values', self.who, 'does not ask for a value of %s for every frame' % name, e.where)


def settle_param_slices(F, t):
    return t


def failures(res, F, given, asserts=True):
    """as no_failure, with the parameters named"""
    A = F.A
    ok = [eq(mk('len', d0(e.ret)), n) for (name, n, e) in F.count]
    rowlens = []
    for s, e in F.C.site.items():
        pass
    return no_failure(res, A, F.C, F.who, F.base + ok + given)


def gain(prog, res, cover):
    F = Fx(prog, 'GainProcessor')
    cover.add(F.g.key)
    F.counts(res)
    want = mk('fmul', ite(lt(c, chans(IN)), smp(IN, c, f), FL0), F.p('gain'))
    check(res, 'sample', F.C, F.who, F.out(), want, F.base + F.given, 'every sample is that of the input times the gain of its frame',
          'a sample is not that of the input times the gain of its frame')
    failures(res, F, [])


def pan(prog, res, cover):
    F = Fx(prog, 'PanProcessor')
    cover.add(F.g.key)
    F.counts(res)
    p = F.p('pan')
    side = lambda t: mk('app', 'min', t, ONE_F)
    left = mk('fmul', smp(IN, ZERO, f), side(mk('fsub', ONE_F, p)))
    right = mk('fmul', smp(IN, sub(chans(IN), ONE), f), side(mk('fadd', ONE_F, p)))
    two = [eq(chans(OUT), INT(2)), le(ONE, chans(IN)), le(chans(IN), INT(2))]
    check(res, 'sample', F.C, F.who, F.out(), ite(eq(c, ZERO), left, ite(eq(c, ONE), right, FL0)), F.base + F.given + two,
          'each side is its channel of the input times its gain for that frame', 'a side is not its channel of the input times its gain for that frame')
    failures(res, F, two)


def state_of(F, t):
    """the places of the processor's own state a value is read from: {path: terms}"""
    out = {}
    for x in subterms(t):
        if x.op == 'phi' and x.a[0] in F.I.loops:
            q = F.I.loops[x.a[0]].phis.get(x)
            if q and q[0] == ('P', arg(1)):
                out.setdefault(tuple(q[1]), set()).add(x)
    return out


def adsr(prog, res, cover):
    F = Fx(prog, 'AdsrProcessor')
    cover.add(F.g.key)
    got = F.out()
    levels = {x for x in subterms(got) if x.op == 'select' and x.a[1] is f and x.a[0].op == 'phi'}
    if len(levels) != 1:
        res.bad('sample', F.who, 'the level of the envelope is not taken frame by frame', F.g.where)
        return
    level = levels.pop()
    path = F.I.loops[level.a[0].a[0]].phis[level.a[0]][1]
    room = mk('len', mk('deref0', arg(1)))
    v = mk('deref0', arg(1))
    for s in path:
        v = F.I.pf(v, s[1], s[2])
    given = [le(frames(OUT), mk('len', v)), le(frames(OUT), mk('len', level.a[0]))]
    want = mk('fmul', ite(lt(c, chans(IN)), smp(IN, c, f), FL0), level)
    check(res, 'sample', F.C, F.who, got, want, F.base + F.given + given, 'every sample is that of the input times the level of the envelope in its frame',
          'a sample is not that of the input times the level of the envelope in its frame')
    room_for(prog, res, F, path)


def room_for(prog, res, F, path):
    """a field that has room for the longest block, wherever the processor is built"""
    n = 0
    for g, A, v, e in made(prog, F):
        n += 1
        for s in path:
            v = A.I.pf(v, s[1], s[2])
        v = as_gen(A, v)
        length = v.a[1] if v.op == 'from_elem' else v.a[0] if v.op == 'gen' else None
        if length is not None and is_call(A, length, 'maximum_frame_count'):
            res.ok('room', short(g), 'gives its processor room for the longest block')
        else:
            res.bad('room', short(g), 'does not give its processor room for the longest block', e.where)
    res.need('makers of %s' % F.who, n, 1)


def last(n):
    return (n or '').rsplit('::', 1)[-1]


def wraps(F, s, x):
    """s is x, less a whole number, below one (from above zero where x is)"""
    I = F.I
    if s.op == 'phi' and s.a[0] in I.loops and s in I.loops[s.a[0]].phis:
        li = I.loops[s.a[0]]
        b, pa, init, step = li.phis[s]
        if not real_equal(init, x):
            return False
        if not real_equal(step, mk('fsub', s, ONE_F)):
            return False
        ends = [y for y in interp.EXITS if y.op == 'exit' and y.a[0] == s.a[0]]
        below = (notb(mk('fle', ONE_F, s)), mk('flt', s, ONE_F))
        return bool(ends) and all(any(z in below for z in interp.EXITS[y]) for y in ends)
    if s.op == 'app' and s.a[0] == 'fract':
        return real_equal(s.a[1], x)
    if s.op == 'frem':
        return real_equal(s.a[0], x) and s.a[1] is ONE_F
    return real_equal(s, mk('fsub', x, mk('app', 'floor', x)))


def oscillator(prog, res, cover):
    F = Fx(prog, 'OscillatorProcessor')
    cover.add(F.g.key)
    F.counts(res)
    I, C = F.I, F.C
    # the phase: the float of its state that changes from frame to frame
    own = [(l, x, q) for l, li in I.loops.items() for x, q in li.phis.items() if q[0] == ('P', arg(1)) and any(t.op == 'field' for t in [q[2]])]
    own = [(l, x, q) for l, x, q in own if q[2].op == 'field' and q[2].a[0] is mk('deref0', arg(1))]
    if len(own) != 1:
        res.bad('phase', F.who, 'the phase cannot be followed from frame to frame', F.g.where)
        return
    l, x, (b, path, init, step) = own[0]
    k = I.loops[l].k
    n = C.trips(l)
    names = F.names
    n = subst(F.named(C.lengths(n)), {mk('len', d): frames(OUT) for d in names.values()}) if n is not None else None
    if n is not None and Lin(tuple(F.base + F.given), interp.is_signed).holds(eq(n, frames(OUT))):
        res.ok('phase', F.who, 'the phase advances once per frame')
    else:
        res.bad('phase', F.who, 'the phase does not advance once per frame', F.g.where)
    x1 = mk('fadd', x, mk('fdiv', mk('f2f', F.p('frequency', k)), mk('i2f', rate(OUT))))
    alt = mk('fadd', x, mk('fdiv', F.p('frequency', k), mk('i2f', rate(OUT))))
    back = {s: d for d, s in names.items()}
    good = any(wraps(F, step, subst(y, back)) for y in (x1, alt))
    if good:
        res.ok('phase', F.who, 'a frame advances the phase by its frequency over the sample rate, and wraps it below one')
    else:
        res.bad('phase', F.who, 'a frame does not advance the phase by its frequency over the sample rate, wrapped below one', F.g.where)
    P = subst(F.named(step), {k: f})
    table = None
    got = F.out()
    for t in subterms(got):
        if t.op == 'select' and t.a[0].op == 'field' and t.a[0].a[0] is mk('deref0', arg(1)):
            table = t.a[0]
    if table is None:
        res.bad('sample', F.who, 'no sample comes from the table', F.g.where)
        return
    got = floors(got)
    o = mk('fmul', P, mk('i2f', mk('len', table)))
    lo, hi = mk('app', 'floor', o), mk('app', 'ceil', o)
    w = mk('fsub', o, lo)
    wants = []
    for after in (mk('f2i', hi), add(mk('f2i', lo), ONE)):
        v = mk('fadd', mk('fmul', mk('fsub', ONE_F, w), mk('select', table, mk('f2i', lo))),
               mk('fmul', w, mk('select', table, mk('rem', after, mk('len', table)))))
        wants.append(mk('fmul', mk('f2f', floors(v)), F.p('gain')))
    best(res, 'sample', F, got, wants, F.base + F.given, 'every sample of every channel is the table at the phase, between its two nearest points, times the gain',
         'a sample is not the table at the phase, between its two nearest points, times the gain')


def floors(t):
    """a cast to an index cuts off what lies behind the point, as floor does; the phase is not negative"""
    for i in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'fract':
                m[x] = mk('fsub', x.a[1], mk('app', 'floor', x.a[1]))
            elif x.op == 'app' and x.a[0] == 'trunc':
                m[x] = mk('app', 'floor', x.a[1])
            elif x.op == 'f2i' and x.a[0].op == 'app' and x.a[0].a[0] == 'floor':
                m[x] = mk('f2i', x.a[0].a[1], *x.a[1:])
        if not m:
            break
        t = subst(t, m)
    return t


def best(res, rule, F, got, wants, given, what, bad):
    """one of several ways to say it"""
    from core import Result
    for i, w in enumerate(wants):
        r = Result() if i + 1 < len(wants) else res
        if check(r, rule, F.C, F.who, got, w, given, what, bad):
            if r is not res:
                res.ok(rule, F.who, what)
            return True
    return False


def mixer(prog, res, cover):
    F = Fx(prog, 'MixerProcessor')
    cover.add(F.g.key)
    I, C = F.I, F.C
    ws = [e for e in C.site.values() if e.name.endswith('_mut') and e.args[0] is OUT]
    if not ws:
        res.bad('sample', F.who, 'writes nothing into the output', F.g.where)
        return
    common = []
    for ls in zip(*[e.loops for e in ws]):
        if len(set(ls)) != 1:
            break
        common.append(ls[0])
    common = [l for l in common if C.trips(l) is not ONE][:2]
    if len(common) != 2:
        res.bad('sample', F.who, 'the pairs of channels it mixes cannot be resolved', F.g.where)
        return
    trips = {l: C.trips(l) for l in common}
    C.prefix = tuple(common)
    try:
        got = F.named(C.final(OUT, c, f))
    finally:
        C.prefix = ()
    dst = [l for l in common if trips[l] is chans(OUT)]
    src = [l for l in common if trips[l] is chans(IN)]
    if len(dst) != 1 or len(src) != 1:
        res.bad('sample', F.who, 'not every pair of channels is mixed', F.g.where)
        return
    o, i = I.loops[dst[0]].k, I.loops[src[0]].k
    pair = [le(ZERO, o), lt(o, chans(OUT)), le(ZERO, i), lt(i, chans(IN))]
    M = analyse(prog, fn(prog, 'MixerMatrix::get_level'))
    L = analyse(prog, fn(prog, 'Level::as_linear_f32'))
    # the matrix that is used: what the last message left, else what there was
    mat = drained(res, F, fidx(prog, 'MixerProcessor', 'gain_matrix'))
    if mat is None:
        return
    at_ = subst(M.ret, {mk('deref0', arg(1)): mat, arg(2): i, arg(3): o})
    lv = subst(L.ret, {mk('deref0', arg(1)): at_})
    lv = deep(lv, ())
    want = ite(eq(c, o), mk('fadd', was(), mk('fmul', smp(IN, i, f), lv)), was())
    check(res, 'sample', C, F.who, got, want, F.base + pair, 'a pair of channels adds the input times the level between the two, frame by frame',
          'a pair of channels does not add the input times the level between the two, frame by frame')
    index(prog, res, cover)
    node(prog, res, cover)


def drained(res, F, field):
    """the messages are all taken, the last one counts: the state they leave in a field of the processor"""
    I = F.I
    old = I.pf(mk('deref0', arg(1)), 0, field)
    mat = I.pf(F.A.st.mem.get(('P', arg(1)), mk('deref0', arg(1))), 0, field)
    qs = {x for x in subterms(mat) if x.op == 'phi' and x.a[0] in I.loops and x in I.loops[x.a[0]].phis}
    rx = [e for e in F.A.events if e.kind == 'chan' and e.name.endswith('try_recv')]
    if len(qs) != 1 or len(rx) != 1 or len(rx[0].loops) != 1:
        res.bad('matrix', F.who, 'its messages are not taken in one loop, the last to be kept', F.g.where)
        return None
    q, r = qs.pop(), rx[0].ret
    lid = rx[0].loops[0]
    b, pa, init, step = I.loops[q.a[0]].phis[q]
    ends = [y for y in interp.EXITS if y.op == 'exit' and y.a[0] == lid]
    empty = all(any(z in (mk('is', r, 1), notb(mk('is', r, 0))) for z in interp.EXITS[y]) for y in ends)
    took = deep(step, (mk('is', r, 0), notb(mk('is', r, 1))))
    new = I.pf(r, 0, 0)
    good = bool(ends) and empty and q.a[0] == lid
    if mat is q:
        good = good and took is new and init is old
    else:
        one, none = (mk('is', q, 1), notb(mk('is', q, 0))), (mk('is', q, 0), notb(mk('is', q, 1)))
        good = good and took.op == 'adt' and took.a[1] == 1 and took.a[2] is new and init.op == 'adt' and init.a[1] == 0
        good = good and deep(mat, one) is I.pf(q, 1, 0) and deep(mat, none) is old
    if good:
        res.ok('matrix', F.who, 'mixes with the matrix sent last, having taken all that were sent')
    else:
        res.bad('matrix', F.who, 'does not mix with the matrix sent last', rx[0].where)
    return mat


def index(prog, res, cover):
    """a level set for a pair is the level of that pair and of no other"""
    G, S = analyse(prog, fn(prog, 'MixerMatrix::get_level')), analyse(prog, fn(prog, 'MixerMatrix::set_level'))
    N = analyse(prog, fn(prog, 'MixerMatrix::new'))
    cover.update((G.fn.key, S.fn.key, N.fn.key))
    I = G.I
    who = short(S.fn)
    w = {k: fidx(prog, 'MixerMatrix', k) for k in ('input_count', 'output_count', 'matrix')}
    old = mk('deref0', arg(1))
    inn, out_, mat = (I.pf(old, 0, w[k]) for k in ('input_count', 'output_count', 'matrix'))
    new = S.st.mem.get(('P', arg(1)), old)
    nm = S.I.pf(new, 0, w['matrix'])
    a, b = mk('sym', 'i'), mk('sym', 'o')
    inside = [le(ZERO, arg(2)), lt(arg(2), inn), le(ZERO, arg(3)), lt(arg(3), out_)]
    if nm.op != 'store' or nm.a[0] is not mat or nm.a[2] is not arg(4) or any(S.I.pf(new, 0, w[k]) is not I.pf(old, 0, w[k]) for k in ('input_count', 'output_count')):
        res.bad('matrix', who, 'does not change one level only', S.fn.where)
        return
    ix = nm.a[1]
    sel = deep(G.ret, tuple(inside))
    if sel.op == 'select' and sel.a[0] is mat and sel.a[1] is ix and ix in (add(arg(2), mul(arg(3), inn)), add(arg(3), mul(arg(2), out_))):
        res.ok('matrix', who, 'a level set for a pair is the level of that pair and of no other')
    else:
        res.bad('matrix', who, 'a level set for a pair is not the level of that pair only', S.fn.where)
    zero = [x for x in (deep(G.ret, (notb(z),)) for z in inside[1::2])]
    Z = analyse(prog, fn(prog, 'Level::zero')).ret
    if all(z is Z for z in zero):
        res.ok('matrix', short(G.fn), 'a pair outside of the matrix has no level')
    else:
        res.bad('matrix', short(G.fn), 'a pair outside of the matrix has a level', G.fn.where)
    m = N.I.pf(N.ret, 0, w['matrix'])
    if m.op == 'from_elem' and m.a[0] is Z and N.I.pf(N.ret, 0, w['input_count']) is arg(1) and N.I.pf(N.ret, 0, w['output_count']) is arg(2):
        res.ok('matrix', short(N.fn), 'a new matrix is of the size asked for, without any level')
    else:
        res.bad('matrix', short(N.fn), 'a new matrix is not of the size asked for, without any level', N.fn.where)


def node(prog, res, cover):
    """what is set on the node is what is sent"""
    S = analyse(prog, fn(prog, 'Mixer::set_level'))
    cover.add(S.fn.key)
    who = short(S.fn)
    X = analyse(prog, fn(prog, 'MixerMatrix::set_level'))
    gi = fidx(prog, 'Mixer', 'gain_matrix')
    old = S.I.pf(mk('deref0', arg(1)), 0, gi)
    want = subst(X.st.mem[('P', arg(1))], {mk('deref0', arg(1)): old})
    new = S.I.pf(S.st.mem.get(('P', arg(1))), 0, gi)
    sends = [e for e in S.events if e.kind == 'chan' and e.name.endswith('send')]
    if len(sends) == 1 and not sends[0].loops and all_always(sends[0]) and sends[0].args[1] is want and new is want:
        res.ok('matrix', who, 'keeps and sends the matrix with the level set')
    else:
        res.bad('matrix', who, 'does not keep and send the matrix with the level set', S.fn.where)


def all_always(e):
    return not e.gates


def indices(*ts):
    """an index clamped to a range stays in it when it is rounded"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'f2i':
                v = x.a[0]
                if v.op == 'app' and v.a[0] in ('floor', 'ceil', 'round', 'trunc'):
                    v = v.a[1]
                if v.op == 'app' and v.a[0] == 'clamp' and v.a[3].op == 'i2f':
                    out.append(le(x, v.a[3].a[0]))
                if v.op == 'app' and v.a[0] == 'min':
                    out += [le(x, y.a[0]) for y in v.a[1:] if y.op == 'i2f']
                out.append(le(ZERO, x))
    return out


def trim(F, t, facts, within=None):
    """without the conditions the facts decide, from the inside out"""
    for i in range(12):
        K = Cases(F.I, facts)
        n = K.settle(F.C.lengths(t), list(facts) + indices(t))
        n = in_range(n, within or {})
        n = least(n, list(facts) + indices(n))
        if n is t:
            return t
        t = n
    return t


def least(t, facts):
    """a minimum is the one of its parts that is never more than the others"""
    m = {}
    for x in subterms(t):
        if x.op == 'min':
            R = Lin(facts, interp.is_signed)
            y = next((y for y in x.a if all(z is y or R.holds(le(y, z)) for z in x.a)), None)
            if y is not None:
                m[x] = y
    return subst(t, m) if m else t


def in_range(t, within):
    """comparisons of a parameter's value that its range decides"""
    m = {}
    for x in subterms(t):
        if x.op in ('fle', 'flt'):
            ps = {y for y in subterms(x) if y.op == 'select' and y.a[0].op == 'sym' and str(y.a[0].a[0]).startswith('@')}
            if len(ps) == 1 and len({y for y in subterms(x) if y.op in ('app', 'select')}) == 1:
                y = ps.pop()
                lo, hi = within.get(str(y.a[0].a[0])[1:], (None, None))
                fs = ([mk('fle', flt(lo), y)] if lo is not None else []) + ([mk('fle', y, flt(hi))] if hi is not None else [])
                if fs and Reals(fs + [x]).infeasible():
                    m[x] = FALSE
                elif fs and Reals(fs + [notb(x)]).infeasible():
                    m[x] = TRUE
    return subst(t, m) if m else t


def ranges(prog, F):
    """the ranges of a processor's parameters, where they are the same wherever it is built"""
    out = {}
    lo, hi = fidx(prog, 'ParameterRange', 'minimum'), fidx(prog, 'ParameterRange', 'maximum')
    for g, A, v, e in made(prog, F):
        for ev_ in A.events:
            for a in ev_.args:
                for t in subterms(a):
                    if t.op == 'tuple' and len(t.a) == 2 and t.a[0].op == 'str' and t.a[1].op == 'adt':
                        r = []
                        for i in (lo, hi):
                            x = t.a[1].a[2 + i]
                            ok = x.op == 'fl' and float(x.a[0]) not in (float('inf'), float('-inf'))
                            r.append(float(x.a[0]) if ok else None)
                        k = str(t.a[0]).strip("'")
                        out[k] = tuple(r) if out.get(k, tuple(r)) == tuple(r) else (None, None)
    return out


def converted(read, ratio, x, last):
    pos = mk('fmul', ratio, mk('i2f', x))
    lo, hi = mk('app', 'floor', pos), mk('app', 'ceil', pos)
    w = mk('fsub', pos, lo)
    return mk('fadd', mk('fmul', mk('fsub', ONE_F, w), read(imin(mk('f2i', lo), last))), mk('fmul', w, read(imin(mk('f2i', hi), last))))


def to_level(db):
    return mk('f2f', ite(mk('fle', db, flt(-128)), FL0, mk('app', 'powf', flt(10), mk('fdiv', db, flt(20)))))


def looked_up(table, v):
    """a table over -1..1, between its two nearest points"""
    n = mk('len', table)
    i = mk('app', 'clamp', mk('fmul', mk('fdiv', mk('fadd', v, ONE_F), flt(2)), mk('fsub', mk('i2f', n), ONE_F)), FL0, mk('i2f', sub(n, ONE)))
    lo, hi = mk('app', 'floor', i), mk('app', 'ceil', i)
    w = mk('fsub', i, lo)
    return mk('fadd', mk('fmul', mk('fsub', ONE_F, w), mk('select', table, mk('f2i', lo))), mk('fmul', w, mk('select', table, mk('f2i', hi))))


def tidy(t):
    """rounding what was rounded already changes nothing"""
    m = {x: x.a[0].a[0] for x in subterms(t) if x.op == 'i2f' and x.a[0].op == 'f2i' and x.a[0].a[0].op == 'app' and x.a[0].a[0].a[0] in ('floor', 'ceil')}
    return subst(t, m) if m else t


def waveshaper(prog, res, cover):
    F = Fx(prog, 'WaveshaperProcessor')
    cover.add(F.g.key)
    F.counts(res)
    I, C = F.I, F.C
    ws = [e for e in C.site.values() if e.name.endswith('_mut')]
    over = {e.args[0] for e in ws} - {OUT}
    outer = {e.loops[0] for e in ws if e.loops}
    if len(over) != 1 or len(outer) != 1 or not all(e.loops for e in ws) or C.trips(next(iter(outer))) is not chans(OUT):
        res.bad('sample', F.who, 'the channels are not shaped one by one', F.g.where)
        return
    over, l = over.pop(), outer.pop()
    k = I.loops[l].k
    C.prefix = (l,)
    try:
        got = F.silent(F.named(C.final(OUT, c, f)))
    finally:
        C.prefix = ()
    own = root_of(F, over)
    got = subst(got, {mk('deref0', over): own}) if own is not None else got
    tables = {x.a[0] for x in subterms(got) if x.op == 'select' and x.a[0].op == 'field' and x.a[0].a[0] is mk('deref0', arg(1))}
    if len(tables) != 1 or own is None:
        res.bad('sample', F.who, 'the table it shapes with cannot be resolved', F.g.where)
        return
    table = tables.pop()
    orate, oframes = mk('app', 'sample_rate', own), mk('app', 'frame_count', own)
    up, down = mk('fdiv', mk('i2f', rate(OUT)), mk('i2f', orate)), mk('fdiv', mk('i2f', orate), mk('i2f', rate(OUT)))
    drive = lambda x: to_level(mk('fmul', F.p('overdrive', x), flt(12)))
    driven = lambda x: mk('fmul', smp(IN, k, x), drive(x))
    shaped = lambda j: looked_up(table, converted(driven, up, j, sub(frames(OUT), ONE)))
    back = mk('fdiv', converted(shaped, down, f, sub(oframes, ONE)), drive(f))
    want = mk('fadd', mk('fmul', back, F.p('mix')), mk('fmul', smp(IN, k, f), mk('fsub', ONE_F, F.p('mix'))))
    given = F.base + F.given + [le(ZERO, k), lt(k, chans(OUT)), eq(chans(IN), chans(OUT)), le(ONE, oframes), le(ONE, mk('len', table)), eq(c, k),
                                eq(mk('app', 'channel_count', own), ONE)]
    m = {frames(IN): frames(OUT), chans(IN): chans(OUT), mk('app', 'channel_count', own): ONE, c: k}
    m.update({mk('len', s): frames(OUT) for s in F.names.values()})
    given = [z for z in (subst(x, m) for x in given) if z is not TRUE]
    within = ranges(prog, F)
    got = canon(tidy(trim(F, subst(C.lengths(got), m), given, within)))
    want = canon(in_range(tidy(subst(want, m)), within))
    check(res, 'sample', C, F.who, got, want, given, 'every sample is driven, shaped at the higher rate, brought back, and mixed with the input',
          'a sample is not driven, shaped at the higher rate, brought back, and mixed with the input')
    oversampling(prog, res, F, over, table)


def made(prog, F):
    """every place that builds this processor: (function, analysis, processor, event)"""
    for g, A, es in constructors(prog):
        for e in es:
            try:
                pf, v = processor_of(prog, A, e.args[4])
            except NoAnswer:
                continue
            if pf.key == F.g.key:
                yield g, A, v, e


def is_call(A, t, name):
    return any(x.kind == 'call' and x.ret is t and last(x.name) == name for x in A.events)


def as_gen(A, v):
    """a vector filled by one push a pass, as a function of the place"""
    q = A.I.loops[v.a[0]].phis.get(v) if v.op == 'phi' and v.a[0] in A.I.loops else None
    if q and q[2].op == 'empty' and q[3].op == 'push' and q[3].a[0] is v:
        li = A.I.loops[v.a[0]]
        n = Content(A).trips(v.a[0])
        if n is not None and not contains(q[3].a[1], lambda t: t is v):
            return mk('gen', n, li.k, q[3].a[1])
    return v


def oversampling(prog, res, F, over, table):
    n = 0
    for g, A, v, e in made(prog, F):
        n += 1
        b = v
        for s in over.a[1]:
            b = A.I.pf(b, s[1], s[2])
        o = {k: A.I.pf(b, 0, fidx(prog, 'OwnedAudioBuffer', k)) for k in ('channel_count', 'frame_count', 'sample_rate')}
        size = [t for t in subterms(o['frame_count']) if is_call(A, t, 'maximum_frame_count')]
        rt = [t for t in subterms(o['sample_rate']) if is_call(A, t, 'get_sample_rate')]
        good = len(size) == 1 and len(rt) == 1 and o['channel_count'] is ONE
        if good:
            c0, ms = poly_parts(o['frame_count'])
            c1, mr = poly_parts(o['sample_rate'])
            good = c0 == 0 and c1 == 0 and list(ms) == size and list(mr) == rt and ms[size[0]] == mr[rt[0]] >= 1
        if good:
            res.ok('room', short(g), 'the higher rate has room for the longest block, as many times as it is higher')
        else:
            res.bad('room', short(g), 'the higher rate has not room for the longest block', e.where)
        t = table
        steps = []
        while t.op == 'field':
            steps.append((t.a[1], t.a[2]))
            t = t.a[0]
        t = v
        for a, b_ in reversed(steps):
            t = A.I.pf(t, a, b_)
        t = as_gen(A, t)
        good = t.op == 'gen' and t.a[0].op == 'int' and t.a[0].a[0] >= 2
        if good:
            calls = [x for x in A.events if x.ret is t.a[2]]
            place = mk('fsub', mk('fmul', flt(2), mk('fdiv', mk('i2f', t.a[1]), flt(t.a[0].a[0] - 1))), ONE_F)
            good = len(calls) == 1 and calls[0].kind == 'call'
            at = calls[0].args[-1] if good else None
            if good and at.op == 'tuple' and len(at.a) == 1:
                at = at.a[0]
            good = good and real_equal(at, place)
        if good:
            res.ok('table', short(g), 'the table holds the shape at evenly spaced points from -1 to 1')
        else:
            res.bad('table', short(g), 'the table does not hold the shape at evenly spaced points from -1 to 1', e.where)
    res.need('makers of %s' % F.who, n, 1)


def root_of(F, o):
    """what stands below a reference to a part of the processor"""
    if o.op == 'ref' and o.a[0] == ('P', arg(1)):
        v = mk('deref0', arg(1))
        for s in o.a[1]:
            v = F.I.pf(v, s[1], s[2])
        return v
    return None


# -- R26 ---------------------------------------------------------------------------------------------
PI = flt(3.141592653589793)


def A_(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mk('fadd', r, t)
    return r


def M_(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mk('fmul', r, t)
    return r


def S_(a, b):
    return mk('fsub', a, b)


def N_(a):
    return mk('fmul', flt(-1), a)


def cookbook(kind, fr, q, level, fs):
    """b0, b1, b2, a1, a2 of a second order section, over a0"""
    w = mk('fdiv', M_(flt(2), PI, fr), fs)
    cs, sn = mk('app', 'cos', w), mk('app', 'sin', w)
    alpha = mk('fdiv', sn, M_(flt(2), q))
    a = [A_(ONE_F, alpha), M_(flt(-2), cs), S_(ONE_F, alpha)]
    if kind == 'LowPass':
        b = [mk('fdiv', S_(ONE_F, cs), flt(2)), S_(ONE_F, cs), mk('fdiv', S_(ONE_F, cs), flt(2))]
    elif kind == 'HighPass':
        b = [mk('fdiv', A_(ONE_F, cs), flt(2)), N_(A_(ONE_F, cs)), mk('fdiv', A_(ONE_F, cs), flt(2))]
    elif kind == 'BandPass':
        b = [alpha, FL0, N_(alpha)]
    elif kind == 'Notch':
        b = [ONE_F, M_(flt(-2), cs), ONE_F]
    elif kind in ('LowShelf', 'HighShelf'):
        g = mk('app', 'sqrt', level)
        bs = M_(mk('app', 'sqrt', M_(flt(2), g)), sn)
        p, m = A_(g, ONE_F), S_(g, ONE_F)
        mc, pc = M_(m, cs), M_(p, cs)
        if kind == 'LowShelf':
            b = [M_(g, A_(S_(p, mc), bs)), M_(flt(2), g, S_(m, pc)), M_(g, S_(S_(p, mc), bs))]
            a = [A_(p, mc, bs), M_(flt(-2), A_(m, pc)), S_(A_(p, mc), bs)]
        else:
            b = [M_(g, A_(p, mc, bs)), M_(flt(-2), g, A_(m, pc)), M_(g, S_(A_(p, mc), bs))]
            a = [A_(S_(p, mc), bs), M_(flt(2), S_(m, pc)), S_(S_(p, mc), bs)]
    else:
        return None
    return [mk('fdiv', x, a[0]) for x in b + a[1:]]


def of_poly(p):
    """a polynomial as a term again"""
    r = FL0
    for m, k in sorted(p.items(), key=str):
        t = flt(float(k))
        for x in m:
            t = mk('fmul', t, mk('fdiv', ONE_F, x.a[0]) if x.op == 'inv' else x)
        r = mk('fadd', r, t)
    return r


def unabs(t):
    """comparisons of a magnitude as comparisons of the value"""
    m = {}
    for x in subterms(t):
        if x.op in ('flt', 'fle'):
            a, b = x.a
            if a.op == 'app' and a.a[0] == 'abs':
                m[x] = andb(mk(x.op, N_(b), a.a[1]), mk(x.op, a.a[1], b))
            elif b.op == 'app' and b.a[0] == 'abs':
                o = 'fle' if x.op == 'flt' else 'flt'
                m[x] = notb(andb(mk(o, N_(a), b.a[1]), mk(o, b.a[1], a)))
    return subst(t, m) if m else t


def flushed(new, v):
    """v, or nothing where v is next to nothing"""
    if real_equal(new, v):
        return True
    if new.op != 'ite':
        return False
    small = flt(1e-6)
    far = (mk('flt', small, v), mk('flt', v, flt(-1e-6)))

    def go(t, facts):
        if t.op == 'ite':
            q = t.a[0]
            yes = list(q.a) if q.op == 'and' else [q]
            no = [[notb(x)] for x in yes]
            return go(t.a[1], facts + yes) and all(go(t.a[2], facts + n) for n in no)
        if real_equal(t, v):
            return True
        if t is not FL0:
            return False
        return all(Reals(facts + [x]).infeasible() for x in far)
    return go(new, [])


def loops_of(F, n_frames, n_chans):
    """the loop over frames and the one over channels within it, around the reading of the input"""
    C = F.C
    rs = [e for e in C.site.values() if e.args[0] is IN and len(e.loops) >= 2]
    ls = {e.loops[:2] for e in rs}
    ls = {x for x in ls if C.trips(x[0]) is n_frames and C.trips(x[1]) is n_chans}
    return ls.pop() if len(ls) == 1 else None


def state_atoms(t, box):
    """the largest projections of a channel's state in a term"""
    out = set()
    seen = set()

    def inner(x):
        while x.op in ('select', 'field'):
            x = x.a[0]
            if x is box:
                return True
        return False

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op in ('select', 'field') and inner(x):
            out.add(x)
            return
        for y in x.a:
            go(y)
    go(t)
    return out


def exhausted(t, s, n):
    """s is of one of its n variants"""
    m = {}
    for x in subterms(t):
        if x.op == 'or' and all(mk('is', s, j) in x.a for j in range(n)):
            m[x] = TRUE
        elif x.op == 'and' and all(notb(mk('is', s, j)) in x.a for j in range(n)):
            m[x] = FALSE
    return subst(t, m) if m else t


def biquad(prog, res, cover):
    F = Fx(prog, 'BiquadProcessor')
    cover.add(F.g.key)
    F.counts(res)
    I, C, who = F.I, F.C, F.who
    pair = loops_of(F, frames(OUT), chans(OUT))
    if pair is None:
        res.bad('recurrence', who, 'does not take every channel of every frame in turn', F.g.where)
        return
    lf, lc = pair
    kf, kc = I.loops[lf].k, I.loops[lc].k
    C.prefix = pair
    try:
        got = F.silent(F.named(C.final(OUT, c, f)))
    finally:
        C.prefix = ()
    here = [le(ZERO, kf), lt(kf, frames(OUT)), le(ZERO, kc), lt(kc, chans(OUT))]
    ty = [i for i, t in enumerate(prog.types[I.pointee_ty(F.g.locals[1][0])]['fields'][0]) if tname(prog, t) == 'BiquadFilterType']
    if len(ty) != 1:
        raise NoAnswer('the type of a biquad cannot be resolved')
    sort = mk('field', mk('deref0', arg(1)), 0, ty[0])
    variants = [v['n'] for v in adt(prog, 'BiquadFilterType')['variants']]
    y = trim(F, exhausted(subst(got, {c: kc, f: kf}), sort, len(variants)), here + F.given)
    # what a channel keeps
    boxes = {x for x, q in I.loops[lc].phis.items() if q[0] == ('P', arg(1)) and contains(y, lambda t: t is x)}
    if len(boxes) != 1:
        res.bad('recurrence', who, 'what a channel keeps from frame to frame cannot be resolved', F.g.where)
        return
    ph = boxes.pop()
    b, path, init, step = I.loops[lc].phis[ph]
    box = mk('select', ph, kc)
    x = smp(IN, kc, kf)
    atoms = state_atoms(y, box)
    other = mk('sym', 'other')
    C.facts = [le(ZERO, other), notb(eq(other, kc))]
    C.follow = set(I.loops) - {lf, lc}
    try:
        keep = C.elem(step, other)
        nxt = {a: tidy(after_pass(F, step, a, box, kc)) for a in atoms}
    except Undecided as u:
        res.bad('recurrence', who, 'not established: what a channel keeps from frame to frame (%s)' % u, F.g.where)
        return
    finally:
        C.facts = []
    nxt = {a: unabs(C.samples(F.named(v), OUT)) for a, v in nxt.items()}
    keep = deep(keep, (notb(eq(other, kc)), notb(eq(kc, other))))
    if keep is not mk('select', ph, other):
        res.bad('recurrence', who, 'what a channel keeps is changed by another', F.g.where)
    else:
        res.ok('recurrence', who, 'what a channel keeps is changed by itself only')
    roles = {}
    for name, v in (('x1', x), ('x2', None), ('y1', y), ('y2', None)):
        if v is None:
            v = roles.get({'x2': 'x1', 'y2': 'y1'}[name])
        cand = [a for a, n in nxt.items() if v is not None and flushed(n, v)]
        roles[name] = cand[0] if len(cand) == 1 else None
    if None in roles.values() or len(set(roles.values())) != 4 or len(atoms) != 4:
        res.bad('recurrence', who, 'a channel does not keep its last two inputs and its last two outputs', F.g.where)
        return
    res.ok('recurrence', who, 'a channel keeps its last two inputs and its last two outputs')
    poly = fpoly(y)
    parts = {}
    for m, k in poly.items():
        names = [n for n, a in list(roles.items()) + [('x', x)] if a in m or mk('f2f', a) in m]
        if len(names) != 1:
            res.bad('recurrence', who, 'an output is not a weighted sum of inputs and outputs', F.g.where)
            return
        a = x if names[0] == 'x' else roles[names[0]]
        m2 = list(m)
        m2.remove(a)
        parts.setdefault(names[0], {})[tuple(m2)] = k
    coef = [of_poly(parts.get(n, {})) for n in ('x', 'x1', 'x2', 'y1', 'y2')]
    own_rate = {t.a[0] for x_ in coef for t in subterms(x_) if t.op == 'i2f' and t.a[0].op == 'field' and t.a[0].a[0] is mk('deref0', arg(1))}
    if len(own_rate) != 1:
        res.bad('coefficients', who, 'the sample rate it filters at cannot be resolved', F.g.where)
        return
    own_rate = own_rate.pop()
    # what a frame changes of the coefficients and of the parameters they were computed from
    kept = {p: q for p, q in I.loops[lf].phis.items() if q[0] == ('P', arg(1)) and p.a[1] is not None and any(contains(t, lambda z: z is p) for t in coef)}
    last_ = last_parameters(F, kept, kf)
    stored = {p: q for p, q in kept.items() if p not in last_}
    want = lambda sort_, vals: cookbook(sort_, vals['frequency'], vals['q'], vals['shelf-gain'], mk('i2f', own_rate))
    now = {n: F.p(n, kf) for n in ('frequency', 'q', 'shelf-gain')}
    before = {n: p for p, n in last_.items()}
    for vi, v in enumerate(variants):
        if cookbook(v, ONE_F, ONE_F, ONE_F, ONE_F) is None:
            raise NoAnswer('a biquad of an unknown type: %s' % v)
        lits = tuple(mk('is', sort, j) if j == vi else notb(mk('is', sort, j)) for j in range(len(variants)))
        w = want(v, now)
        w = w[:3] + [N_(z) for z in w[3:]]
        m = {}
        if stored:
            # each stored value is one of the coefficients of the parameters it was computed from
            if set(before) != set(now):
                res.bad('coefficients', who, 'the parameters the coefficients were computed from cannot be resolved', F.g.where)
                return
            old = want(v, before)
            old = old[:3] + [N_(z) for z in old[3:]]
            for p, (b_, pa, i_, s_) in stored.items():
                js = [j for j, t in enumerate(coef) if contains(t, lambda z: z is p)]
                if len(js) != 1:
                    res.bad('coefficients', who, 'a stored value serves as more than one coefficient', F.g.where)
                    return
                j = js[0]
                t = deep(coef[j], lits)
                sign = 1 if real_equal(same_case(t, p), p) else -1
                m[p] = old[j] if sign == 1 else N_(old[j])
        names = ('b0', 'b1', 'b2', 'a1', 'a2')
        bad = []
        for j, t in enumerate(coef):
            K = Contents(C, here + list(F.given), (f,), limit=4000)
            g = F.named(deep(t, lits))
            g = subst(g, m) if m else g
            try:
                if not K.agree(canon(g), canon(w[j])):
                    bad.append(names[j])
            except Undecided:
                bad.append(names[j])
        if bad:
            res.bad('coefficients', who, 'the coefficients of a %s are not those of its parameters in every frame (%s)' % (v, ', '.join(bad)), F.g.where)
        else:
            res.ok('coefficients', who, 'the coefficients of a %s are those of its parameters in every frame' % v)
    follow(res, F, stored, last_, coef, kf)
    got = exhausted(F.out(), sort, len(variants))
    want_ = mk('fmul', subst(y, {kf: f, kc: c}), F.p('gain'))
    check(res, 'sample', C, who, got, want_, F.base + F.given, 'every sample is what the recurrence gives times the gain', 'a sample is not what the recurrence gives times the gain')
    biquad_made(prog, res, F, path, stored, last_, own_rate, sort, variants, coef)


def same_case(t, p):
    """a term where nothing was recomputed"""
    while True:
        x = next((x for x in subterms(t) if x.op == 'ite' and contains(x, lambda z: z is p)), None)
        if x is None:
            return t
        t = subst(t, {x: x.a[1] if contains(x.a[1], lambda z: z is p) else x.a[2]})


def after_pass(F, step, atom, box, kc):
    """a part of a channel's state after a pass"""
    chain = []
    x = atom
    while x is not box:
        chain.append(x)
        x = x.a[0]
    v = F.C.elem(step, kc)
    for x in reversed(chain):
        if x.op == 'select':
            v = F.C.elem(v, x.a[1])
        else:
            v = F.I.pf(v, x.a[1], x.a[2])
    return v


def last_parameters(F, kept, kf):
    """state that takes the value of a parameter: {phi: name}"""
    out = {}
    for p, (b, pa, init, step) in F.I.loops[kf_loop(F, kf)].phis.items():
        if b != ('P', arg(1)):
            continue
        s = F.named(step)
        for leaf in leaves(s):
            while leaf.op == 'f2f':
                leaf = leaf.a[0]
            if leaf.op == 'select' and leaf.a[0].op == 'sym' and str(leaf.a[0].a[0]).startswith('@') and leaf.a[1] is kf:
                out[p] = str(leaf.a[0].a[0])[1:]
    return out


def kf_loop(F, k):
    return [l for l, li in F.I.loops.items() if li.k is k][0]


def leaves(t):
    if t.op == 'ite':
        yield from leaves(t.a[1])
        yield from leaves(t.a[2])
    else:
        yield t


def follow(res, F, stored, last_, coef, kf):
    """the parameters that are kept are those the coefficients are for"""
    I = F.I
    bad = []
    for p, n in last_.items():
        b, pa, init, step = I.loops[kf_loop(F, kf)].phis[p]
        K = Contents(F.C, list(F.given), (f,), limit=4000)
        try:
            if not K.agree(canon(F.named(step)), canon(F.p(n, kf))):
                bad.append(n)
        except Undecided:
            bad.append(n)
    for p in stored:
        b, pa, init, step = I.loops[kf_loop(F, kf)].phis[p]
        js = [t for t in coef if contains(t, lambda z: z is p)]
        if not js or not (real_equal(F.named(step), js[0]) or real_equal(F.named(step), N_(js[0])) or rkey(F.named(step)) == rkey(js[0])):
            bad.append('a coefficient')
    if bad:
        res.bad('coefficients', F.who, 'what is kept from a frame is not what it was filtered with: %s' % ', '.join(sorted(set(bad))), F.g.where)
    else:
        res.ok('coefficients', F.who, 'what is kept from a frame is what it was filtered with (%d parameters, %d coefficients)' % (len(last_), len(stored)))


def at_path(I, v, path):
    for s in path:
        v = I.pf(v, s[1], s[2])
    return v


def field_path(t):
    steps = []
    while t.op == 'field':
        steps.append(('f', t.a[1], t.a[2]))
        t = t.a[0]
    return tuple(reversed(steps))


def biquad_made(prog, res, F, path, stored, last_, own_rate, sort, variants, coef):
    n = 0
    for g, A, v, e in made(prog, F):
        n += 1
        fs = at_path(A.I, v, field_path(own_rate))
        ty = at_path(A.I, v, field_path(sort))
        if is_call(A, fs, 'get_sample_rate') or is_call(A, fs, 'sample_rate'):
            res.ok('made', short(g), 'filters at the sample rate of the engine')
        else:
            res.bad('made', short(g), 'does not filter at the sample rate of the engine', e.where)
        d = as_gen(A, at_path(A.I, v, path))
        zero = d.op in ('gen', 'from_elem') and not [z for z in subterms(d.a[2] if d.op == 'gen' else d.a[0]) if z.op == 'fl' and z is not FL0] 
        size = d.a[0] if d.op == 'gen' else d.a[1] if d.op == 'from_elem' else None
        outs = A.at(e, e.args[3])
        if zero and size is not None and mk('deref0', size) is outs or size is e.args[3] or size is outs:
            res.ok('made', short(g), 'every channel starts from silence')
        else:
            res.bad('made', short(g), 'not every channel starts from silence', e.where)
        if stored:
            vals = {nm: at_path(A.I, v, F.I.loops[p.a[0]].phis[p][1]) for p, nm in last_.items()}
            bad = False
            for vi, vn in enumerate(variants):
                lits = tuple(mk('is', ty, j) if j == vi else notb(mk('is', ty, j)) for j in range(len(variants)))
                w = cookbook(vn, vals['frequency'], vals['q'], vals['shelf-gain'], mk('i2f', fs))
                w = w[:3] + [N_(z) for z in w[3:]]
                for p in stored:
                    j = [i for i, t in enumerate(coef) if contains(t, lambda z: z is p)][0]
                    x = deep(at_path(A.I, v, F.I.loops[p.a[0]].phis[p][1]), lits)
                    if not (real_equal(x, w[j]) or real_equal(x, N_(w[j]))):
                        bad = True
            if bad:
                res.bad('made', short(g), 'does not start with the coefficients of the parameters it keeps', e.where)
            else:
                res.ok('made', short(g), 'starts with the coefficients of the parameters it keeps')
    res.need('makers of %s' % F.who, n, 1)


def r26(prog, res, tier):
    cover = set()
    biquad(prog, res, cover)
    res.cov['functions'] = len(cover)


def run(prog, res, tier):
    cover = set()
    gain(prog, res, cover)
    pan(prog, res, cover)
    adsr(prog, res, cover)
    oscillator(prog, res, cover)
    mixer(prog, res, cover)
    waveshaper(prog, res, cover)
    res.cov['functions'] = len(cover)


RULES = {'R25': run, 'R26': r26}
