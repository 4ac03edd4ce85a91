"""R33: the ready-made nodes are what they are named for"""
from .fx import *
from .params import opaque_calls
from .events import exits_of
import arrays

NODES = ('oscillator_node::Oscillator::new', 'waveshaper_node::Waveshaper::new', 'mixer_node::Mixer::new', 'mixer_node::Mixer::set_level')
X, TH = mk('sym', 'x'), mk('sym', 'threshold')
TAU = 6.283185307179586


def opened(t):
    """bounds and powers written out"""
    for i in range(8):
        m = {}
        for x in subterms(t):
            if x.op != 'app':
                continue
            if x.a[0] in ('min', 'max') and len(x.a) == 3:
                a, b = x.a[1:]
                m[x] = ite(mk('fle', a, b), a, b) if x.a[0] == 'min' else ite(mk('fle', a, b), b, a)
            elif x.a[0] == 'clamp':
                v, lo, hi = x.a[1:]
                m[x] = ite(mk('flt', v, lo), lo, ite(mk('flt', hi, v), hi, v))
            elif x.a[0] in ('powf', 'powi') and (x.a[2] is flt(2) or x.a[2] is INT(2)):
                m[x] = mk('fmul', x.a[1], x.a[1])
        if not m:
            return t
        # from the inside out
        m = {x: y for x, y in m.items() if not any(z in m for z in subterms(x) if z is not x)}
        t = subst(t, m)
    return t


def in_order(t, rank):
    """the value where the terms are in the order given"""
    for i in range(8):
        m = {}
        for x in subterms(t):
            if x.op in ('fle', 'flt') and all(y in rank for y in x.a):
                a, b = (rank[y] for y in x.a)
                m[x] = TRUE if (a <= b if x.op == 'fle' else a < b) else FALSE
        n = subst(t, m) if m else t
        n = simple(n)
        if n is t:
            return t
        t = n
    return t


def simple(t):
    m = {}
    for x in subterms(t):
        if x.op == 'ite' and x.a[0] in (TRUE, FALSE):
            m[x] = x.a[1] if x.a[0] is TRUE else x.a[2]
        elif x.op == 'not' and x.a[0] in (TRUE, FALSE):
            m[x] = FALSE if x.a[0] is TRUE else TRUE
    m = {x: y for x, y in m.items() if not any(z in m for z in subterms(x) if z is not x)}
    return subst(t, m) if m else t


def the_call(A, name):
    es = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith(name)]
    return es[0] if len(es) == 1 and not es[0].loops else None


def given_back(A, e):
    return A.ret is e.ret


def shape_of(prog, A, e, th):
    """the function that is handed over, of X and a threshold"""
    v, b = e.args[2], None
    for i in range(4):
        if v is not None and v.op in ('ref', 'box') and not (v.op == 'ref' and v.a[1]):
            b = v.a[0]
            v = e.mem.get(b)
    ty = v.a[0] if v is not None and v.op in ('closure', 'fndef', 'zst') else A.I.basety.get(b)
    t = prog.types[ty] if ty is not None else {}
    while t.get('k') == 'adt' and t['path'].endswith('Box') and t.get('args'):
        t = prog.types[t['args'][0]]
    body = next((h for h in prog.local() if h.key == t.get('inst') and h.blocks), None)
    if body is None:
        raise NoAnswer('the shape of %s cannot be resolved' % short(A.fn))
    B = analyse(prog, body)
    r = B.ret
    own = {x: None for x in subterms(r) if x.op == 'field' and x.a[0] is mk('deref0', arg(1))}
    m = {arg(body.argc): X}
    for x in own:
        if v is None or v.op != 'closure':
            raise NoAnswer('the shape of %s cannot be resolved' % short(A.fn))
        m[x] = v.a[1 + x.a[2]]
    r = subst(r, m)
    # a threshold is the gain of the level that was given, in whatever precision
    m = {x: TH for x in subterms(r) if th is not None and x.op == 'f2f' and x.a[0] is th}
    r = subst(r, m)
    if th is not None:
        r = subst(r, {th: TH})
    r = subst(r, {x: mk('f2f', x) and x.a[0] for x in subterms(r) if x.op == 'f2f'})
    return opened(r), body


def r33(prog, res, tier):
    cover = set()
    O, W, M = 'Oscillator', 'Waveshaper', 'Mixer'
    sine(prog, res, cover)
    harmonics(prog, res, cover)
    shapes(prog, res, cover)
    mixers(prog, res, cover)
    res.cov['functions'] = len(cover)
    res.notes.append('Each ready-made constructor is evaluated once for all arguments; tables, shapes and levels are compared with what the name stands for.')


def verdict(res, rule, g, good, yes, no):
    (res.ok if good else res.bad)(*((rule, short(g), yes) if good else (rule, short(g), no, g.where)))


def sine(prog, res, cover):
    g = fn(prog, 'Oscillator::sine')
    A = analyse(prog, g, opaque_calls(NODES[0]), 'ready')
    cover.add(g.key)
    e = the_call(A, 'Oscillator::new')
    good = e is not None and given_back(A, e) and e.args[1] is arg(2) and e.args[2] is arg(3)
    verdict(res, 'made', g, good, 'a sine is played at the frequency and in the channels asked for', 'a sine is not played at the frequency and in the channels asked for')
    t = as_gen(A, e.args[3]) if e is not None else BOT
    verdict(res, 'table', g, is_sine(t, ONE_F), 'its table is one period of a sine', 'its table is not one period of a sine')


def is_sine(t, times):
    """a table of so many periods of a sine"""
    if t.op != 'gen' or t.a[0].op != 'int' or t.a[0].a[0] < 3:
        return False
    at = mk('fdiv', mk('i2f', t.a[1]), flt(t.a[0].a[0]))
    v = t.a[2]
    if v.op != 'app' or v.a[0] != 'sin':
        return False
    return real_equal(v.a[1], mk('fmul', flt(TAU), mk('fmul', times, at)))


def harmonics(prog, res, cover):
    g = fn(prog, 'Oscillator::with_harmonics')
    A = analyse(prog, g, opaque_calls(NODES[0]), 'ready')
    cover.add(g.key)
    e = the_call(A, 'Oscillator::new')
    good = e is not None and given_back(A, e) and e.args[1] is arg(2) and e.args[2] is arg(3)
    verdict(res, 'made', g, good, 'the harmonics are played at the frequency and in the channels asked for', 'the harmonics are not played at the frequency and in the channels asked for')
    verdict(res, 'table', g, e is not None and sums(prog, A, e.args[3]),
            'its table is the sum over the levels of each times as many periods of a sine as its place counts from one',
            'its table is not the sum over the levels of each times as many periods of a sine as its place counts from one')


def sums(prog, A, v):
    I = A.I
    li = fidx(prog, 'Level', 'linear')
    q = I.loops[v.a[0]].phis.get(v) if v.op == 'phi' and v.a[0] in I.loops else None
    if q is None:
        return False
    n = silent_row(q[2])
    count = Content(A).trips(v.a[0])
    if n is None or count is None or count not in (mk('len', mk('deref0', arg(4))), mk('len', arg(4))):
        return False
    k = I.loops[v.a[0]].k
    w = q[3]
    p = I.loops[w.a[0]].phis.get(w) if w.op == 'phi' and w.a[0] in I.loops else None
    if p is None or p[2] is not v or not goes_along(A, w.a[0], v, n):
        return False
    j, s = I.loops[w.a[0]].k, p[3]
    if s.op != 'store' or s.a[0] is not w or s.a[1] is not j:
        return False
    # the sine of the pass, at the place of the pass
    m = {}
    for x in subterms(s.a[2]):
        if x.op == 'select' and x.a[1] is j and x.a[0] is not w:
            t = as_gen(A, x.a[0])
            if t.op == 'gen':
                if t.a[0] is not n:
                    return False
                m[x] = subst(t.a[2], {t.a[1]: j})
    got = subst(s.a[2], m)
    level = I.pf(mk('select', mk('deref0', arg(4)), k), 0, li)
    periods = mk('i2f', add(k, ONE))
    want = mk('fadd', mk('select', w, j), mk('fmul', mk('app', 'sin', mk('fmul', flt(TAU), mk('fmul', periods, mk('fdiv', mk('i2f', j), flt(n.a[0]))))), level))
    return real_equal(got, want)


def goes_along(A, l, row, n):
    """a loop that goes along rows of n items, whatever their names"""
    li = A.I.loops[l]
    if li.trips is n:
        return True
    ex = [tuple(x) for x in exits_of(l)]
    if len(ex) != 1 or len(ex[0]) != 1:
        return False
    g = ex[0][0]
    m = {mk('len', row): n}
    for x in subterms(g):
        if x.op == 'len' and x.a[0].op == 'phi':
            t = as_gen(A, x.a[0])
            if t.op == 'gen':
                m[x] = t.a[0]
            elif x.a[0].a[0] == l:
                m[x] = n
    return all(x.op == 'le0' and subst(add(x.a[0], li.k), m) is n for x in (g.a if g.op == 'or' else (g,)))


def silent_row(t):
    if t.op == 'resized' and t.a[0].op == 'empty' and t.a[2] is FL0 and t.a[1].op == 'int':
        return t.a[1]
    if t.op == 'from_elem':
        n = [x for x in t.a if isinstance(x, T) and x.op == 'int']
        if FL0 in t.a and len(n) == 1:
            return n[0]
    if t.op == 'gen' and t.a[2] is FL0 and t.a[0].op == 'int':
        return t.a[0]
    return None


def shapes(prog, res, cover):
    li = fidx(prog, 'Level', 'linear')
    for name in ('tanh', 'hard_clip', 'soft_saturator'):
        g = fn(prog, 'Waveshaper::' + name)
        A = analyse(prog, g, opaque_calls(NODES[1]), 'ready')
        cover.add(g.key)
        e = the_call(A, 'Waveshaper::new')
        good = e is not None and given_back(A, e) and e.args[1] is arg(2)
        verdict(res, 'made', g, good, 'the shaper has the channels asked for', 'the shaper has not the channels asked for')
        if e is None:
            continue
        th = None if name == 'tanh' else A.I.pf(arg(3), 0, li)
        got, body = shape_of(prog, A, e, th)
        cover.add(body.key)
        if name == 'tanh':
            cs = {float(x.a[0]) for x in subterms(got) if x.op == 'fl'} | {1.0}
            good = any(c > 0 and real_equal(got, mk('fmul', flt(c), mk('app', 'tanh', d))) for c in cs for d in (mk('fdiv', X, flt(c)), mk('fmul', X, flt(1 / c))) + ((X,) if c == 1 else ()))
            verdict(res, 'shape', g, good, 'shapes by the tangens hyperbolicus', 'does not shape by the tangens hyperbolicus')
            continue
        neg = mk('fneg', TH)
        good = True
        for at in range(5):
            rank = {neg: 1, TH: 3, X: at}
            t = in_order(got, rank)
            eq_ = {1: {X: neg}, 3: {X: TH}}.get(at, {})
            if name == 'hard_clip':
                want = neg if at <= 1 else TH if at >= 3 else X
            else:
                d = mk('fsub', X, TH)
                r = mk('fdiv', d, mk('fsub', ONE_F, TH))
                want = X if at < 3 else mk('fadd', TH, mk('fdiv', d, mk('fadd', ONE_F, mk('fmul', r, r))))
                if at == 3 and t is X:
                    continue
            if not (real_equal(t, want) or real_equal(subst(t, eq_), subst(want, eq_))):
                good = False
        if name == 'hard_clip':
            verdict(res, 'shape', g, good, 'what is beyond the threshold, on either side, becomes the threshold, and nothing else changes',
                    'what is beyond the threshold, on either side, does not become the threshold, or something else changes')
        else:
            verdict(res, 'shape', g, good, 'what is below the threshold stays, and what is above is saturated by the formula',
                    'what is below the threshold does not stay, or what is above is not saturated by the formula')


def mixers(prog, res, cover):
    li = fidx(prog, 'Level', 'linear')
    for name in ('mono_to_stereo_splitter', 'unity'):
        g = fn(prog, 'Mixer::' + name)
        A = analyse(prog, g, opaque_calls(*NODES[2:]), 'ready')
        cover.add(g.key)
        e = the_call(A, 'Mixer::new')
        n = (ONE, INT(2)) if name != 'unity' else (arg(2), arg(2))
        good = e is not None and e.args[1] is n[0] and e.args[2] is n[1] and (given_back(A, e) or A.ret is not BOT)
        verdict(res, 'made', g, good, 'the mixer has the channels it is named for', 'the mixer has not the channels it is named for')
        sets = [s for s in A.events if s.kind == 'call' and (s.name or '').endswith('Mixer::set_level')]
        full = all(A.I.pf(s.args[3], 0, li) is flt(1) for s in sets)
        if name != 'unity':
            at = set()
            for s in sets:
                if not s.loops and not s.gates:
                    at.add((s.args[1], s.args[2]))
                elif len(s.loops) == 1:
                    k, m = A.I.loops[s.loops[0]].k, Content(A).trips(s.loops[0])
                    if m is INT(2) and s.args[1] is ZERO and s.args[2] is k:
                        at |= {(ZERO, ZERO), (ZERO, ONE)}
            good = full and at == {(ZERO, ZERO), (ZERO, ONE)}
        else:
            good = full and len(sets) == 1 and len(sets[0].loops) == 1
            if good:
                l = sets[0].loops[0]
                k = A.I.loops[l].k
                good = Content(A).trips(l) is arg(2) and sets[0].args[1] is k and sets[0].args[2] is k and \
                    all(Lin((le(ZERO, k), lt(k, arg(2))), interp.is_signed).holds(x) for x in sets[0].gates)
        verdict(res, 'levels', g, good, 'it passes each channel on as it is, to where its name says, and to nowhere else', 'it does not pass each channel on as it is, to where its name says, and to nowhere else')


RULES = {'R33': r33}
