"""R27: what the compressor makes of a frame

R28: what a convolution makes of a block
"""
from .fx import *


# -- R27 ---------------------------------------------------------------------------------------------
def confined(F, obj, lid):
    """what a pass of a loop writes into a buffer is at the frame of the pass"""
    C = F.C
    k = F.I.loops[lid].k
    was = C.prefix
    C.prefix = (lid,)
    try:
        v = C.upto([w for w in C.written(obj) if lid in w.loops], obj, c, f)
    finally:
        C.prefix = was
    return deep(v, (notb(eq(f, k)), notb(eq(k, f)))) is mk('app', 'own', c, f)


def in_pass(F, t, lid):
    """the samples read in a pass of a loop, as the buffers hold them before the loop"""
    C = F.C
    t = C.samples(F.named(t), None)
    m = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'oth':
            obj, ch, fr, seq = x.a[1], x.a[2], x.a[3], x.a[4].a[0]
            ws = [w for w in C.written(obj) if w.seq < seq]
            if any(lid in w.loops for w in ws):
                raise Undecided('a buffer is read where it was written before')
            if fr is not F.I.loops[lid].k or not confined(F, obj, lid):
                raise Undecided('a buffer is read at frames that other passes write')
            m[x] = F.named(C.upto(ws, obj, ch, fr))
    return subst(t, m) if m else t


def to_db(v):
    return ite(mk('fle', v, flt(1e-9)), flt(-128), mk('fmul', flt(20), mk('app', 'log10', v)))


def reduction(env, threshold, ratio, knee):
    """the gain of a compressor with a soft knee"""
    x = to_db(env)
    half = mk('fdiv', knee, flt(2))
    over = S_(x, threshold)
    e = A_(over, half)
    soft = A_(x, mk('fdiv', M_(S_(mk('fdiv', ONE_F, ratio), ONE_F), e, e), M_(flt(2), knee)))
    out = ite(mk('fle', x, S_(threshold, half)), x, ite(mk('flt', A_(threshold, half), x), A_(threshold, mk('fdiv', over, ratio)), soft))
    return to_level(S_(out, x))


def compressor(prog, res, cover):
    F = Fx(prog, 'CompressorProcessor')
    cover.add(F.g.key)
    F.counts(res)
    I, C, who, where = F.I, F.C, F.who, F.g.where
    n = mk('i2f', chans(OUT))
    same = [eq(chans(IN), chans(OUT))]
    got = F.out()
    sums = {x for x in subterms(got) if x.op == 'phi' and x.a[1][0] in ('L', 'A') and not x.a[2] and x.a[0] in I.loops and x in I.loops[x.a[0]].phis}
    if len(sums) != 1:
        res.bad('level', who, 'the level the gain is computed from cannot be resolved', where)
        return
    S = sums.pop()
    l2 = S.a[0]
    around = {e.loops[e.loops.index(l2) - 1] for e in F.A.events if l2 in e.loops[1:]}
    b, pa, init, step = I.loops[l2].phis[S]
    kc = I.loops[l2].k
    lf = around.pop() if len(around) == 1 else None
    if lf is None or C.trips(l2) is not chans(OUT) or C.trips(lf) is not frames(OUT) or init is not FL0:
        res.bad('level', who, 'the level is not a sum over all channels of a frame', where)
        return
    try:
        term = S_(in_pass(F, step, lf), S)
    except Undecided as u:
        res.bad('level', who, 'not established: what the level is a sum of (%s)' % u, where)
        return
    kf = I.loops[lf].k
    objs = {p[1] for p in (C.place(t.a[0].a[0]) for t in subterms(step) if t.op == 'select' and t.a[0].op == 'deref0') if p}
    if len(objs) != 1:
        res.bad('level', who, 'the level is not a sum of one value per channel', where)
        return
    gr = objs.pop()
    room = [le(frames(OUT), frames(gr)), le(chans(OUT), chans(gr))]
    here = [le(ZERO, kf), lt(kf, frames(OUT)), le(ZERO, kc), lt(kc, chans(OUT)), le(ONE, chans(OUT)), le(ONE, frames(OUT)), eq(frames(IN), frames(OUT))]
    given = F.given + same + room
    term = trim(F, secs(least(term, here + given)), here + given)
    # what it is a sum of: the level of a channel, divided by how many there are now or later
    phis = {x for x in subterms(term) if x.op == 'phi' and x.a[1] == ('P', arg(1)) and x.a[2]}
    if len(phis) != 1:
        res.bad('level', who, 'the state of the followers cannot be resolved', where)
        return
    ph = phis.pop()
    env = mk('sym', 'env')
    per = None
    now = follower(prog, res, F, ph, kc, kf, here + given)
    if now is None:
        return
    term = subst(term, F.cached)
    K = Contents(C, here + given, (kf,), limit=8000)
    for scale_, back in ((mk('fdiv', now, n), env), (now, M_(env, n))):
        try:
            if K.agree(canon(term), canon(scale_)):
                per = back
                break
        except Undecided:
            pass
    if per is None:
        res.bad('level', who, 'the level is not the mean of the levels that the followers of all channels have after this frame', where)
        return
    res.ok('level', who, 'the level is the mean of the levels that the followers of all channels have after this frame')
    gain = mk('sym', 'gain')
    last_store = max(w.seq for w in C.written(gr))
    m = {}
    for seq, e in sorted((e.seq, e) for e in C.site.values() if e.seq > last_store and not e.loops):
        p = C.place(e.ret)
        if p and p[1] is gr:
            m[F.named(C.read_at(gr, p[2], add(p[3], f), seq))] = gain
    back = {mk('fdiv', S, n): env, mk('fmul', S, mk('fdiv', ONE_F, n)): env} if per is not env else {}
    want = reduction(env, F.p('threshold'), F.p('ratio'), F.p('knee'))
    for raw in m:
        within = []
        for nm, (lo, hi) in ranges(prog, F).items():
            within += ([mk('fle', flt(lo), F.p(nm))] if lo is not None else []) + ([mk('fle', F.p(nm), flt(hi))] if hi is not None and hi < 1e30 else [])
        raw = subst(least(raw, F.base + given), back)
        check(res, 'gain', C, who, subst(raw, {S: per}), want, F.base + given + within, 'the gain of a frame is that of a soft knee compressor, from the mean of the levels',
              'the gain of a frame is not that of a soft knee compressor, from the mean of the levels')

    def fix(t):
        t = F.named(C.samples(t, None))
        o = {x: F.named(C.read_at(x.a[1], x.a[2], x.a[3], x.a[4].a[0])) for x in subterms(t) if x.op == 'app' and x.a[0] == 'oth'}
        return subst(subst(t, o), m)
    got = least(subst(got, m), F.base + given)
    x = smp(IN, c, f)
    want = A_(M_(x, F.p('dry')), M_(x, F.p('wet'), gain))
    check(res, 'sample', C, who, got, want, F.base + given, 'every sample is the input times dry, plus the input times wet and the gain of the frame',
          'a sample is not the input times dry, plus the input times wet and the gain of the frame', fix=fix)
    followers_made(prog, res, F, ph, gr)


def follower(prog, res, F, ph, kc, kf, given):
    """the level of a follower after a frame, if each follows its channel"""
    I, C, who, where = F.I, F.C, F.who, F.g.where
    lid = ph.a[0]
    b, path, init, step = I.loops[lid].phis[ph]
    k = I.loops[lid].k
    outer = [init.a[0]] if init.op == 'phi' and init.a[1:] == ph.a[1:] else []
    if not outer:
        res.bad('follower', who, 'does not follow frame by frame in each channel', where)
        return None
    ko = I.loops[outer[0]].k
    other = mk('sym', 'other')
    C.facts = [le(ZERO, other), notb(eq(other, ko))]
    try:
        keep = deep(C.elem(step, other), tuple(C.facts) + (notb(eq(ko, other)),))
    except Undecided:
        keep = None
    finally:
        C.facts = []
    if keep is not mk('select', ph, other):
        res.bad('follower', who, 'the follower of a channel is changed by another', where)
        return None
    outs = [q for q, z in I.loops[outer[0]].phis.items() if z[3] is ph]
    if len(outs) != 1 or C.trips(outer[0]) is not chans(IN):
        res.bad('follower', who, 'not every channel is followed', where)
        return None
    if C.trips(lid) is not frames(IN) and C.trips(lid) is not frames(OUT):
        n = least(F.named(C.lengths(C.trips(lid))), given)
        if not Lin(tuple(given), interp.is_signed).holds(eq(n, frames(OUT))):
            res.bad('follower', who, 'not every frame is followed', where)
            return None
    box = mk('select', ph, ko)
    row = trim(F, secs(C.samples(F.named(C.elem(step, ko)), None)), [fact_ for fact_ in given])
    if row.op != 'adt':
        res.bad('follower', who, 'what becomes of a follower cannot be resolved', where)
        return None
    n = len(row.a) - 2
    was = [I.pf(box, 0, i) for i in range(n)]
    now = [I.pf(row, 0, i) for i in range(n)]
    same = [i for i in range(n) if now[i] is was[i]]
    keys, kept, m = {}, {}, {}
    for x in sorted({x for x in subterms(row) if x.op == 'ite'}, key=lambda t: t.id if hasattr(t, 'id') else 0):
        for cond, a, b_ in ((x.a[0], x.a[1], x.a[2]), (notb(x.a[0]), x.a[2], x.a[1])):
            i = next((i for i in range(n) if a is was[i]), None)
            if i is not None:
                j, d = compared(cond, was)
                if j is not None:
                    m[x] = b_
                    if j == i:
                        keys[i] = d
                    else:
                        kept.setdefault(i, set()).add((j, d, b_))
    good = True
    claims = {}
    for i, ways in sorted(kept.items()):
        if len(ways) != 1:
            good = False
            continue
        j, d, v = next(iter(ways))
        claims[i] = (j, d, v)
        if keys.get(j) is not d or now[j].op != 'ite' or m.get(now[j]) is not d or m.get(now[i]) is not v:
            good = False
    if not good or [j for j in keys if now[j] not in m] :
        res.bad('follower', who, 'a value kept for a setting does not change with it', where)
        return None
    rest = [i for i in range(n) if i not in same and i not in keys and i not in kept and contains(now[i], lambda t: t is was[i])]
    if len(rest) != 1 or len(same) != 1:
        res.bad('follower', who, 'the level of a follower cannot be told from its settings', where)
        return None
    level, fs = rest[0], was[same[0]]
    x = mk('app', 'abs', smp(IN, ko, k))
    coef = lambda name: mk('app', 'exp', mk('fdiv', flt(-1), M_(fs, mk('fdiv', F.p(name, k), flt(1000)))))
    y = was[level]
    C_ = ite(mk('flt', y, x), coef('attack'), coef('release'))
    want = A_(M_(y, C_), M_(x, S_(ONE_F, C_)))
    got = subst(now[level], m)
    K = Contents(F.C, list(given), (k,), limit=8000)
    try:
        ok = K.agree(canon(got), canon(want))
    except Undecided:
        ok = False
    if not ok or any(contains(got, lambda t: t is was[i]) for i in range(n) if i not in (level, same[0])):
        res.bad('follower', who, 'the level does not move towards the size of the input, by attack when it rises and by release when it falls', where)
        return None
    res.ok('follower', who, 'the level moves towards the size of the input, by attack when it rises and by release when it falls')
    if kept:
        res.ok('follower', who, 'a value kept for a setting changes with it')
    F.follower = (path, level, same[0], claims, n, was, box)
    to = {ko: kc, k: kf}
    F.cached = {subst(a_, to): subst(b_, to) for a_, b_ in m.items()}
    return subst(got, to)


def compared(cond, was):
    """(which field, with what) if the condition says that a field equals a value"""
    parts = conj(cond)
    found = set()
    seen = set()
    for p in parts:
        if p.op == 'feq':
            for a, b in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if a in was:
                    return (was.index(a), b) if len(parts) == 1 else (None, None)
        if p.op != 'eq0':
            return None, None
        terms = p.a[0].a[1] if p.a[0].op == 'poly' else ()
        if p.a[0].op != 'poly' or p.a[0].a[0] != 0 or len(terms) != 2 or terms[0][1] + terms[1][1] != 0:
            return None, None
        u, v = (t[0].a[0] if t[0].op == 'transmute' else t[0] for t in terms)
        if u.op != 'field' or v.op != 'field' or u.a[1:] != v.a[1:]:
            return None, None
        if u.a[0] not in was:
            u, v = v, u
        if u.a[0] not in was:
            return None, None
        found.add((was.index(u.a[0]), v.a[0]))
        seen.add(u.a[1:])
    if len(found) != 1 or len(seen) < 2:
        return None, None
    return found.pop()


def conj(t):
    return conj(t.a[0]) + conj(t.a[1]) if t.op == 'and' and len(t.a) == 2 else [y for x in t.a for y in conj(x)] if t.op == 'and' else [t]


def least(t, given):
    """each minimum, if the facts decide which of its parts it is"""
    L = Lin(tuple(given), interp.is_signed)
    m = {}
    for x in subterms(t):
        if x.op == 'min':
            y = next((p for p in x.a if all(p is q or L.holds(le(p, q)) for q in x.a)), None)
            if y is not None:
                m[x] = y
    return subst(t, m) if m else t


def secs(t):
    """a duration, there and back"""
    m = {x: x.a[1].a[1] for x in subterms(t)
         if x.op == 'app' and str(x.a[0]).startswith('as_secs') and x.a[1].op == 'app' and str(x.a[1].a[0]).startswith('from_secs')}
    return subst(t, m) if m else t


def print_(t):
    import os
    if os.environ.get('DBG'):
        __import__('rules.buffers', fromlist=['show']).show(t)


def followers_made(prog, res, F, ph, gr):
    """a follower for every channel, at rest and at the rate of the engine; room for a gain at every frame of a block"""
    path, level, rate, claims, n, was, box = F.follower
    made_ = 0
    for g, A, v, e in made(prog, F):
        made_ += 1
        who = short(g)
        outs = A.at(e, e.args[3])
        vec = as_gen(A, at_path(A.I, v, path))
        if vec.op not in ('gen', 'from_elem'):
            res.bad('made', who, 'the followers a compressor starts with cannot be resolved', e.where)
            continue
        size, row = (vec.a[0], vec.a[2]) if vec.op == 'gen' else (vec.a[1], vec.a[0])
        if same_count(size, outs, e.args[3]):
            res.ok('made', who, 'has a follower for every channel')
        else:
            res.bad('made', who, 'does not have a follower for every channel', e.where)
        vals = [secs(A.I.pf(row, 0, i)) for i in range(n)]
        if vals[level] is FL0:
            res.ok('made', who, 'every follower starts at rest')
        else:
            res.bad('made', who, 'a follower does not start at rest', e.where)
        fs = vals[rate].a[0] if vals[rate].op == 'i2f' else vals[rate]
        if is_call(A, fs, 'get_sample_rate') or is_call(A, fs, 'sample_rate'):
            res.ok('made', who, 'follows at the sample rate of the engine')
        else:
            res.bad('made', who, 'does not follow at the sample rate of the engine', e.where)
        wrong = False
        for i, (j, d, val) in claims.items():
            d2 = secs(mk('app', 'as_secs_f64', d))
            w = subst(subst(val, {d2: mk('sym', 'held')}), {was[rate]: vals[rate]})
            w = subst(w, {mk('sym', 'held'): secs(mk('app', 'as_secs_f64', vals[j]))})
            if not real_equal(w, vals[i]):
                wrong = True
        if claims and wrong:
            res.bad('made', who, 'does not start with what it keeps for the settings it keeps', e.where)
        elif claims:
            res.ok('made', who, 'starts with what it keeps for the settings it keeps')
        place = gr.a[0] if gr.op == 'deref0' else gr
        room = at_path(A.I, v, place.a[1] if place.op == 'ref' else field_path(gr))
        ok = room.op == 'adt'
        if ok:
            parts = [A.I.pf(room, 0, i) for i in range(len(room.a) - 2)]
            ok = any(same_count(x, outs, e.args[3]) for x in parts) and any(is_call(A, x, 'maximum_frame_count') for x in parts)
        if ok:
            res.ok('made', who, 'has room for a gain at every frame of the longest block')
        else:
            res.bad('made', who, 'may not have room for a gain at every frame of the longest block', e.where)
    res.need('makers of %s' % F.who, made_, 1)


def same_count(size, outs, raw):
    return size is outs or size is raw or mk('deref0', size) is outs


def r27(prog, res, tier):
    cover = set()
    try:
        compressor(prog, res, cover)
    except Undecided as u:
        res.bad('sample', 'CompressorProcessor', 'not established: what becomes of a frame (%s)' % u, '')
    res.cov['functions'] = len(cover)


RULES = {'R27': r27}
