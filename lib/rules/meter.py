"""R28: what the envelope node tells of the level of its input

R29: what is told by the audio thread reaches the node it is for
"""
from .fx import *
from .events import exits_of
from .params import vidx
from .sampler import covers
from .engine import ret_event, prog_fields
from .dynamics import conj, least, same_count, secs
from .mixing import window

NOTE = 'EnvelopeNotification'


def sends(prog, A, note):
    for e in A.events:
        if e.kind == 'chan' and e.name.endswith(('try_send', '::send')) and e.args[1:] and e.args[1].op == 'adt' and tname(prog, e.args[1].a[0]) == note:
            yield e


def untouched(C, v, cur, k):
    """the elements of an array other than k are as they are in cur"""
    other = mk('sym', 'other')
    was_ = C.facts
    C.facts = [le(ZERO, other), notb(eq(other, k))]
    try:
        return deep(C.elem(v, other), tuple(C.facts) + (notb(eq(k, other)),)) is mk('select', cur, other)
    except Undecided:
        return False
    finally:
        C.facts = was_


class Cell:
    """an element of an array for every channel, in two loops over channels and frames: before and after a pass of the inner one"""

    def __init__(self, F, X, names):
        C, I = F.C, F.I
        la = X.a[0]
        step = I.loops[la].phis[X][3]
        self.ok = False
        loc = [(y, q) for y, q in ((y, I.loops[y.a[0]].phis.get(y)) for y in subterms(step) if y.op == 'phi' and y.a[0] != la and y.a[0] in I.loops) if q]
        whole = [(y, q) for y, q in loc if y is step]
        if whole:
            y, q = whole[0]
            lb = y.a[0]
            ks = [k for k in (I.loops[la].k, I.loops[lb].k) if F.named(C.trips(la if k is I.loops[la].k else lb)) in names]
            if len(ks) != 1 or q[2] is not X or not untouched(C, q[3], y, ks[0]):
                return
            self.k, self.pre, self.post = ks[0], mk('select', y, ks[0]), C.elem(q[3], ks[0])
        else:
            k = I.loops[la].k
            part = [(y, q) for y, q in loc if C.elem(step, k) is y and q[2] is mk('select', X, k)]
            if len(part) != 1 or C.trips(la) not in names or not untouched(C, step, X, k):
                return
            y, q = part[0]
            lb = y.a[0]
            self.k, self.pre, self.post = k, y, q[3]
        self.la, self.lb = la, lb
        self.kf = I.loops[lb].k if self.k is I.loops[la].k else I.loops[la].k
        self.lf = lb if self.k is I.loops[la].k else la
        self.ok = True


def agrees(F, got, want, given, points=()):
    K = Contents(F.C, list(given), points or (f,), limit=8000)
    try:
        return K.agree(canon(got), canon(want))
    except Undecided:
        return False


def entered(I, g):
    """a flag that a loop raises in every pass, as whether there is a first pass"""
    q = I.loops[g.a[0]].phis.get(g) if g.op == 'phi' and g.a[0] in I.loops else None
    if q and q[2] is FALSE and q[3] is TRUE:
        ex = [tuple(x) for x in exits_of(g.a[0])]
        if len(ex) == 1 and len(ex[0]) == 1:
            m = {p: x[2] for p, x in I.loops[g.a[0]].phis.items()}
            return notb(subst(ex[0][0], m))
    if g.op == 'not':
        x = entered(I, g.a[0])
        return notb(x) if x is not g.a[0] else g
    return g


def meter(prog, res, cover):
    F = Fx(prog, 'EnvelopeProcessor')
    cover.add(F.g.key)
    I, A, C, who, where = F.I, F.A, F.C, F.who, F.g.where
    nch, nfr = chans(IN), frames(IN)
    es = list(sends(prog, A, NOTE))
    if len(es) != 1 or len(es[0].loops) != 2:
        res.bad('told', who, 'a level is not told for each channel, at one place', where)
        return
    e = es[0]
    L, ls = e.loops
    nf = prog_fields(prog, NOTE)
    chan, val = [I.pf(e.args[1], 0, nf[x]) for x in ('channel_index', 'peak_level')]
    kl = I.loops[ls].k
    room = [le(nch, mk('len', t)) for t in subterms(val) if t.op == 'phi'] + [le(nch, mk('len', I.loops[t.a[0]].phis[t][2])) for t in subterms(val) if t.op == 'phi' and t.a[0] == ls and t in I.loops[ls].phis]
    room += [le(nch, C.lengths(mk('len', t))) for t in subterms(val) if t.op == 'phi']
    tr = C.trips(ls)
    if chan is kl and tr is not None and (tr is nch or least(tr, room) is nch):
        res.ok('told', who, 'a level is told for every channel, in order')
    else:
        res.bad('told', who, 'a level is not told for every channel, in order', e.where)
    X = val.a[0] if val.op == 'select' and val.a[1] is kl else None
    if X is not None and X.op == 'phi' and X.a[0] == ls and untouched(C, I.loops[ls].phis[X][3], X, kl):
        X = I.loops[ls].phis[X][2]
    if X is None or X.op != 'phi' or X.a[1] != ('P', arg(1)) or X.a[0] not in I.loops:
        res.bad('told', who, 'what is told is not a value kept for that channel', e.where)
        return
    path = X.a[2]
    peak = Cell(F, X, (nch,))
    if not peak.ok:
        res.bad('peak', who, 'the value told does not follow from every frame of every channel', where)
        return
    kc, kf, lb = peak.k, peak.kf, peak.lb
    n = C.trips(peak.lf)
    ph0 = {p: q for p, q in I.loops[L].phis.items()}
    # the follower
    post = C.samples(F.named(peak.post), None)
    rows = sorted({t for t in subterms(post) if t.op == 'select' and t.a[1] is kc and t.a[0].op == 'phi' and t.a[0].a[0] == lb and t is not peak.pre}, key=str)
    if len(rows) != 1:
        res.bad('peak', who, 'the follower the value comes from cannot be resolved', where)
        return
    qa = I.loops[lb].phis[rows[0].a[0]]
    Z = qa[2] if qa[2].op == 'phi' else rows[0].a[0]
    fol = Cell(F, Z, (nch,))
    if not fol.ok or fol.lb != lb or fol.pre is not rows[0]:
        res.bad('follower', who, 'a channel is not followed by a follower of its own, frame by frame', where)
        return
    row = C.samples(F.named(fol.post), None)
    if row.op != 'adt':
        res.bad('follower', who, 'what becomes of a follower cannot be resolved', where)
        return
    m = len(row.a) - 2
    was_, now = [I.pf(fol.pre, 0, i) for i in range(m)], [I.pf(row, 0, i) for i in range(m)]
    chg = [i for i in range(m) if now[i] is not was_[i]]
    smps = sorted({t for t in subterms(row) if t.op == 'app' and t.a[0] == 'smp'}, key=str)
    ref = smp(IN, kc, sub(sub(kf, kf), ZERO))
    lits = None
    ps = [p for p in ph0 if p.op == 'phi' and ph0[p][2] is ZERO and any(t is smp(IN, kc, add(p, kf)) for t in subterms(row))]
    if len(ps) != 1 or len(chg) != 1:
        res.bad('follower', who, 'the frames that are followed are not those of the input, one after the other', where)
        return
    p = ps[0]
    x = mk('app', 'abs', smp(IN, kc, add(p, kf)))
    y = was_[chg[0]]
    found = None
    for i in range(m):
        for j in range(m):
            if i != j and chg[0] not in (i, j) and found is None:
                for w_ in (lambda t: t, lambda t: mk('f2f', t)):
                    k_ = ite(mk('flt', y, x), w_(was_[i]), w_(was_[j]))
                    if contains(now[chg[0]], lambda t: t is was_[i]) and agrees(F, now[chg[0]], A_(M_(y, k_), M_(x, S_(ONE_F, k_))), [], (kf,)):
                        found = (i, j)
    if found:
        res.ok('follower', who, 'the level of a channel moves towards the size of the input, one way when it rises and another when it falls')
    else:
        res.bad('follower', who, 'the level of a channel does not move towards the size of the input, one way when it rises and another when it falls', where)
    lv, pv = now[chg[0]], peak.pre
    if any(agrees(F, post, z, [], (kf,)) for z in (mk('app', 'max', pv, lv), mk('app', 'max', lv, pv), ite(mk('flt', pv, lv), lv, pv), ite(mk('fle', lv, pv), pv, lv))):
        res.ok('peak', who, 'what is told is the greatest level since the last time')
    else:
        res.bad('peak', who, 'what is told is not the greatest level since the last time', where)
    # every frame
    G = Lin(tuple(interp_facts(A, L, e)), interp.is_signed)
    nx = add(p, n) if n is not None else None
    done = [tuple(t) for t in exits_of(L)]
    end = bool(done) and all(len(t) == 1 and covers(t[0], le(nfr, p)) for t in done)
    if n is not None and ph0[p][3] is nx and end:
        res.ok('frames', who, 'every frame of a block is followed, once and in order')
    else:
        res.bad('frames', who, 'not every frame of a block is followed, once and in order', where)
    if n is not None and Lin((lt(p, nfr), notb(le(nfr, p))), interp.is_signed).holds(le(nx, nfr)):
        res.ok('frames', who, 'and no more than those')
    else:
        res.bad('frames', who, 'it goes beyond the end of a block', where)
    for ph, q in ph0.items():
        if ph.a[1:] == Z.a[1:] or ph.a[1:] == X.a[1:]:
            init = mk('field', mk('deref0', arg(1)), *ph.a[2][0][1:]) if len(ph.a[2]) == 1 else None
            if q[2] is not init:
                res.bad('frames', who, 'what is kept does not last from block to block', where)
            want = fol if ph.a[1:] == Z.a[1:] else peak
            o = I.loops[want.la].phis[Z if want is fol else X]
            if o[2] is not ph:
                res.bad('frames', who, 'what is kept does not last from one frame to the next', where)
            if want is fol and q[3] is not Z:
                res.bad('frames', who, 'a follower is changed otherwise', where)
    # when
    nxts = sorted({t for g in e.pc for t in subterms(entered(I, g)) if t.op == 'phi' and t.a[0] == L and t in ph0 and t.a[1] == ('P', arg(1))}, key=str)
    nxts = [t for t in nxts if t.a[2] not in (X.a[2], Z.a[2])]
    if len(nxts) != 1 or n is None:
        res.bad('when', who, 'when levels are told cannot be resolved', e.where)
        return
    N = nxts[0]
    due = mk('fle', S_(N, mk('i2f', n)), FL0)
    gs = [entered(I, g) for g in e.pc]
    fire = [g for g in gs if contains(g, lambda t: t is N) and not is_len(g)]
    rest = [g for g in gs if g not in fire and g.op != 'exit']
    one = lambda b: ite(b, ONE, ZERO)
    cond = TRUE
    for g in fire:
        cond = andb(cond, g)
    if fire and agrees(F, one(cond), one(due), []):
        res.ok('when', who, 'levels are told when the time between two notifications has passed')
    else:
        res.bad('when', who, 'levels are not told exactly when the time between two notifications has passed', e.where)
    R = Lin((lt(p, nfr), lt(kl, nch), le(ZERO, kl), le(nch, mk('len', X)), le(nch, C.lengths(mk('len', X))), le(nch, mk('len', val.a[0])), le(ONE, nch)), interp.is_signed)
    if all(R.holds(g) for g in rest):
        res.ok('when', who, 'and nothing else keeps them from being told')
    else:
        res.bad('when', who, 'something else keeps levels from being told', e.where)
    lim = mk('f2i', mk('app', 'ceil', N))
    if Lin((lt(p, nfr),), interp.is_signed).holds(le(n, lim)):
        res.ok('when', who, 'no frame after that time counts towards what is told')
    else:
        res.bad('when', who, 'frames after that time may count towards what is told', where)
    pf = ph0[[t for t in ph0 if t.a[1:] == X.a[1:]][0]][3]
    j = mk('sym', 'j')
    here = [le(ZERO, j), lt(j, nch), le(nch, mk('len', X)), lt(j, mk('len', X))]
    facts_ = C.facts
    C.facts, follow_ = here, C.follow
    C.follow = set(C.follow) | set(I.loops) - {L, peak.la, peak.lb, fol.la, fol.lb}
    try:
        left = C.elem(pf, j)
    except Undecided:
        left = None
    finally:
        C.facts, C.follow = facts_, follow_
    raw = [g for g in e.pc if contains(entered(I, g), lambda t: t is N) and not is_len(g)]
    yes, no = tuple(raw), [tuple([notb(g)]) for g in raw]
    good = left is not None and deep(left, yes + tuple(here)) is FL0 and len(raw) == 1 and deep(left, no[0] + tuple(here)) is mk('select', X, j)
    if good:
        res.ok('peak', who, 'it begins anew when it was told, and only then')
    else:
        res.bad('peak', who, 'it does not begin anew when it was told, and only then', where)
    # the next time
    V = ph0[N][3]
    away = mk('fsub', N, mk('i2f', n))
    good = False
    ivl = None
    for v in {deep(V, yes), deep(V, no[0]) if no else None, V}:
        # the value at the head of the loop that adds intervals, or the one after an interval was added
        x = v
        if v is not None and v.op != 'phi':
            v = next((t for t in subterms(v) if t.op == 'phi' and t.a[0] in I.loops and t in I.loops[t.a[0]].phis and agrees(F, x, I.loops[t.a[0]].phis[t][3], [])), None)
        q = I.loops[v.a[0]].phis.get(v) if v is not None and v.op == 'phi' and v.a[0] in I.loops else None
        if q is None:
            continue
        d = [t for t in subterms(q[3]) if t.op == 'field' and agrees(F, q[3], A_(v, t), [])]
        ex = [tuple(t) for t in exits_of(v.a[0])]
        ahead = (one(notb(mk('fle', x, FL0))), one(mk('flt', FL0, x)))
        if len(d) == 1 and ex and all(len(t) == 1 and any(agrees(F, one(t[0]), h, []) for h in ahead) for t in ex) and agrees(F, q[2], away, []):
            w_ = deep(V, no[0]) if no else None
            good = deep(V, yes) is x and (w_ is x or w_ is not None and agrees(F, w_, away, []))
            ivl = field_path(d[0])
    if good:
        res.ok('when', who, 'the next time is whole intervals after the last, and ahead')
    else:
        res.bad('when', who, 'the next time is not whole intervals after the last, and ahead', where)
        return
    if found:
        meter_made(prog, res, F, path, Z.a[2], N.a[2], ivl, chg[0], found, e)


def is_len(g):
    return g.op == 'le0' and not contains(g, lambda t: t.op in ('f2i', 'fle', 'flt', 'fsub'))


def interp_facts(A, L, e):
    return [g for g in e.pc if g.op != 'exit']


def meter_made(prog, res, F, peaks, followers, nxt, ivl, level, coefs, sent):
    """a level for every channel, at rest; times and rate are those asked for"""
    k = 0
    for g, A, v, e in made(prog, F):
        k += 1
        who = short(g)
        I = A.I
        ins = A.at(e, e.args[2])
        for path, what in ((peaks, 'a level'), (followers, 'a follower')):
            vec = as_gen(A, at_path(I, v, path))
            if vec.op not in ('gen', 'from_elem'):
                res.bad('made', who, 'what an envelope starts with cannot be resolved', e.where)
                continue
            size, row = (vec.a[0], vec.a[2]) if vec.op == 'gen' else (vec.a[1], vec.a[0])
            if same_count(size, ins, e.args[2]):
                res.ok('made', who, 'there is %s for every channel' % what)
            else:
                res.bad('made', who, 'there is not %s for every channel' % what, e.where)
            if path is peaks:
                if row is FL0:
                    res.ok('made', who, 'every level starts at rest')
                else:
                    res.bad('made', who, 'a level does not start at rest', e.where)
                continue
            if I.pf(row, 0, level) is FL0:
                res.ok('made', who, 'every follower starts at rest')
            else:
                res.bad('made', who, 'a follower does not start at rest', e.where)
            rate_ = {x.ret for x in A.events if x.kind == 'call' and last(x.name) in ('get_sample_rate', 'sample_rate')}
            named = {}
            for i, nm in enumerate(coefs):
                named[nm] = secs(I.pf(row, 0, nm))
            names = arg_named(prog, g, ('attack_time', 'release_time'))
            for nm, i in zip(('attack_time', 'release_time'), coefs):
                t = mk('app', 'as_secs_f64', names[nm]) if nm in names else None
                got = named[i]
                ok = t is not None and any(real_equal(got, mk('app', 'exp', mk('fdiv', flt(-1), M_(mk('i2f', r), t)))) for r in rate_)
                if ok:
                    res.ok('made', who, 'follows at the %s asked for, at the sample rate of the engine' % nm.replace('_', ' '))
                else:
                    res.bad('made', who, 'does not follow at the %s asked for, at the sample rate of the engine' % nm.replace('_', ' '), e.where)
        a, b = at_path(I, v, ivl), at_path(I, v, nxt)
        nm = arg_named(prog, g, ('notification_frequency',)).get('notification_frequency')
        rate_ = {x.ret for x in A.events if x.kind == 'call' and last(x.name) in ('get_sample_rate', 'sample_rate')}
        if nm is not None and any(real_equal(a, mk('fdiv', mk('i2f', r), nm)) for r in rate_) and a is b:
            res.ok('made', who, 'levels are told as often as asked for, and the first time after one interval')
        else:
            res.bad('made', who, 'levels are not told as often as asked for, the first time after one interval', e.where)
        # to whom
        tx = [t for t in subterms(at_path(I, v, sender_path(F, sent))) if t.op == 'ret'] or [at_path(I, v, sender_path(F, sent))]
        node = [t for t in allterms(A) if t.op == 'adt' and prog.types[t.a[0]].get('path', '').endswith('envelope_node::Envelope')]
        rx = {x for t in node for fld in t.a[2:] for x in subterms(fld) if x in tx}
        if node and rx:
            res.ok('made', who, 'they are told to the node')
        else:
            res.bad('made', who, 'they are not told to the node', e.where)
    res.need('makers of %s' % F.who, k, 1)


def accessors(prog, res):
    """what the user reads is what was told"""
    nf = prog_fields(prog, NOTE)
    n = 0
    for name, fld in (('channel_index', 'channel_index'), ('peak_level', 'peak_level')):
        for g in prog.local():
            if g.blocks and g.npath.endswith(NOTE + '::' + name):
                A = analyse(prog, g, arrays.effects, 'fx')
                n += 1
                if A.ret is mk('field', mk('deref0', A.arg(1)), 0, nf[fld]):
                    res.ok('told', short(g), 'is what was told')
                else:
                    res.bad('told', short(g), 'is not what was told', g.where)
    res.need('queries of a notification', n, 2)


def sender_path(F, e):
    r = F.I.deref(e.args[0], None)
    return tuple(r[0][2]) if r and r[0][1] == ('P', arg(1)) else ()


def allterms(A):
    for e in A.events:
        for x in e.args:
            yield from subterms(x)
    for v in A.st.mem.values() if hasattr(A.st, 'mem') else ():
        yield from subterms(v)
    yield from subterms(A.ret)


def arg_named(prog, g, names):
    """the arguments of a maker with these names: the first duration, the second, and the frequency"""
    ts = [(i, prog.types[g.locals[i][0]]) for i in range(1, g.argc + 1)]
    ds = [arg(i) for i, t in ts if t.get('path', '').endswith('Duration')]
    fs = [arg(i) for i, t in ts if t['s'] == 'f64']
    m = {}
    if len(ds) == 2:
        m.update(attack_time=ds[0], release_time=ds[1])
    if len(fs) == 1:
        m['notification_frequency'] = fs[0]
    return {n: m[n] for n in names if n in m}


def r28(prog, res, tier):
    cover = set()
    try:
        meter(prog, res, cover)
        accessors(prog, res)
    except Undecided as u:
        res.bad('told', 'EnvelopeProcessor', 'not established: what becomes of a frame (%s)' % u, '')
    res.cov['functions'] = len(cover)


# -- R29 ---------------------------------------------------------------------------------------------
def variant_of(v, i):
    return v.op == 'adt' and v.a[1] == i


def status(prog):
    return vidx(prog, 'NotifierStatus', 'Continue'), vidx(prog, 'NotifierStatus', 'Remove')


def context(prog, res):
    """every notifier is asked, and kept while it says so"""
    go, drop = status(prog)
    fs = [g for g in prog.trait_method('Context', 'process_notifications') if g.blocks]
    for g in fs:
        A = analyse(prog, g, arrays.effects, 'fx')
        who = short(g)
        calls = [e for e in A.events if e.kind == 'call' and e.name == '<indirect>']
        keeps = [e for e in A.events if e.kind == 'vec' and e.name in ('retain', 'retain_mut')]
        if len(calls) != 1 or len(calls[0].loops) != 1:
            res.bad('asked', who, 'every notifier is not asked once, at one place', g.where)
            continue
        e = calls[0]
        l = e.loops[0]
        k = A.I.loops[l].k
        got = asked(A, e, k)
        path, vec = got if got else ((), None)
        n = Content(A).trips(l)
        ok = vec is not None and n is mk('len', vec)
        ok = ok and all(A_holds(gd, k, n) for gd in e.pc)
        if ok:
            res.ok('asked', who, 'every notifier is asked, once and in order')
        else:
            res.bad('asked', who, 'not every notifier is asked, once and in order', e.where)
        good = False
        if vec is not None:
            keep = stays(A, A.I.read(A.st, ('P', A.arg(1)), path), vec, k)
            r = e.ret
            cases = [((mk('is', r, go), notb(mk('is', r, drop))), TRUE), ((mk('is', r, drop), notb(mk('is', r, go))), FALSE)]
            good = keep is not None and all(deep(keep, lits) is want for lits, want in cases)
        if good:
            res.ok('asked', who, 'it stays exactly while it says that it wants to')
        else:
            res.bad('asked', who, 'it does not stay exactly while it says that it wants to', e.where)
        # nothing is lost when one is added
        for h in prog.trait_method('Context', 'add_notifier'):
            if h.blocks and h.selfty == g.selfty:
                B = analyse(prog, h, arrays.effects, 'fx')
                v = B.I.read(B.st, ('P', B.arg(1)), path)
                w = mk('field', mk('deref0', B.arg(1)), *path[0][1:3]) if path else None
                if w is not None and v.op == 'push' and v.a[0] is w and v.a[1] is B.arg(2):
                    res.ok('asked', short(h), 'one that is added is asked after those that are there')
                else:
                    res.bad('asked', short(h), 'one that is added is lost, or those that are there', h.where)
    res.need('contexts', len(fs), 1)


def asked(A, e, k):
    """the list whose k-th notifier is called: where it is, and what was in it"""
    whole = [x for x in A.I.deref(e.args[0], None) if x[1] == ('P', A.arg(1)) and x[2] and x[2][-1][0] == 'i'] if e.args[0].op in ('ref', 'ite') else []
    if len(whole) == 1 and len(whole[0][2]) == 2 and whole[0][2][-1][1] is k:
        return whole[0][2][:1], mk('field', mk('deref0', A.arg(1)), *whole[0][2][0][1:3])
    r = A.I.deref(e.args[0], None) if e.args[0].op == 'ref' else []
    v = e.args[0]
    if len(r) == 1 and not r[0][2]:
        v = r[0][1][1] if r[0][1][0] == 'C' else A.at(e, v)
    if v.op in ('elem', 'select') and v.a[1] is k and v.a[0].op == 'field' and v.a[0].a[0] is mk('deref0', A.arg(1)):
        return (('f',) + tuple(v.a[0].a[1:3]),), v.a[0]
    return None


def stays(A, now, vec, k):
    """when the k-th of a list is in what came of the list, in the place it had"""
    if now.op == 'filtered' and len(now.a) == 3:
        b, i, keep = now.a
        if b is vec or b.op == 'phi' and all(x is vec or x is b for x in A.I.loops[b.a[0]].phis[b][2:]):
            return subst(keep, {i: k})
    if now.op == 'phi':
        _, _, init, step = A.I.loops[now.a[0]].phis[now]
        if init.op == 'empty' and A.I.loops[now.a[0]].k is k:
            keep = FALSE
            ok = True
            def walk(t, g):
                nonlocal keep, ok
                if t.op == 'ite':
                    walk(t.a[1], g + (t.a[0],))
                    walk(t.a[2], g + (notb(t.a[0]),))
                elif t.op == 'push' and t.a[0] is now and t.a[1] in (mk('elem', vec, k), mk('select', vec, k)):
                    keep = orb(keep, andb(*g))
                elif t is not now:
                    ok = False
            walk(step, ())
            return keep if ok else None
    return None


def A_holds(g, k, n):
    return Lin((lt(k, n), le(ZERO, k)), interp.is_signed).holds(g)


def inside_of(A, v):
    """what a box, and a box in that, holds"""
    n = 0
    while v.op == 'box' and n < 4:
        v = A.final(v.a[0])
        n += 1
    return v


def makers(prog):
    """the functions that make a node: those that give a shared one, for a context"""
    for g in prog.local():
        if g.blocks and g.locals and '{closure' not in g.npath and prog.types[g.locals[0][0]].get('path', '').endswith('Rc') \
                and any('Context' in prog.types[g.locals[i][0]]['s'] for i in range(1, g.argc + 1)):
            yield g


def notifiers(prog, res):
    """what a node registers: it drains the queue of the node, and stays while the node is there"""
    go, drop = status(prog)
    n = 0
    for g in makers(prog):
        A = analyse(prog, g, arrays.effects, 'fx')
        for e in A.events:
            if e.kind != 'call' or last(e.name) != 'add_notifier' or len(e.args) != 2:
                continue
            n += 1
            who = short(g)
            cl = inside_of(A, e.args[1])
            t = prog.types[cl.a[0]] if cl.op == 'closure' else {}
            body = next((h for h in prog.local() if h.key == t.get('inst')), None) if t else None
            if body is None or e.pc and not all(holds_given(A, x) for x in e.pc):
                res.bad('registered', who, 'what is registered cannot be resolved, or is not always', e.where)
                continue
            ups = [x for x in cl.a[1:] if x.op == 'weak']
            strong = [x for x in cl.a[1:] for y in subterms(x) if x.op != 'weak' and y.op == 'box' and y is A.ret]
            if len(ups) == 1 and ups[0].a[0] is A.ret and not strong:
                res.ok('registered', who, 'what is registered is for the node, and does not keep it alive')
            else:
                res.bad('registered', who, 'what is registered is not for the node, or keeps it alive', e.where)
                continue
            drains(prog, res, g, body, cl.a[1:].index(ups[0]), go, drop)
            paired(prog, res, g, A)
    res.need('notifiers', n, 2)


def holds_given(A, g):
    """a guard that only keeps out a call that panics"""
    for e in A.events:
        if e.kind == 'panic' and e.pc and any(notb(x) is g or x is notb(g) for x in e.pc):
            return True
    # or what holds when a loop is over that always ends this way
    if g.op == 'exit' and len(exits_of(g.a[0])) == 1:
        return True
    return False


def drains(prog, res, g, body, slot, go, drop):
    who = short(g) + ' (notifier)'
    B = analyse(prog, body, arrays.effects, 'fx')
    I = B.I
    alive = {t for t in subterms(B.ret) if t.op == 'is' and t.a[0].op == 'app' and t.a[0].a[0] == 'upgrade'}
    if len(alive) != 1:
        res.bad('drained', who, 'whether it stays does not depend on whether the node is there', body.where)
        return
    up = alive.pop()
    if up.a[1] == 0:
        up = notb(up)
    here, gone = (up, notb(mk('is', up.a[0], 0))) if up.op == 'is' else (up,), None
    here = (mk('is', (up if up.op == 'is' else up.a[0]).a[0], 1),)
    here = here + (notb(mk('is', here[0].a[0], 0)),)
    gone = (notb(here[0]), mk('is', here[0].a[0], 0))
    if variant_of(deep(B.ret, here), go) and variant_of(deep(B.ret, gone), drop):
        res.ok('drained', who, 'it stays while the node is there')
    else:
        res.bad('drained', who, 'it does not stay exactly while the node is there', body.where)
    rs = [e for e in B.events if e.kind == 'chan' and e.name.endswith(('try_recv', '::recv'))]
    if len(rs) != 1 or len(rs[0].loops) != 1:
        res.bad('drained', who, 'not all that waits is taken', body.where)
        return
    e = rs[0]
    r, l = e.ret, e.loops[0]
    ends = [tuple(x) for x in exits_of(l)]
    ok = e.name.endswith('try_recv') and all(deep(x, here) is TRUE for x in e.pc) and ends and \
        all(len(x) == 1 and x[0] in (mk('is', r, 1), notb(mk('is', r, 0))) for x in ends)
    w = [p for _, b, p in I.deref(e.args[0], None) if b[0] == 'P' and b[1].op == 'app' and b[1].a[0] == 'upgraded']
    ok = ok and len(w) == 1
    if ok:
        res.ok('drained', who, 'all that waits is taken, in order')
    else:
        res.bad('drained', who, 'not all that waits is taken, in order', e.where)


def paired(prog, res, g, A):
    """the node listens to its own processor"""
    who = short(g)
    es = [e for e in A.events if e.kind == 'chan' or e.kind == 'call' and e.ret is not None]
    node = inside_of(A, A.ret)
    chans_ = [e.ret for e in A.events if e.kind == 'channew']
    recs = {t for t in subterms(node) if t.op == 'field' and t.a[0] in chans_ and t.a[2] == 1}
    txs = set()
    for k, v in A.st.mem.items():
        if k[0] == 'A' and isinstance(v, type(ZERO)) and v is not node and v.op == 'adt':
            txs |= {t for t in subterms(v) if t.op == 'field' and t.a[0] in chans_ and t.a[2] == 0}
    if recs and all(any(t.a[0] is r.a[0] for t in txs) for r in recs):
        res.ok('registered', who, 'the node listens to its own processor')
    else:
        res.bad('registered', who, 'the node does not listen to its own processor', g.where)


def taken(prog, res):
    """what a meter was told is kept in order until it is taken, whole"""
    cls = [g for g in prog.local() if g.kind == 'closure' or '{closure' in g.npath]
    f, A, es = [], None, []
    for g in makers(prog):
        if 'envelope_node::Envelope' in prog.types[g.locals[0][0]]['s']:
            B = analyse(prog, g, arrays.effects, 'fx')
            x = [e for e in B.events if e.kind == 'call' and last(e.name) == 'add_notifier']
            if x:
                f.append(g)
                A, es = B, x
    if len(f) != 1:
        raise NoAnswer('the maker of envelopes cannot be resolved')
    cl = inside_of(A, es[0].args[1]) if len(es) == 1 else None
    body = next((h for h in cls if cl is not None and cl.op == 'closure' and h.key == prog.types[cl.a[0]].get('inst')), None)
    if body is None:
        res.bad('kept', short(f[0]), 'nothing keeps what the node is told', f[0].where)
        return
    who = 'Envelope (notifier)'
    B = analyse(prog, body, arrays.effects, 'fx')
    pushes = [e for e in B.events if e.kind == 'vec']
    rs = [e for e in B.events if e.kind == 'chan' and e.name.endswith(('try_recv', '::recv'))]
    ok = len(pushes) == 1 and len(rs) == 1 and pushes[0].name == 'push' and pushes[0].loops == rs[0].loops
    path = None
    if ok:
        p, r = pushes[0], rs[0].ret
        got = (notb(mk('is', r, 1)), mk('is', r, 0))
        up = tuple(g for g in rs[0].pc)
        w = [q for _, b, q in B.I.deref(p.args[0], None) if b[0] == 'P' and b[1].op == 'app' and b[1].a[0] == 'upgraded']
        ok = p.args[1] is mk('field', r, 0, 0) and len(w) == 1 and all(deep(x, got + up) is TRUE for x in p.pc)
        path = tuple(w[0]) if len(w) == 1 else None
    if ok:
        res.ok('kept', who, 'what it is told is kept, whole and in order')
    else:
        res.bad('kept', who, 'what it is told is not kept, whole and in order', body.where)
        return
    n = 0
    node = [t for t in range(len(prog.types)) if prog.types[t]['k'] == 'adt' and prog.types[t]['path'].endswith('envelope_node::Envelope')]
    for g in prog.local():
        if not g.blocks or g.trait is not None or g.argc != 1 or '{closure' in g.npath:
            continue
        t = prog.types[g.locals[1][0]]
        if t['k'] != 'ref' or t['e'] not in node or not prog.types[g.locals[0][0]].get('path', '').endswith('Vec'):
            continue
        n += 1
        D = analyse(prog, g, arrays.effects, 'fx')
        fp = path[-1:]
        slf = mk('field', mk('deref0', D.arg(1)), *fp[0][1:3])
        now = D.I.read(D.st, ('P', D.arg(1)), (('f',) + fp[0][1:3],))
        if D.ret is slf and now.op == 'empty':
            res.ok('taken', short(g), 'all of it is taken, once')
        else:
            res.bad('taken', short(g), 'not all of it is taken, or more than once', g.where)
    res.need('takers', n, 1)


def r29(prog, res, tier):
    context(prog, res)
    notifiers(prog, res)
    taken(prog, res)
    res.cov['functions'] = 6


RULES = {'R28': r28, 'R29': r29}
