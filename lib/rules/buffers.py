"""R23: the operations on audio buffers do what they say at every channel and frame, and nothing elsewhere.
R24: which samples a row, a window or a copy of a buffer stands for."""
from q import *
from arrays import *
import arrays
from .params import short, adt, fidx
from .engine import prog_fields
import interp
import models

OWN = mk('sym', 'arg1')
c, f = mk('sym', 'chan'), mk('sym', 'frame')
FL0 = mk('fl', '0.0')


def arg(i):
    return mk('sym', 'arg%d' % i)


def d0(t):
    return mk('deref0', t)


def chans(o):
    return mk('app', 'channel_count', d0(o))


def frames(o):
    return mk('app', 'frame_count', d0(o))


def rate(o):
    return mk('app', 'sample_rate', d0(o))


def was(ch=c, fr=f):
    return mk('app', 'own', ch, fr)


def smp(o, ch, fr):
    return mk('app', 'smp', o, ch, fr)


def implementers(prog):
    """types that are audio buffers"""
    out = set()
    for g in prog.local():
        if g.npath.startswith('<') and ' as ' in g.npath and g.npath.split(' as ', 1)[1].startswith('rawdio::buffer::audio_buffer::AudioBuffer>::'):
            out.add(g.npath[1:].split(' as ')[0].split('<')[0])
    return out


def ops(prog, name):
    """the bodies of an operation: the default one, and what a kind of buffer has of its own"""
    out = []
    default = False
    for g in prog.local():
        if not g.blocks:
            continue
        if g.npath.endswith('AudioBuffer::' + name):
            # the default body is the same for every kind of buffer: rows and counts are opaque
            if default:
                continue
            default = True
        if g.npath.endswith('AudioBuffer::' + name) or (g.npath.startswith('<') and g.npath.endswith('AudioBuffer>::' + name)):
            t = prog.types[g.locals[1][0]]
            if 'e' not in t:
                continue
            e = prog.types[t['e']]
            out.append((g, e.get('path', e['s']).rsplit('::', 1)[-1]))
    return out


class Lo:
    """fields of locations and ranges"""

    def __init__(self, prog):
        self.ch, self.fr = fidx(prog, 'SampleLocation', 'channel'), fidx(prog, 'SampleLocation', 'frame')
        self.r = [fidx(prog, 'SampleRange', n) for n in ('channel', 'frame', 'channel_count', 'frame_count')]

    def loc(self, t):
        return mk('field', t, 0, self.ch), mk('field', t, 0, self.fr)

    def rng(self, t):
        return tuple(mk('field', t, 0, i) for i in self.r)


def region(c0, f0, n, m):
    return andb(le(c0, c), lt(c, add(c0, n)), le(f0, f), lt(f, add(f0, m)))


INSIDE = [le(ZERO, c), lt(c, chans(OWN)), le(ZERO, f), lt(f, frames(OWN))]


def inside(o, c0, f0, n, m):
    return [le(add(c0, n), chans(o)), le(add(f0, m), frames(o))]


def table(prog):
    """operation -> (what (c, f) holds after it, what a caller has to see to)"""
    L = Lo(prog)
    t = {}
    a = {i: arg(i) for i in range(1, 8)}
    data = d0(a[2])
    product = [le(mul(a[3], add(f, ONE)), mul(a[3], a[4])), le(mul(a[3], a[4]), mk('len', data))]
    t['fill_from_interleaved'] = (ite(andb(lt(c, a[3]), lt(f, a[4])), mk('select', data, add(c, mul(a[3], f))), was()), [])
    t['clear'] = (FL0, [])
    r = L.rng(d0(a[2]))
    t['clear_range'] = (ite(region(*r), FL0, was()), inside(OWN, *r))
    t['fill_channel_with_value'] = (ite(eq(c, a[2]), a[3], was()), [lt(a[2], chans(OWN))])
    t['fill_with_value'] = (a[2], [])
    lc, lf = L.loc(a[2])
    here = andb(eq(c, lc), eq(f, lf))
    ok = [lt(lc, chans(OWN)), lt(lf, frames(OWN))]
    t['set_sample'] = (ite(here, a[3], was()), ok)
    t['add_sample'] = (ite(here, mk('fadd', was(), a[3]), was()), ok)
    sc, sf = L.loc(a[3])
    dc, df = L.loc(a[4])
    src = smp(a[2], add(c, sub(sc, dc)), add(f, sub(sf, df)))
    reg = region(dc, df, a[5], a[6])
    ok = inside(OWN, dc, df, a[5], a[6]) + inside(a[2], sc, sf, a[5], a[6])
    t['add_from'] = (ite(reg, mk('fadd', src, was()), was()), ok)
    t['add_from_with_gain'] = (ite(reg, mk('fadd', mk('fmul', src, a[7]), was()), was()), ok)
    t['copy_from'] = (ite(reg, src, was()), ok)
    moved = region(r[0], a[3], r[2], r[3])
    t['copy_within'] = (ite(moved, was(c, add(sub(f, a[3]), r[1])), was()), inside(OWN, *r) + [le(add(a[3], r[3]), frames(OWN))])
    t['apply_gain'] = (mk('fmul', was(), mk('select', d0(a[2]), f)), [eq(mk('len', d0(a[2])), frames(OWN))])
    t['apply_gain_value'] = (ite(region(*r), mk('fmul', was(), a[3]), was()), inside(OWN, *r))
    pos = mk('fmul', mk('fdiv', mk('i2f', rate(a[2])), mk('i2f', rate(OWN))), mk('i2f', sub(f, df)))
    lo, hi = mk('app', 'floor', pos), mk('app', 'ceil', pos)
    last = sub(sub(frames(a[2]), sf), ONE)
    there = lambda i: smp(a[2], add(c, sub(sc, dc)), add(sf, imin(mk('f2i', i), last)))
    part = mk('fsub', pos, lo)
    mixed = mk('fadd', mk('fmul', mk('fsub', mk('fl', '1.0'), part), there(lo)), mk('fmul', part, there(hi)))
    t['sample_rate_convert_from'] = (ite(andb(le(dc, c), lt(c, add(dc, a[5])), le(df, f)), mixed, was()),
                                     [le(add(sc, a[5]), chans(a[2])), le(add(dc, a[5]), chans(OWN)), lt(sf, frames(a[2])), le(df, frames(OWN))])
    fc, ff = L.loc(a[3])
    t['fill_from_slice'] = (ite(andb(eq(c, fc), le(ff, f)), mk('select', d0(a[2]), sub(f, ff)), was()),
                            [lt(fc, chans(OWN)), le(ff, frames(OWN)), eq(mk('len', d0(a[2])), sub(frames(OWN), ff))])
    return t


class Contents(Cases):
    """case distinction that knows what follows from every element having been looked at"""

    def __init__(self, C, facts, points=(f,), **kw):
        Cases.__init__(self, C.I, facts, **kw)
        self.C = C
        self.points = points
        self.maps = []
        self.fix = None

    def agree(self, a, b, facts=None, eqs=None, depth=0):
        facts = self.facts if facts is None else facts
        more = [x for x in self.universal(facts) if x not in facts]
        if more:
            facts = list(facts) + more
            a, b = deep(a, more), deep(b, more)
        return Cases.agree(self, a, b, facts, eqs, depth)

    def universal(self, facts):
        out = []
        for x in facts:
            y = x.a[0] if x.op == 'not' else x
            if y.op != 'exit' or y.a[2] != 2 or y.a[0] not in self.I.loops:
                continue
            k = self.I.loops[y.a[0]].k
            mine, other = [[self.C.named(z) for z in EXITS.get(w, ())] for w in (x, notb(x))]
            end = [z for z in mine if z.op == 'le0' and poly_parts(z.a[0])[1].get(k) == -1]
            if not end:
                continue
            bound = self.C.lengths(add(end[0].a[0], k))
            for m in self.maps:
                bound = subst(bound, m)
            why = [z for z in other if notb(z) not in end and contains(z, lambda t: t is k)]
            if len(why) == 1 and len(mine) == 1:
                for p in self.points:
                    if Lin(tuple(facts), interp.is_signed).holds(lt(p, bound)):
                        w = at(why[0], k, p)
                        out.append(notb(self.fix(w) if self.fix else w))
        return out


def facts_of(t):
    return tuple(t.a) if t.op == 'and' else (t,)


def no_failure(res, A, C, who, given, rule='accepted'):
    """no check that a caller who keeps to the rules could fail"""
    n = bad = 0
    for e in A.events:
        if e.kind == 'assert' and e.args[0] is not TRUE:
            n += 1
            g = C.lengths(e.args[0])
            pc = [C.lengths(x) for x in e.pc] + list(given)
            for l in e.loops:
                if l in A.I.loops:
                    pc.append(le(ZERO, A.I.loops[l].k))
            ext = products(pc + [g])
            if not Lin(tuple(pc + ext), interp.is_signed).holds(g):
                bad += 1
                res.bad(rule, who, 'may fail for arguments it has to accept (%s)' % e.name, e.where)
        elif e.kind == 'panic':
            n += 1
            pc = [C.lengths(x) for x in e.pc] + list(given)
            if not impossible(pc, []):
                bad += 1
                res.bad(rule, who, 'may panic for arguments it has to accept', e.where)
    if not bad:
        res.ok(rule, who, 'none of its %d checks fails for arguments it has to accept' % n)
    return bad == 0


def ev(t, L, lits):
    """True or False where the literals hold, or None"""
    if t is TRUE or t in lits:
        return True
    if t is FALSE or notb(t) in lits:
        return False
    if t.op == 'not':
        r = ev(t.a[0], L, lits)
        return None if r is None else not r
    if t.op in ('and', 'or'):
        rs = [ev(x, L, lits) for x in t.a]
        if t.op == 'and':
            return False if False in rs else True if all(r is True for r in rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    if t.op in ('le0', 'eq0'):
        if L.holds(t):
            return True
        if t.op == 'le0' and L.holds(notb(t)) or Lin(tuple(x for x in lits) + (t,), interp.is_signed).infeasible([]):
            return False
    return None


def impossible(pcs, given):
    """these conditions cannot hold together where what is given holds"""
    flat = []
    todo = list(given) + list(pcs)
    while todo:
        z = todo.pop()
        if z.op == 'and':
            todo += list(z.a)
        elif z.op == 'not' and z.a[0].op == 'or':
            todo += [notb(x) for x in z.a[0].a]
        else:
            flat.append(z)
    lits = set(flat)
    if any(z is FALSE or notb(z) in lits for z in flat):
        return True
    L = Lin(tuple(flat) + tuple(products(flat)), interp.is_signed)
    if L.infeasible([]):
        return True
    return any(ev(z, L, lits - {z}) is False for z in flat if z.op in ('not', 'or', 'eq0'))


def products(ts):
    """x < y => a*x + a <= a*y, for the products at hand"""
    prods = {}
    for t in ts:
        for x in subterms(t):
            if x.op == 'mulm' and len(x.a) == 2:
                for p, q in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                    prods.setdefault(p, set()).add(q)
    L = Lin(tuple(ts), interp.is_signed)
    out = []
    for p, qs in prods.items():
        for x in qs:
            for y in qs:
                if x is not y and L.holds(lt(x, y)):
                    out.append(le(add(mul(p, x), p), mul(p, y)))
    return out


def where_of(C):
    return C.A.fn.where


def describe(K):
    """the case in which two contents differ"""
    if not K.failed:
        return ''
    a, b, fs = K.failed
    return '%s instead of %s' % (str(a)[:80], str(b)[:80])


def show(t, d=0, seen=None):
    seen = {} if seen is None else seen
    if t in seen and len(str(t)) > 60:
        print('  ' * d + '^%d' % seen[t])
        return
    seen[t] = len(seen)
    if len(str(t)) < 110:
        print('  ' * d + str(t))
        return
    print('  ' * d + '#%d ' % seen[t] + t.op, [x for x in t.a if not hasattr(x, 'op')])
    for x in t.a:
        if hasattr(x, 'op'):
            show(x, d + 1, seen)


def check(res, rule, C, who, got, want, given, what, bad, points=(f,), fix=None):
    got = C.lengths(got)
    given = list(given)
    K = Contents(C, given, points, limit=40000)
    K.fix = fix
    for i in range(6):
        z = next((x for x in K.facts if x.op == 'eq0' and K.orient(x.a[0])), None)
        if z is None:
            break
        m = dict([K.orient(z.a[0])])
        K.maps.append(m)
        got, want = subst(got, m), subst(want, m)
        K.facts = [y for y in (subst(x, m) for x in K.facts) if y is not TRUE]
    try:
        good = K.agree(got, want)
    except Undecided as e:
        res.bad(rule, who, 'not established: %s (%s)' % (what, e), where_of(C))
        return False
    if good:
        res.ok(rule, who, what + ' (%d cases)' % K.n)
    else:
        import os
        if os.environ.get('V'):
            if os.environ['V'] == '2':
                for x in K.failed[:2] + tuple(z for z in K.failed[2] if 'clamp' in str(z)):
                    show(x)
            print(describe(K), [str(x)[:200] for x in K.failed[2]])
        res.bad(rule, who, bad, where_of(C))
    return good


def r23(prog, res, tier):
    n = 0
    cover = set()
    for name, (want, given) in table(prog).items():
        bodies = ops(prog, name)
        for g, of in bodies:
            who = '%s (%s)' % (short(g), of)
            A = analyse(prog, g, rows, 'rows')
            C = Content(A)
            if any(e.kind == 'panic' and not e.gates for e in A.events):
                continue
            n += 1
            cover.add(g.key)
            try:
                got = C.final(OWN, c, f)
            except Undecided as e:
                res.bad('content', who, 'not established: what it leaves in the buffer (%s)' % e, g.where)
                continue
            check(res, 'content', C, who, got, want, INSIDE + given, 'every sample is what it has to be', 'leaves another sample than it has to')
            others(res, A, C, who)
            pre = list(given)
            if name == 'fill_from_interleaved':
                # the caller hands over enough data
                pre.append(le(mul(arg(3), arg(4)), mk('len', d0(arg(2)))))
                pre += interleaved(A)
            no_failure(res, A, C, who, pre)
    n += reads(prog, res, cover)
    n += kernels(prog, res, cover)
    res.need('operations of audio buffers', n, 15)
    res.cov['functions'] = len(cover)
    res.cov['operations'] = n
    res.cov['explanation'] = ('Each operation is turned into a function of channel and frame: the loops that write are solved for the '
                              'iteration that writes the sample asked for. It is compared with what the operation has to leave there, by '
                              'cases over the conditions of both, each case decided by linear and real arithmetic.')


def interleaved(A):
    """frame < frames and channel < channels: what this says of their products"""
    out = []
    for li in A.I.loops.values():
        k = li.k
        # k <= n-1  =>  a*k + a <= a*n
        out.append(('k', k))
    fs = []
    a3, a4 = arg(3), arg(4)
    for _, k in out:
        fs.append(orb(lt(a4, add(k, ONE)), le(add(mul(a3, k), a3), mul(a3, a4))))
    return fs


def others(res, A, C, who):
    """no other buffer or slice is written"""
    for b, v in A.st.mem.items():
        if b[0] != 'P':
            continue
        if b[1].op == 'ret' and b[1].a[0] in C.site:
            if C.site[b[1].a[0]].args[0] is OWN:
                continue
            if v is mk('deref0', b[1]) or root_is(A, v, mk('deref0', b[1])):
                continue
            res.bad('nothing-else', who, 'writes into another buffer', A.fn.where)
            return
        if v is not mk('deref0', b[1]) and not root_is(A, v, mk('deref0', b[1])):
            res.bad('nothing-else', who, 'writes into something else than its buffer', A.fn.where)
            return
    res.ok('nothing-else', who, 'writes into its buffer only')


def root_is(A, v, t):
    return v is t


def reads(prog, res, cover):
    n = 0
    L = Lo(prog)
    for g, of in ops(prog, 'copy_to_interleaved'):
        who = '%s (%s)' % (short(g), of)
        A = analyse(prog, g, rows, 'rows')
        C = Content(A)
        n += 1
        cover.add(g.key)
        v = A.st.mem.get(('P', arg(2)))
        data = d0(arg(2))
        if v is None:
            res.bad('content', who, 'writes nothing into the data', g.where)
            continue
        x = add(c, mul(arg(3), f))
        C.facts = [le(ZERO, c), lt(c, arg(3)), le(ZERO, f), lt(f, arg(4))]
        try:
            got = C.samples(C.elem(v, x), OWN)
        except Undecided as e:
            res.bad('content', who, 'not established: what it leaves in the data (%s)' % e, g.where)
            continue
        m = {t: mk('app', 'own', t.a[1], t.a[2]) for t in subterms(got) if t.op == 'app' and t.a[0] == 'own' and len(t.a) == 4}
        got = subst(got, m)
        want = ite(andb(lt(c, chans(OWN)), lt(f, frames(OWN))), was(), mk('select', data, x))
        check(res, 'content', C, who, got, want, [le(ZERO, c), lt(c, arg(3)), le(ZERO, f), lt(f, arg(4))],
              'every sample of the interleaved data is that of the buffer', 'leaves another sample in the interleaved data than that of the buffer')
        if C.written(OWN):
            res.bad('nothing-else', who, 'writes into the buffer it reads', g.where)
        no_failure(res, A, C, who, [le(mul(arg(3), arg(4)), mk('len', data))] + interleaved(A))
    for g, of in ops(prog, 'get_sample'):
        who = '%s (%s)' % (short(g), of)
        A = analyse(prog, g, rows, 'rows')
        C = Content(A)
        n += 1
        cover.add(g.key)
        got = C.samples(A.ret, OWN)
        lc, lf = L.loc(arg(2))
        if got.op == 'app' and got.a[0] == 'own' and got.a[1] is lc and got.a[2] is lf:
            res.ok('content', who, 'gives the sample at the place asked for')
        else:
            res.bad('content', who, 'does not give the sample at the place asked for', g.where)
        no_failure(res, A, C, who, [lt(lc, chans(OWN)), lt(lf, frames(OWN))])
    for g, of in ops(prog, 'range_is_valid'):
        who = '%s (%s)' % (short(g), of)
        A = analyse(prog, g, rows, 'rows')
        C = Content(A)
        n += 1
        cover.add(g.key)
        r = L.rng(d0(arg(2)))
        want = andb(*inside(OWN, *r))
        check(res, 'range', C, who, as_value(A.ret), as_value(want), [], 'holds exactly for ranges inside the buffer',
              'holds for a range that is not inside the buffer, or not for one that is')
    for g, of in ops(prog, 'channel_is_silent'):
        who = '%s (%s)' % (short(g), of)
        A = analyse(prog, g, rows, 'rows')
        C = Content(A)
        n += 1
        cover.add(g.key)
        silent(res, A, C, who, g)
    for g, of in ops(prog, 'length_in_seconds'):
        who = '%s (%s)' % (short(g), of)
        A = analyse(prog, g, rows, 'rows')
        n += 1
        cover.add(g.key)
        want = mk('fdiv', mk('i2f', frames(OWN)), mk('i2f', rate(OWN)))
        if real_equal(A.ret, want):
            res.ok('length', who, 'is the frames divided by the sample rate')
        else:
            res.bad('length', who, 'is not the frames divided by the sample rate', g.where)
    its = [g for g in prog.local() if g.blocks and g.npath.endswith('FrameIterator as std::iter::Iterator>::next')]
    for g in its:
        n += 1
        cover.add(g.key)
        frame_iter(prog, res, g)
    return n


def as_value(b):
    return ite(b, ONE, ZERO)


def silent(res, A, C, who, g):
    """true only after every sample was seen to be zero, false only for one that is not"""
    k = None
    rs = A.ret
    ok = False
    row = [e for e in C.site.values()]
    if len(row) == 1 and not row[0].loops and C.I.pf(row[0].args[1], 0, fidx(A.prog, 'SampleLocation', 'channel')) is arg(2) \
            and C.I.pf(row[0].args[1], 0, fidx(A.prog, 'SampleLocation', 'frame')) is ZERO and row[0].args[0] is OWN:
        x = rs
        yes = None
        if x.op == 'exit' or (x.op == 'not' and x.a[0].op == 'exit'):
            yes = x
        elif x.op == 'ite' and x.a[1] is TRUE and x.a[2] is FALSE:
            yes = x.a[0]
        if yes is not None:
            K = Contents(C, [le(ZERO, f), lt(f, mk('len', d0(row[0].ret)))])
            K.facts = [C.lengths(z) for z in K.facts]
            sample = mk('select', d0(row[0].ret), f)
            u = K.universal([yes] + K.facts)
            zero = mk('feq', *sorted((sample, FL0), key=lambda t: t.id))
            no = EXITS.get(notb(yes), ())
            ok = any(z is zero or z is mk('feq', FL0, sample) or z is mk('feq', sample, FL0) for z in u) and bool(no)
    if ok:
        res.ok('silent', who, 'holds exactly when every sample of the channel is zero')
    else:
        res.bad('silent', who, 'does not hold exactly when every sample of the channel is zero', g.where)


def frame_iter(prog, res, g):
    """one after the other: the frames of a channel, then the next channel, until there is none"""
    who = short(g)
    A = analyse(prog, g, rows, 'rows')
    I = A.I
    it = adt(prog, 'FrameIterator')['variants'][0]['f']
    mkr = [(h, of) for h, of in ops(prog, 'frame_iter')]
    if not mkr:
        raise NoAnswer('no frame_iter')
    B = analyse(prog, mkr[0][0], rows, 'rows')
    v0 = B.ret
    if v0.op != 'adt':
        raise NoAnswer('what frame_iter makes cannot be resolved')
    fs = list(v0.a[2:])
    cc = [i for i, x in enumerate(fs) if x is chans(OWN)]
    fc = [i for i, x in enumerate(fs) if x is frames(OWN)]
    z = [i for i, x in enumerate(fs) if x is ZERO]
    if len(fs) != 4 or len(cc) != 1 or len(fc) != 1 or len(z) != 2:
        res.bad('frames', short(mkr[0][0]), 'does not start at the first frame of the first channel, or not with the counts of the buffer', mkr[0][0].where)
        return
    res.ok('frames', short(mkr[0][0]), 'starts at the first frame of the first channel')
    slf = d0(arg(1))
    F = lambda i: mk('field', slf, 0, i)
    # which of the two counts frames: the one given as the frame of the location
    ret = A.ret
    some = deep(ret, ())
    loc = I.simp(I.pf(ret, 1, 0), ())
    fi = fidx(prog, 'SampleLocation', 'frame')
    ci = fidx(prog, 'SampleLocation', 'channel')
    lf, lc = strip(I.pf(loc, 0, fi)), strip(I.pf(loc, 0, ci))
    fr = [i for i in z if lf is F(i)]
    ch = [i for i in z if lc is F(i)]
    if len(fr) != 1 or len(ch) != 1 or fr == ch:
        res.bad('frames', who, 'does not give the place it is at', g.where)
        return
    fr, ch, cc, fc = F(fr[0]), F(ch[0]), F(cc[0]), F(fc[0])
    now = lambda t: I.read(A.st, ('P', arg(1)), (('f', 0, t.a[2]),))
    C = Content(A)
    inv = []
    check(res, 'frames', C, who, as_value(mk('is', ret, 1) if ret.op != 'ite' else deep_is(ret)), as_value(andb(lt(ch, cc), lt(fr, fc))), inv,
          'gives a place exactly while there is one', 'gives no place although there is one, or one that is not in the buffer')
    more = [lt(fr, fc), lt(ch, cc)]
    last = le(fc, add(fr, ONE))
    check(res, 'frames', C, who, now(fr), ite(last, ZERO, add(fr, ONE)), more, 'the next frame follows, the first after the last',
          'does not go on with the next frame')
    check(res, 'frames', C, who, now(ch), ite(last, add(ch, ONE), ch), more, 'the next channel follows after the last frame',
          'does not go on with the next channel after the last frame of a channel, or leaves a channel early')
    # when there is no place any more there never is one again: channel and frame stay outside
    K = Contents(C, [le(cc, ch)])
    try:
        good = K.agree(as_value(le(cc, now(ch))), ONE)
    except Undecided:
        good = False
    if good and now(cc) is cc and now(fc) is fc:
        res.ok('frames', who, 'ends for good')
    else:
        res.bad('frames', who, 'goes on after its end', g.where)


def strip(t):
    n = 0
    while t.op == 'ite' and n < 8:
        n += 1
        if t.a[1].op == 'bottom':
            t = t.a[2]
        elif t.a[2].op == 'bottom':
            t = t.a[1]
        else:
            break
    return t


def deep_is(t):
    if t.op == 'ite':
        return ite(t.a[0], deep_is(t.a[1]), deep_is(t.a[2]))
    if t.op == 'adt':
        return BOOL(t.a[1] == 1)
    return mk('is', t, 1)




def kernels(prog, res, cover):
    """the loops over samples everything is mixed with, whatever the alignment of the slices"""
    n = 0
    for name, (dst, val, slices) in KERNELS.items():
        for g in fns(prog, 'dsp::' + name):
            n += 1
            cover.add(g.key)
            who = short(g)
            A = analyse(prog, g, rows, 'rows')
            C = Content(A)
            v = A.st.mem.get(('P', arg(dst)))
            e = lambda i, x: mk('select', d0(arg(i)), x)
            if v is None:
                res.bad('kernel', who, 'writes nothing', g.where)
                continue
            try:
                got = C.elem(v, f)
            except Undecided as ex:
                res.bad('kernel', who, 'not established: what it writes (%s)' % ex, g.where)
                continue
            n0 = mk('len', d0(arg(slices[0])))
            given = [le(ZERO, f), lt(f, n0)] + [eq(mk('len', d0(arg(i))), n0) for i in slices[1:]]
            check(res, 'kernel', C, who, got, val(f, e), given, 'every sample is what it has to be, once',
                  'leaves another sample than it has to')
            no_failure(res, A, C, who, given[2:])
            if any(b[0] == 'P' and b[1] is not arg(dst) and x is not d0(b[1]) for b, x in A.st.mem.items()):
                res.bad('nothing-else', who, 'writes into something else', g.where)
    return n


# -- R24 ----------------------------------------------------------------------------------------------
BUF, RNG, LOC = mk('sym', 'buffer'), mk('sym', 'range'), mk('sym', 'place')


def getter(prog, ty, name):
    for g in prog.local():
        if g.blocks and g.npath.endswith('AudioBuffer>::' + name) and ('::%s as ' % ty in g.npath or '::%s<' % ty in g.npath):
            return g
    return None


def windows(prog):
    """kinds of buffers that show a part of another: those that can be made of a buffer and a range"""
    out = []
    for g in prog.local():
        if g.blocks and g.npath.endswith('AudioBuffer::slice') and len(g.locals) > 2 and tname(prog, g.locals[2][0]) == 'SampleRange':
            out.append((tname(prog, g.locals[0][0]), g))
    return out


def mem_of(A):
    return A.st.mem if A.st is not None else {}


def r24(prog, res, tier):
    cover = set()
    L = Lo(prog)
    n = owned(prog, res, cover, L)
    ws = windows(prog)
    res.need('kinds of windows', len(ws), 2)
    for ty, g in ws:
        n += window_kind(prog, res, cover, L, ty, g)
    n += makers(prog, res, cover, L)
    n += helpers(prog, res, cover, L)
    res.need('functions of buffers and windows', n, 25)
    res.cov['functions'] = len(cover)
    res.cov['windows'] = [t for t, g in ws]
    res.cov['explanation'] = ('What a row of a buffer or a window is made of is compared, as a place in the data or in the buffer below, with what '
                              'it stands for; the checks that are passed must imply that it lies inside. The contents of copies are functions of '
                              'channel and frame, as in R23.')


def helpers(prog, res, cover, L):
    """places and ranges are what they are made of"""
    n = 0
    ch, fr = lambda v: mk('field', v, 0, L.ch), lambda v: mk('field', v, 0, L.fr)
    a1, a2 = arg(1), arg(2)

    def isref(g):
        return 'e' in prog.types[g.locals[1][0]]
    want = {
        'new': lambda s: (a1, a2), 'channel': lambda s: (a1, ZERO), 'frame': lambda s: (ZERO, a1), 'origin': lambda s: (ZERO, ZERO),
        'offset_frames': lambda s: (ch(s), add(fr(s), a2)), 'offset_channels': lambda s: (add(ch(s), a2), fr(s)),
        'with_channel': lambda s: (a2, fr(s)), 'with_frame': lambda s: (ch(s), a2)}
    for name, w in want.items():
        for g in fns(prog, 'SampleLocation::' + name):
            A = analyse(prog, g, rows, 'rows')
            n += 1
            cover.add(g.key)
            slf = d0(a1) if g.argc and isref(g) else a1
            x = w(slf)
            if A.I.pf(A.ret, 0, L.ch) is x[0] and A.I.pf(A.ret, 0, L.fr) is x[1]:
                res.ok('places', short(g), 'is the place it says')
            else:
                res.bad('places', short(g), 'is not the place it says', g.where)
    want = {'new': (a1, a2, arg(3), arg(4)), 'channel_and_frame_count': (ZERO, ZERO, a1, a2)}
    for name, w in want.items():
        for g in fns(prog, 'SampleRange::' + name):
            A = analyse(prog, g, rows, 'rows')
            n += 1
            cover.add(g.key)
            if all(A.I.pf(A.ret, 0, L.r[i]) is w[i] for i in range(4)):
                res.ok('places', short(g), 'is the range it says')
            else:
                res.bad('places', short(g), 'is not the range it says', g.where)
    return n


def owned(prog, res, cover, L):
    """rows of the buffer that holds its samples"""
    n = 0
    ty = 'OwnedAudioBuffer'
    roles = {}
    for m in models.SHAPE:
        g = getter(prog, ty, m)
        if g is None:
            raise NoAnswer('no %s of the owned buffer' % m)
        A = analyse(prog, g, rows, 'rows')
        n += 1
        cover.add(g.key)
        r = A.ret
        roles[m] = r.a[2] if r.op == 'field' and r.a[0] is d0(arg(1)) else None
        if roles[m] is None:
            res.bad('shape', short(g), 'is not what the buffer was made with', g.where)
    g = fn(prog, ty + '::new')
    A = analyse(prog, g, rows, 'rows')
    n += 1
    cover.add(g.key)
    v = A.ret
    good = v.op == 'adt'
    if good:
        F = [A.I.pf(v, 0, i) for i in range(len(v.a) - 2)]
        data = [i for i in range(len(F)) if i not in roles.values()]
        good = all(x is not None for x in roles.values()) and F[roles['frame_count']] is arg(1) and F[roles['channel_count']] is arg(2) and \
            F[roles['sample_rate']] is arg(3)
    res.decide(good, 'shape', short(g), 'has the frames, channels and sample rate it was made with',
               'does not have the frames, channels or sample rate it was made with', g.where)
    if not good:
        return n
    data = [i for i in data if A.I.elem_ty(prog.types[v.a[0]]['fields'][0][i]) is not None]
    if len(data) != 1:
        raise NoAnswer('the samples of the owned buffer cannot be resolved')
    D = data[0]
    ln = A.I.length(F[D])
    z = A.I.select(F[D], f)
    res.decide(ln is mul(arg(1), arg(2)) and z is FL0, 'shape', short(g), 'holds a silent sample for each frame of each channel',
               'does not hold a silent sample for each frame of each channel', g.where)
    slf = d0(arg(1))
    FC, CC = mk('field', slf, 0, roles['frame_count']), mk('field', slf, 0, roles['channel_count'])
    DA = mk('field', slf, 0, D)
    lc, lf = L.loc(arg(2))
    size = eq(mk('len', DA), mul(FC, CC))
    for name in ('get_channel_data', 'get_channel_data_mut'):
        g = getter(prog, ty, name)
        n += 1
        cover.add(g.key)
        B = analyse(prog, g, rows, 'rows')
        who = short(g)
        ps = B.I.deref(B.ret, None)
        ok = len(ps) == 1 and ps[0][1] == ('P', arg(1)) and len(ps[0][2]) >= 2 and ps[0][2][0][-1] == D
        off, n_ = ZERO, mk('len', DA)
        if ok:
            for p in ps[0][2][1:]:
                ok = ok and p[0] == 'sub'
                if ok:
                    off, n_ = add(off, p[1]), p[2]
        res.decide(ok and off is add(mul(lc, FC), lf) and n_ is sub(FC, lf), 'row', who,
                   'is the samples of the channel from the frame asked for to its last',
                   'is not the samples of the channel from the frame asked for to its last', g.where)
        no_failure(res, B, Content(B), who, [size, lt(lc, CC), le(lf, FC), le(add(mul(lc, FC), FC), mul(CC, FC))], 'inside')
        pc = B.st.pc if B.st is not None else ()
        res.decide(Lin(tuple(pc), interp.is_signed).holds(le(lf, FC)), 'inside', who, 'a row never reaches into another channel',
                   'a row may reach into another channel', g.where)
        res.decide(unchanged(B), 'inside', who, 'changes nothing', 'changes the buffer', g.where)
    g = getter(prog, ty, 'duplicate_channel')
    n += 1
    cover.add(g.key)
    duplicated(prog, res, g, D, FC, CC, DA, size, L)
    return n


def unchanged(B):
    return all(b[0] != 'P' or v is d0(b[1]) for b, v in mem_of(B).items())


def duplicated(prog, res, g, D, FC, CC, DA, size, L):
    B = analyse(prog, g, rows, 'rows')
    C = Content(B)
    who = short(g)
    sc, sf = L.loc(arg(2))
    to, cnt = arg(3), arg(4)
    now = B.I.read(B.st, ('P', arg(1)), (('f', 0, D),))
    x = add(mul(c, FC), f)
    given = [lt(sc, CC), lt(to, CC), le(add(sf, cnt), FC), le(ZERO, f), lt(f, FC), lt(c, CC)]
    lem = lambda a, b: le(add(mul(a, FC), FC), mul(b, FC))
    given += [lem(sc, CC), lem(to, CC)]
    ok = True
    try:
        for case, m, facts in (('before', {}, [lt(c, to), lem(c, to)]), ('at', {c: to}, []), ('after', {}, [lt(to, c), lem(to, c)])):
            xx = subst(x, m)
            got = C.elem(now, xx)
            old = mk('select', DA, xx)
            want = ite(andb(le(sf, f), lt(f, add(sf, cnt))), mk('select', DA, add(mul(sc, FC), f)), old) if case == 'at' else old
            K = Contents(C, [eq(mk('len', DA), mul(FC, CC))] and [subst(z, m) for z in given] + facts + [lem(c, CC) if case != 'at' else TRUE,
                                                                                                  eq(mk('len', DA), mul(FC, CC))])
            ok = ok and K.agree(got, want)
    except Undecided as e:
        res.bad('content', who, 'not established: what it copies (%s)' % e, g.where)
        return
    res.decide(ok, 'content', who, 'the frames asked for, and they alone, become those of the other channel',
               'copies other frames than asked for, or not to where it has to', g.where)
    no_failure(res, B, C, who, [size] + given, 'accepted')


def window_kind(prog, res, cover, L, ty, g):
    n = 1
    cover.add(g.key)
    A = analyse(prog, g, rows_valid, 'rowsv')
    who = short(g)
    W = subst(A.ret, {arg(1): BUF, arg(2): RNG})
    bc, bf, cc, fc = L.rng(RNG)
    valid = inside(BUF, bc, bf, cc, fc)
    ren = {arg(1): BUF, arg(2): RNG}
    pc = tuple(subst(z, ren) for z in (A.st.pc if A.st is not None else ()))
    LL = Lin(pc, interp.is_signed)
    res.decide(all(LL.holds(z) for z in valid), 'inside', who, 'is made of a range inside the buffer only',
               'can be made of a range that is not inside the buffer', g.where)
    refuse = False
    for e in A.events:
        if e.kind in ('panic', 'assert') and not (e.kind == 'assert' and e.args[0] is TRUE):
            epc = tuple(subst(z, ren) for z in e.pc) + ((notb(subst(e.args[0], ren)),) if e.kind == 'assert' else ())
            if not impossible(epc, valid):
                refuse = True
    res.decide(not refuse, 'accepted', who, 'can be made of every range inside the buffer', 'refuses a range inside the buffer', g.where)
    inst = lambda t: subst(t, {d0(arg(1)): W, arg(2): LOC})
    for m, want in (('channel_count', cc), ('frame_count', fc), ('sample_rate', mk('app', 'sample_rate', d0(BUF)))):
        h = getter(prog, ty, m)
        if h is None:
            continue
        n += 1
        cover.add(h.key)
        B = analyse(prog, h, rows, 'rows')
        res.decide(inst(B.ret) is want, 'shape', short(h), 'is that of the window', 'is not that of the window', h.where)
    lc, lf = L.loc(LOC)
    for m in ('get_channel_data', 'get_channel_data_mut'):
        h = getter(prog, ty, m)
        if h is None:
            continue
        B = analyse(prog, h, rows_valid, 'rowsv')
        n += 1
        cover.add(h.key)
        if B.st is None or B.ret is BOT:
            res.ok('row', short(h), 'hands out nothing')
            continue
        window_row(res, B, h, inst, lc, lf, bc, bf, cc, fc, valid, L, m)
    h = getter(prog, ty, 'duplicate_channel')
    if h is not None:
        B = analyse(prog, h, rows_valid, 'rowsv')
        n += 1
        cover.add(h.key)
        w2 = short(h)
        if B.st is None or B.ret is BOT:
            res.ok('row', w2, 'changes nothing')
        else:
            es = [e for e in B.events if e.kind == 'call' and e.name.endswith('::duplicate_channel')]
            ok = len(es) == 1 and not es[0].loops
            if ok:
                a = [inst(x) for x in es[0].args]
                ok = a[0] is BUF and a[3] is arg(4) and a[2] is add(arg(3), bc) and B.I.pf(a[1], 0, L.ch) is add(lc, bc) and \
                    B.I.pf(a[1], 0, L.fr) is add(lf, bf)
            res.decide(ok, 'row', w2, 'copies between the same channels of the window', 'copies other frames or channels than those of the window', h.where)
            if ok:
                e = es[0]
                Q = Lin(tuple(inst(z) for z in e.pc), interp.is_signed)
                res.decide(Q.holds(lt(lc, cc)) and Q.holds(lt(arg(3), cc)) and Q.holds(le(add(lf, arg(4)), fc)), 'inside', w2,
                           'never reaches outside of the window', 'may reach outside of the window', h.where)
            ok = True
            for e in B.events:
                if e.kind == 'panic':
                    q = Lin(tuple(inst(z) for z in e.pc) + (lt(lc, cc), lt(arg(3), cc), le(add(lf, arg(4)), fc)), interp.is_signed)
                    ok = ok and q.infeasible([])
            res.decide(ok, 'accepted', w2, 'accepts what is inside the window', 'refuses what is inside the window', h.where)
    # the other ways to make one
    pos = [i for i in range(len(W.a) - 2) if W.a[2 + i] is RNG] if W.op == 'adt' else []
    if len(pos) != 1:
        # the range is stored in parts
        pos = None
    for name, r in (('slice_frames', (ZERO, arg(2), chans(arg(1)), arg(3))), ('slice_channels', (arg(2), ZERO, arg(3), frames(arg(1)))),
                    ('slice_channels_and_frames', (ZERO, ZERO, arg(3), arg(2)))):
        for h in fns(prog, ty + '::' + name):
            n += 1
            cover.add(h.key)
            B = analyse(prog, h, rows_valid, 'rowsv')
            m = {BUF: arg(1)}
            want = subst(W, m)
            for i in range(4):
                want = subst(want, {mk('field', RNG, 0, L.r[i]): r[i]})
            got = B.ret
            if pos is not None:
                got_r = [B.I.pf(B.I.pf(got, 0, pos[0]), 0, L.r[i]) for i in range(4)]
                ok = all(a is b for a, b in zip(got_r, r)) and all(
                    B.I.pf(got, 0, i) is want.a[2 + i] for i in range(len(want.a) - 2) if i != pos[0])
            else:
                ok = got is want
            res.decide(ok, 'window', short(h), 'shows exactly the channels and frames it says', 'shows other channels or frames than it says', h.where)
            pc = Lin(tuple(B.st.pc) if B.st is not None else (), interp.is_signed)
            res.decide(all(pc.holds(z) for z in inside(arg(1), *r)), 'inside', short(h), 'is made of a range inside the buffer only',
                       'can be made of a range that is not inside the buffer', h.where)
    return n


def window_row(res, B, h, inst, lc, lf, bc, bf, cc, fc, valid, L, m):
    C = Content(B)
    who = short(h)
    ps = B.I.deref(B.ret, None)
    ok = len(ps) == 1 and ps[0][1][0] == 'P' and ps[0][1][1].op == 'ret' and C.place(ps[0][1][1]) is not None
    conf = False
    if ok:
        e, obj, ch, fr = C.place(ps[0][1][1])
        off, n_ = ZERO, None
        for p in ps[0][2]:
            ok = ok and p[0] == 'sub'
            if ok:
                off, n_ = add(off, p[1]), p[2]
        ok = ok and inst(obj) is BUF and inst(ch) is add(lc, bc) and inst(add(fr, off)) is add(lf, bf) and e.name.endswith('::' + m)
        conf = n_ is not None and inst(n_) is sub(fc, lf)
    res.decide(ok, 'row', who, 'starts at the place of the window in the buffer', 'does not start at the place of the window in the buffer', h.where)
    pc = Lin(tuple(inst(z) for z in B.st.pc), interp.is_signed)
    res.decide(conf and pc.holds(lt(lc, cc)) and pc.holds(le(lf, fc)), 'inside', who, 'ends with the window and is of one of its channels',
               'may reach outside of the window', h.where)
    res.decide(unchanged(B), 'inside', who, 'changes nothing', 'changes the buffer', h.where)
    given = valid + [lt(lc, cc), le(lf, fc)]
    bad = False
    for e in B.events:
        if e.kind == 'assert' and e.args[0] is not TRUE:
            q = [inst(C.lengths(x)) for x in e.pc] + given
            bad = bad or not impossible(q, [notb(inst(C.lengths(e.args[0])))])
        elif e.kind == 'panic':
            bad = bad or not impossible([inst(C.lengths(x)) for x in e.pc], given)
    res.decide(not bad, 'accepted', who, 'accepts every place inside the window', 'refuses a place inside the window', h.where)


def makers(prog, res, cover, L):
    """buffers made of others hold their samples at their places"""
    n = 0
    ty = 'OwnedAudioBuffer'
    a1, a2, a3 = arg(1), arg(2), arg(3)
    ln = mk('len', d0(a1))
    roles = {m: analyse(prog, getter(prog, ty, m), rows, 'rows').ret.a[2] for m in models.SHAPE}
    src = lambda o, ch, fr: smp(o, ch, fr)
    sel = ite(lt(f, frames(a1)), src(a1, c, f), src(a2, c, sub(f, frames(a1))))
    T = {'from_slice': ((a2, ln, a3), mk('select', d0(a1), f), []),
         'from_buffer': ((chans(a1), frames(a1), rate(a1)), src(a1, c, f), []),
         'extended_with_buffer': ((chans(a1), add(frames(a1), frames(a2)), rate(a1)), sel, [eq(chans(a1), chans(a2)), eq(rate(a1), rate(a2))]),
         'padded_to_length': ((chans(a1), a2, rate(a1)), ite(lt(f, frames(a1)), src(a1, c, f), FL0), [le(frames(a1), a2)])}
    rs, re_ = mk('field', arg(4), 0, 0), mk('field', arg(4), 0, 1)
    tau = mk('fl', '6.283185307179586')
    wave = mk('fmul', arg(5), mk('app', 'sin', mk('fmul', mk('fmul', tau, arg(4)), mk('fdiv', mk('i2f', f), mk('i2f', a3)))))
    T['step'] = ((a2, a1, a3), ite(andb(le(rs, f), lt(f, re_)), mk('fl', '1.0'), FL0), [])
    T['sine'] = ((a2, a1, a3), wave, [le(ONE, a2)])
    for name, (shape, want, given) in T.items():
        for g in fns(prog, ty + '::' + name):
            n += 1
            cover.add(g.key)
            who = short(g)
            A = analyse(prog, g, rows, 'rows')
            C = Content(A)
            v = A.ret
            if 'e' in prog.types[g.locals[1][0]] and prog.types[prog.types[g.locals[1][0]]['e']].get('path', '').endswith(ty):
                given = given + [eq(mk('field', d0(a1), 0, roles[x]), mk('app', x, d0(a1))) for x in models.SHAPE]
            got = tuple(A.I.pf(v, 0, roles[m]) for m in ('channel_count', 'frame_count', 'sample_rate'))
            m = {chans(a2): chans(a1), rate(a2): rate(a1)} if name == 'extended_with_buffer' else {}
            m.update({mk('field', d0(a1), 0, roles[x]): mk('app', x, d0(a1)) for x in models.SHAPE})
            ok = all(subst(x, m) is subst(y, m) for x, y in zip(got, shape))
            res.decide(ok, 'shape', who, 'has the channels, frames and sample rate it has to', 'has other channels, frames or sample rate than it has to', g.where)
            data = [x for i, x in enumerate(v.a[2:]) if i not in roles.values() and x.op not in ('int',)] if v.op == 'adt' else []
            size = mul(got[0], got[1])
            silent0 = len(data) == 1 and A.I.length(data[0]) is size and A.I.select(data[0], f) is FL0
            if not silent0:
                res.bad('content', who, 'not established: it is silent before it is filled, and large enough', g.where)
                continue
            objs = {e.args[0] for e in C.site.values() if e.name.endswith('_mut')}
            if len(objs) != 1:
                res.bad('content', who, 'does not fill exactly one buffer', g.where)
                continue
            own = objs.pop()
            C.shapes[own] = (got[0], got[1])
            try:
                x = C.final(own, c, f)
            except Undecided as e:
                res.bad('content', who, 'not established: what it holds (%s)' % e, g.where)
                continue
            x = subst(x, {t: FL0 for t in subterms(x) if t.op == 'app' and t.a[0] == 'own'})
            check(res, 'content', C, who, subst(x, m), subst(want, m), [subst(z, m) for z in [le(ZERO, c), lt(c, got[0]), le(ZERO, f), lt(f, got[1])] + given],
                  'every sample is that of its source', 'holds another sample than that of its source')
            no_failure(res, A, C, who, given)
    return n


RULES = {'R23': r23, 'R24': r24}
