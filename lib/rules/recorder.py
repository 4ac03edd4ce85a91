"""R22: the recorder records what it hears while it is asked to, whole and in order, and tells so."""
from q import *
from .params import vidx, short, constructors, processor_of, opaque_calls, fidx
from .engine import ret_event, prog_fields
from .events import exits_of
from .sources import Node
from .mixing import window
from .sampler import covers, loc0_is, leaves_with, none
import interp

NOTE, EVENT = 'RecorderNotification', 'RecorderEventType'


def variant(prog, enum, n):
    return vidx(prog, enum, n)


class Recorder(Node):
    def __init__(self, prog):
        Node.__init__(self, prog, 'RecorderProcessor', EVENT)
        I, A = self.I, self.A
        ty = I.pointee_ty(self.fn.locals[1][0])
        self.who, self.w = short(self.fn), self.fn.where
        fs = prog.types[ty]['fields'][0]

        def one(what, pred):
            r = [(0, i) for i, f in enumerate(fs) if pred(f, prog.types[f])]
            if len(r) != 1:
                raise NoAnswer('the %s of the recorder cannot be resolved' % what)
            return r[0]
        self.buffer = one('buffer', lambda f, t: tname(prog, f) == 'OwnedAudioBuffer')
        pool = one('pool', lambda f, t: tname(prog, f) == 'BufferPool')
        pf = prog.types[fs[pool[1]]]['fields'][0]
        pv = [i for i, f in enumerate(pf) if prog.types[f]['k'] == 'adt' and prog.types[f]['path'].endswith(('Vec', 'VecDeque'))]
        if len(pv) != 1:
            raise NoAnswer('the buffers of the pool cannot be resolved')
        self.pool = (pool, (0, pv[0]))
        bools = [(0, i) for i, f in enumerate(fs) if prog.types[f]['s'] == 'bool']
        start = self.lits('Start')
        rec = [b for b in bools if deep(self.after((b,), start), ()) is TRUE]
        if len(rec) != 1 or len(bools) != 2:
            raise NoAnswer('whether the recorder records cannot be resolved')
        self.rec = rec[0]
        self.rep = [b for b in bools if b != rec[0]][0]
        cs = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith('AudioBuffer::copy_from')]
        if len(cs) != 1 or len(cs[0].loops) != 2 or cs[0].loops[0] != self.L:
            raise NoAnswer('what the recorder copies cannot be resolved')
        self.copy = cs[0]
        self.C = cs[0].loops[1]
        # the place in the buffer: the number in the state the copy goes to
        loc1 = I.pf(self.copy.args[3], 0, prog_fields(prog, 'SampleLocation')['frame'])
        pl = [b for b, f in enumerate(fs) if prog.types[f]['k'] == 'uint' and any(
            loc1 is p for p, (bb, pa, i, s) in I.loops[self.C].phis.items() if bb == self.base and tuple((x[1], x[2]) for x in pa) == ((0, b),))]
        if len(pl) != 1:
            raise NoAnswer('the place in the buffer of the recorder cannot be resolved')
        self.place = (0, pl[0])

    def inner(self, path):
        """(value at the start of a pass of the copying loop, value after it)"""
        for p, (b, pa, i, s) in self.I.loops[self.C].phis.items():
            if b == self.base and tuple((x[1], x[2]) for x in pa) == path:
                return p, s
        v = self.before(path)
        return v, v

    def sends(self):
        for e in self.A.events:
            if e.kind == 'chan' and e.name.endswith(('try_send', '::send')) and e.args[1:] and (
                    e.args[1].op == 'adt' and tname(self.prog, e.args[1].a[0]) == NOTE or e.args[1].op == 'ite'):
                yield e


def handoff(R, res, c, old, new, used, lits, e, w):
    """the buffer, pool and place before and after a buffer is given away; e is the event that does so"""
    I, prog = R.I, R.prog
    (b0, pool0, q0), (b1, pool1, q1) = old, new
    res_ = lambda ok, good, bad: res.ok('handoff', c, good) if ok else res.bad('handoff', c, bad, w)
    some = lits + (notb(le(mk('len', pool0), ZERO)), notb(mk('le0', mk('len', pool0))), le(ONE, mk('len', pool0)))
    empty = lits + (le(mk('len', pool0), ZERO), notb(le(ONE, mk('len', pool0))))
    d = vidx(prog, NOTE, 'Data')
    if e is None:
        res.bad('handoff', c, 'what was recorded is not given away', w)
        return
    m = deep(e.args[1], lits)
    got = [deep(x, lits) for x in (I.pf(m, d, 0), I.pf(m, d, 1))] if m.op == 'adt' and m.a[1] == d else (None, None)
    res_(got[0] is deep(b0, lits), 'the buffer that was recorded to is given away', 'another buffer than the one recorded to is given away')
    res_(got[1] is deep(used, lits), 'with exactly as many frames as were recorded', 'not with as many frames as were recorded')
    res_(deep(q1, some) is ZERO and deep(q1, empty) is ZERO, 'recording goes on at the start of a buffer', 'recording does not go on at the start of a buffer')
    r = e.ret
    okl = (notb(mk('is', r, 1)), mk('is', r, 0))
    x, y = deep(b1, some + okl), deep(pool1, some + okl)
    p0 = deep(pool0, lits)
    taken = y.op in ('popped', 'removed') and y.a[0] is p0 and x.op == 'select' and x.a[0] is p0 and \
        (x.a[1] is (sub(mk('len', p0), ONE) if y.op == 'popped' and len(y.a) == 1 else y.a[1] if len(y.a) > 1 else ZERO))
    res_(taken, 'another buffer is taken from the pool for it', 'the buffer that takes its place is not one taken from the pool')
    z = deep(b1, empty)
    res_(z is deep(b0, empty) and deep(pool1, empty) is deep(pool0, empty), 'without another buffer this one is used again', 'without another buffer, recording does not go on with this one')
    fail = some + (mk('is', r, 1), notb(mk('is', r, 0)))
    v = deep(pool1, fail)
    ret = [t for t in subterms(v) if t.op == 'push']
    res_(bool(ret) and all(t.a[0] is y and contains(t.a[1], lambda s: s is r or s.op == 'ret' and ret_event(R.A, s) is not None and
                                                    any(mentions(a, r) for a in ret_event(R.A, s).args)) for t in ret),
         'a buffer that cannot be given away goes back to the pool', 'a buffer that cannot be given away is lost')


def r22(prog, res, tier):
    R = Recorder(prog)
    I, A, who, w = R.I, R.A, R.who, R.w
    e, C = R.copy, R.C
    lf = prog_fields(prog, 'SampleLocation')
    bf = prog_fields(prog, 'OwnedAudioBuffer')
    rec = R.before((R.rec,))
    on, off = (rec, ), (notb(rec),)
    st = [(path,) if not isinstance(path[0], tuple) else path for path in (R.buffer, R.pool, R.place)]
    pre = [R.before(p) for p in st]
    cur = [R.inner(p) for p in st]
    b, pool, q = [x[0] for x in cur]
    # the segment
    sp = [(p, s) for p, (bb, pa, i, s) in I.loops[C].phis.items() if i is R.pos and bb != R.base]
    if len(sp) != 1:
        res.bad('copy', who, 'a segment is not recorded from its first frame', w)
        return
    p, ps = sp[0]
    loc0, loc1, ch, n = e.args[2:6]
    size = I.pf(b, 0, bf['frame_count'])
    if size.op == 'field' and isinstance(size.a[0], type(b)) and size.a[0] is not b:
        size = I.pf(b, 0, bf['frame_count'])
    inp = e.args[1]
    if loc0_is(I, lf, loc0, ZERO, p) and inp is I.pf(mk('deref0', A.arg(2)), 0, prog_fields(prog, 'ProcessContext')['input_buffer']):
        res.ok('copy', who, 'what is recorded is the input at the frame reached')
    else:
        res.bad('copy', who, 'what is recorded is not the input at the frame reached', e.where)
    dst = all(bb == R.base and tuple((x[1], x[2]) for x in pa) == (R.buffer,) for _, bb, pa in I.deref(e.args[0], None))
    if dst and loc0_is(I, lf, loc1, ZERO, q):
        res.ok('copy', who, 'it is recorded to the buffer, after what was recorded before')
    else:
        res.bad('copy', who, 'it is not recorded to the buffer, after what was recorded before', e.where)
    sizes = {size, I.pf(pre[0], 0, bf['frame_count'])}
    left = sub(R.end, p)
    nn = deep(n, on)
    good = any(nn is interp.imin(left, sub(s, q)) for s in sizes)
    if good:
        res.ok('copy', who, 'as much is recorded as the segment and the buffer allow')
    else:
        res.bad('copy', who, 'not as much is recorded as the segment and the buffer allow', e.where)
    cc = mk('app', 'channel_count', mk('deref0', inp))
    if any(ch is interp.imin(cc, I.pf(x, 0, bf['channel_count'])) for x in (b, pre[0])):
        res.ok('copy', who, 'every channel is recorded')
    else:
        res.bad('copy', who, 'not every channel is recorded', e.where)
    if deep(ps, on) is add(p, n):
        res.ok('copy', who, 'the next frames of the segment follow')
    else:
        res.bad('copy', who, 'the next frames of the segment do not follow', w)
    L = Lin((rec, lt(p, R.end), lt(R.pos, R.end), le(R.pos, p), lt(R.pos, mk('app', 'frame_count', mk('deref0', inp)))), interp.is_signed)
    if all(L.holds(g) for g in e.pc):
        res.ok('copy', who, 'nothing of a segment is left out while recording')
    else:
        res.bad('copy', who, 'a part of a segment is left out while recording', e.where)
    if rec in e.pc or Lin(e.pc, interp.is_signed).holds(rec):
        res.ok('copy', who, 'nothing is recorded while not recording')
    else:
        res.bad('copy', who, 'something is recorded while not recording', e.where)
    done = [tuple(x) for x in exits_of(C)]
    if done and all(len(x) == 1 and covers(x[0], le(R.end, p)) for x in done):
        res.ok('copy', who, 'a segment is recorded to its end')
    else:
        res.bad('copy', who, 'a segment is not recorded to its end', w)
    # a full buffer
    datas = [x for x in R.sends() if any(t.op == 'adt' and tname(prog, t.a[0]) == NOTE and t.a[1] == vidx(prog, NOTE, 'Data') for t in subterms(x.args[1]))]
    inner = [x for x in datas if C in x.loops]
    outer = [x for x in datas if C not in x.loops]
    q1 = add(q, n)
    full = (le(size, q1), le(I.pf(pre[0], 0, bf['frame_count']), q1))
    more = tuple(notb(x) for x in full)
    post = [x[1] for x in cur]
    if [deep(x, more) for x in post] == [b, pool, q1]:
        res.ok('copy', who, 'until the buffer is full recording goes on in it')
    else:
        res.bad('copy', who, 'recording does not go on in the buffer until it is full', w)
    c = who + ' (buffer full)'
    handoff(R, res, c, (b, pool, q), post, q1, full, inner[0] if len(inner) == 1 else None, w)
    for x in inner:
        L = Lin(full + (rec, lt(p, R.end), lt(R.pos, R.end), le(R.pos, p), le(ONE, mk('len', pool)), lt(R.pos, mk('app', 'frame_count', mk('deref0', inp)))), interp.is_signed)
        if all(L.holds(g) for g in x.pc) and any(mentions(g, q) for g in x.pc):
            res.ok('handoff', c, 'that happens when the buffer is full, and only then')
        else:
            res.bad('handoff', c, 'that does not happen exactly when the buffer is full', x.where)
    # events
    seg = [pre_or(cu, rec) for cu in zip(pre, [x[0] for x in cur])]
    for v in R.variants:
        ev = v['n']
        c = '%s (%s)' % (who, ev)
        lits = R.lits(ev)
        r1 = R.after((R.rec,), lits)
        vals = [R.after(x, lits) for x in st]
        if ev in ('Start', 'Stop'):
            want = TRUE if ev == 'Start' else FALSE
            ok = r1 is want
            what = 'the recorder then records' if ev == 'Start' else 'the recorder then does not record'
        else:
            ok, what = r1 is rec, 'whether it records stays as it is'
        if ok:
            res.ok('events', c, what)
        else:
            res.bad('events', c, 'not the case: ' + what, w)
        for ls, base, lab in ((on, [x[0] for x in cur], 'recording'), (off, pre, 'not recording')):
            got = [deep(x, lits + ls) for x in vals]
            if ev == 'Stop' and lab == 'recording':
                handoff(R, res, c, base, got, base[2], lits + ls, outer[0] if len(outer) == 1 else None, w)
                continue
            if ev == 'ReturnBuffer':
                x = R.payload(ev, 0)
                ok = got[0] is base[0] and got[2] is base[2] and got[1].op == 'push' and got[1].a[0] is base[1] and got[1].a[1] is x
                what = 'a buffer that comes back goes to the pool'
            else:
                ok, what = got == base, 'what was recorded stays as it is'
            if ok:
                res.ok('events', c, '%s (%s)' % (what, lab))
            else:
                res.bad('events', c, 'not the case: %s (%s)' % (what, lab), w)
    for x in outer:
        L = Lin(R.lits('Stop') + (rec, le(ONE, mk('len', R.inner(st[1])[0])), le(ONE, mk('len', cur[1][0])), lt(R.pos, mk('app', 'frame_count', mk('deref0', inp)))), interp.is_signed)
        if all(deep(g, R.lits('Stop') + (rec,)) is TRUE or L.holds(deep(g, R.lits('Stop') + (rec,))) for g in x.pc) and mk('is', R.kind, vidx(prog, EVENT, 'Stop')) in x.pc:
            res.ok('handoff', who + ' (Stop)', 'that happens when recording stops, and only then')
        else:
            res.bad('handoff', who + ' (Stop)', 'that does not happen exactly when recording stops', x.where)
    told(R, res, rec, outer)
    made(R, res)
    res.need('events', len(R.variants), 3)
    kept(prog, res)
    res.cov.update(functions=len(I.inlined) + 3, roots=[R.fn.npath])
    res.notes.append('What a buffer holds is not modelled: that copy_from copies is R23.')


def pre_or(cu, rec):
    return cu


def told(R, res, rec, outer):
    """the other side is told when recording starts and stops"""
    I, A, prog, who, w = R.I, R.A, R.prog, R.who, R.w
    start, stop, data = (vidx(prog, NOTE, x) for x in ('Start', 'Stop', 'Data'))
    rep0 = mk('field', mk('deref0', A.arg(1)), *R.rep)
    rec0 = mk('field', mk('deref0', A.arg(1)), *R.rec)
    states = [e for e in R.sends() if all(t.a[1] != data for t in subterms(e.args[1]) if t.op == 'adt' and tname(prog, t.a[0]) == NOTE)]
    first = [e for e in states if not e.loops]
    init = next((i for p, (b, pa, i, s) in R.inf.phis.items() if b == R.base and tuple((x[1], x[2]) for x in pa) == (R.rep,)), None)
    init = init if init is not None else rep0
    if len(first) != 1:
        res.bad('told', who, 'it is not told at the start of a block that recording started or stopped', w)
    else:
        e = first[0]
        okl, fail = (notb(mk('is', e.ret, 1)), mk('is', e.ret, 0)), (mk('is', e.ret, 1), notb(mk('is', e.ret, 0)))
        good = True
        for r, p in ((1, 0), (0, 1), (0, 0), (1, 1)):
            ls = ((rec0 if r else notb(rec0)), (rep0 if p else notb(rep0)))
            sent = all(deep(g, ls) is TRUE for g in e.pc)
            nots = any(deep(g, ls) is FALSE for g in e.pc)
            m = deep(e.args[1], ls)
            if r != p:
                good = good and sent and m.op == 'adt' and m.a[1] == (start if r else stop)
                good = good and deep(init, ls + okl) is (TRUE if r else FALSE) and deep(init, ls + fail) is (TRUE if p else FALSE)
            else:
                good = good and nots and deep(init, ls) is (TRUE if p else FALSE)
        if good:
            res.ok('told', who, 'at the start of every block it is told whether recording started or stopped, until that gets through')
        else:
            res.bad('told', who, 'it is not told at the start of a block whether recording started or stopped, until that gets through', e.where)
    idx = {id(e): i for i, e in enumerate(A.events)}
    rep = R.before((R.rep,))
    for e in states:
        if not e.loops:
            continue
        for ev in ('Start', 'Stop', 'ReturnBuffer'):
            lits = R.lits(ev)
            if any(deep(g, lits) is FALSE for g in e.pc):
                continue
            m = deep(e.args[1], lits)
            now = R.after((R.rec,), lits)
            rp = R.after((R.rep,), lits)
            okl, fail = (notb(mk('is', e.ret, 1)), mk('is', e.ret, 0)), (mk('is', e.ret, 1), notb(mk('is', e.ret, 0)))
            pc = tuple(e.pc) + lits
            good = m.op == 'adt' and m.a[1] == (start if now is TRUE else stop) and now in (TRUE, FALSE) and \
                deep(rp, pc + okl) is now and deep(rp, pc + fail) in (deep(rep, pc), rep)
            if good:
                res.ok('told', '%s (%s)' % (who, ev), 'what is told is the state of the recorder')
            else:
                res.bad('told', '%s (%s)' % (who, ev), 'what is told is not the state of the recorder', e.where)
            if ev == 'Stop' and m.op == 'adt' and m.a[1] == stop:
                if all(idx[id(x)] < idx[id(e)] for x in outer):
                    res.ok('told', '%s (%s)' % (who, ev), 'all that was recorded is given away before')
                else:
                    res.bad('told', '%s (%s)' % (who, ev), 'it is told that recording stopped before all of it is given away', e.where)


def made(R, res):
    """a new recorder does not record, and its node neither"""
    prog = R.prog
    n = 0
    for f, C, es in constructors(prog):
        for e in es:
            for box, t in zip(e.args, e.argtys):
                if C.I.tk(t)['k'] != 'adt' or 'Box' not in C.I.tk(t)['path']:
                    continue
                fn, v = processor_of(prog, C, box)
                if fn is not R.fn:
                    continue
                n += 1
                if [deep(C.I.pf(v, *x), ()) for x in (R.rec, R.rep, R.place)] == [FALSE, FALSE, ZERO]:
                    res.ok('made', short(f), 'a new recorder does not record, and has recorded nothing')
                else:
                    res.bad('made', short(f), 'a new recorder records, or has recorded something', f.where)
                nodes = [t for t in allterms(C) if t.op == 'adt' and 'recorder_node::Recorder' in prog.types[t.a[0]].get('path', '')]
                fs = prog.types[nodes[0].a[0]]['fields'][0] if nodes else []
                good = len(set(nodes)) == 1
                for i, t in enumerate(fs):
                    x = C.I.pf(nodes[0], 0, i)
                    if prog.types[t]['s'] == 'bool':
                        good = good and x is FALSE
                    if prog.types[t]['k'] == 'adt' and prog.types[t]['path'].endswith('Option'):
                        good = good and none(x)
                if good:
                    res.ok('made', short(f), 'nor is a new one said to record or to have recorded')
                else:
                    res.bad('made', short(f), 'a new one is said to record or to have recorded', f.where)
    res.need('made', n, 1)


def allterms(A):
    for e in A.events:
        for x in e.args:
            yield from subterms(x)
    for v in A.st.mem.values() if hasattr(A.st, 'mem') else ():
        yield from subterms(v)
    yield from subterms(A.ret)


def kept(prog, res):
    """the other side keeps what it is given, in order"""
    b = opaque_calls('OwnedAudioBuffer::extended_with_buffer', 'OwnedAudioBuffer::from_buffer')
    owner = None
    node = []
    for f in prog.local():
        if f.blocks and f.argc and f.trait is None and prog.types[f.locals[1][0]]['k'] == 'ref':
            t = prog.types[prog.types[f.locals[1][0]]['e']]
            if t['k'] == 'adt' and t['path'].endswith('recorder_node::Recorder'):
                node.append(f)
    reach = {f.key for f in node if 'try_recv' in str(f.blocks) or 'try_iter' in str(f.blocks)}
    while True:
        more = {f.key for f in node if f.key not in reach and any(k in str(f.blocks) for k in reach)}
        if not more:
            break
        reach |= more
    loops = [f for f in node if f.key in reach and not any(g is not f and g.key in reach and f.key in str(g.blocks) for g in node)]
    if len(loops) != 1:
        raise NoAnswer('where the recorder node receives its notifications cannot be resolved')
    f = loops[0]
    A = analyse(prog, f, b, 'recnode')
    I = A.I
    who, w = short(f), f.where
    base = ('P', A.arg(1))
    rs = [e for e in A.events if e.kind == 'chan' and e.name.endswith('try_recv')]
    if len(rs) == 1 and not rs[0].loops and not any(f.key in str(g.blocks) for g in node):
        res.bad('kept', who, 'only one of the notifications that wait is received', rs[0].where)
        return
    if len(rs) != 1 or len(rs[0].loops) != 1:
        raise NoAnswer('the loop over the notifications of the recorder node cannot be resolved')
    r, l = rs[0].ret, rs[0].loops[0]
    phis = {tuple((x[1], x[2]) for x in pa): (p, s) for p, (bb, pa, i, s) in I.loops[l].phis.items() if bb == base and all(len(x) == 3 for x in pa)}
    ends = exits_of(l)
    if len(rs[0].pc) == 0 and ends and all(len(x) == 1 and tuple(x)[0] in (mk('is', r, 1), notb(mk('is', r, 0))) for x in ends):
        res.ok('kept', who, 'every notification that waits is received')
    else:
        res.bad('kept', who, 'not every notification that waits is received', w)
    ty = I.pointee_ty(f.locals[1][0])
    fs = prog.types[ty]['fields'][0]
    flag = [(0, i) for i, t in enumerate(fs) if prog.types[t]['s'] == 'bool']
    keep = [(0, i) for i, t in enumerate(fs) if prog.types[t]['k'] == 'adt' and prog.types[t]['path'].endswith('Option') and tname(prog, prog.types[t]['args'][0]) == 'OwnedAudioBuffer']
    if len(flag) != 1 or len(keep) != 1:
        raise NoAnswer('the state of the recorder node cannot be resolved')
    flag, keep = flag[0], keep[0]
    f0, f1 = phis.get((flag,), (mk('field', mk('deref0', A.arg(1)), *flag),) * 2)
    k0, k1 = phis.get((keep,), (mk('field', mk('deref0', A.arg(1)), *keep),) * 2)
    note = I.pf(r, 0, 0)
    got = (notb(mk('is', r, 1)), mk('is', r, 0))
    kinds = {n: vidx(prog, NOTE, n) for n in ('Start', 'Data', 'Stop')}
    for n, vi in kinds.items():
        lits = got + tuple(mk('is', note, j) if j == vi else notb(mk('is', note, j)) for j in kinds.values())
        c = '%s (%s)' % (who, n)
        want = {'Start': TRUE, 'Stop': FALSE, 'Data': f0}[n]
        if deep(f1, lits) is want:
            res.ok('kept', c, 'whether it records is what it was told last')
        else:
            res.bad('kept', c, 'whether it records is not what it was told last', w)
        if n != 'Data':
            if deep(k1, lits) is k0:
                res.ok('kept', c, 'the recording stays as it is')
            else:
                res.bad('kept', c, 'the recording does not stay as it is', w)
            continue
        buf, used = I.pf(note, vi, 0), I.pf(note, vi, 1)
        for has in (1, 0):
            ls = lits + ((mk('is', k0, 1), notb(mk('is', k0, 0))) if has else (notb(mk('is', k0, 1)), mk('is', k0, 0)))
            x = deep(k1, ls)
            y = I.pf(x, 1, 0) if x.op == 'adt' and x.a[1] == 1 else None
            e = ret_event(A, y) if y is not None and y.op == 'ret' else None
            lab = 'after what was recorded before' if has else 'from the start'
            good = e is not None and (e.name or '').endswith('extended_with_buffer' if has else 'from_buffer')
            if good and has:
                good = A.at(e, e.args[0]) is I.pf(k0, 1, 0)
            if good:
                wd = window_of(A, e, e.args[-1])
                good = wd is not None and wd[0] is buf and wd[1] is ZERO and wd[2] is ZERO and wd[4] is used
            if good and all(deep(g, ls) is not FALSE for g in e.pc):
                res.ok('kept', c, 'what was recorded is kept, %s' % lab)
            else:
                res.bad('kept', c, 'what was recorded is not kept, %s' % lab, w)
        back = [e for e in A.events if e.kind == 'chan' and e.name.endswith('::send')]
        rb = vidx(prog, EVENT, 'ReturnBuffer')
        good = [e for e in back if any(t.op == 'adt' and tname(prog, t.a[0]) == EVENT and t.a[1] == rb and t.a[2] is buf for t in subterms(e.args[1]))]
        good = [e for e in good if all(deep(g, lits) is TRUE or g.op == 'ret' or g.op == 'not' and g.a[0].op == 'ret' for g in e.pc)]
        if len(good) == 1:
            res.ok('kept', c, 'the buffer goes back to the recorder')
        else:
            res.bad('kept', c, 'the buffer does not go back to the recorder', w)
    # what the user is told
    n = 0
    for g in node:
        if g is f or not g.locals:
            continue
        rt = prog.types[g.locals[0][0]]
        isopt = rt['k'] == 'adt' and rt['path'].endswith('Option') and tname(prog, rt['args'][0]) == 'OwnedAudioBuffer'
        if not isopt and rt['s'] != 'bool':
            continue
        B = analyse(prog, g, b, 'recnode')
        slf = mk('deref0', B.arg(1))
        if isopt:
            n += 1
            was = mk('field', slf, *keep)
            now = B.I.read(B.st, ('P', B.arg(1)), (('f',) + keep,))
            if B.ret is was and none(B.I.simp(now, ())):
                res.ok('taken', short(g), 'the recording is taken whole, and a new one begins')
            else:
                res.bad('taken', short(g), 'the recording is not taken whole, or no new one begins', g.where)
        else:
            n += 1
            if B.ret is mk('field', slf, *flag):
                res.ok('taken', short(g), 'it is said to record when it was told so last')
            else:
                res.bad('taken', short(g), 'it is not said to record when it was told so last', g.where)
    res.need('queries of the recorder node', n, 2)


def window_of(A, e, ref):
    """(what, first channel, first frame, channels, frames) of the window on a buffer a reference points at"""
    v = A.at(e, ref)
    wd = window(A, e, v)
    if wd is None:
        return None
    return (A.at(e, wd[0]),) + tuple(wd[1:])


RULES = {'R22': r22}
