"""R17, R18: timed events of the adsr, the sampler and the recorder."""
from q import *
from .engine import name, ret_event
from .params import adt, fidx, vidx, self_field, opaque_calls, short, raw, refsubst
import interp
from interp import EXITS

EDGE = ('EventProcessor::next_event', 'EventProcessor::receive_events')


class Ep:
    """where an event processor keeps its state"""
    def __init__(self, prog):
        t = None
        for ty in prog.types.values():
            if ty and ty['k'] == 'adt' and ty['path'].endswith('::EventProcessor'):
                t = ty
        if t is None:
            raise NoAnswer('no type EventProcessor')
        fl = t['fields'][0]
        pend = [i for i, f in enumerate(fl) if tname(prog, f) in ('Vec', 'VecDeque')]
        rate = [i for i, f in enumerate(fl) if prog.tystr(f) == 'usize']
        chan = [i for i, f in enumerate(fl) if 'Receiver' in prog.tystr(f)]
        if len(pend) != 1 or len(rate) != 1 or len(chan) != 1:
            raise NoAnswer('the state of an event processor cannot be resolved')
        self.pend, self.rate, self.chan = pend[0], rate[0], chan[0]


def event_types(prog):
    """(name of the event type, its receive function, its take function)"""
    rec = fns(prog, 'EventProcessor::receive_events')
    nxt = fns(prog, 'EventProcessor::next_event')
    out = []
    for r in rec:
        ty = prog.tystr(r.locals[1][0])
        m = [n for n in nxt if prog.tystr(n.locals[1][0]) == ty]
        if len(m) != 1:
            raise NoAnswer('no way to take an event of %s' % ty)
        out.append((ty, r, m[0]))
    return out


def getters(prog, ev):
    """the time and the sequence number of an event, as functions of a term for the event"""
    out = {}
    for m in ('get_time', 'sequence_number', 'should_clear_queue'):
        fs = [f for f in prog.trait_method('EventProcessorEvent', m) if f.blocks and (f.selfty or '').endswith(ev)]
        if len(fs) != 1:
            raise NoAnswer('no %s of %s' % (m, ev))
        A = analyse(prog, fs[0])
        out[m] = A
    return out


def evname(ty):
    s = ty.split('<')[-1].rstrip('>')
    return s.rsplit('::', 1)[-1]


def is_time(t, G, elem):
    A = G['get_time']
    return subst(A.ret, {mk('sym', 'arg1'): elem})


def r17(prog, res, tier):
    ep = Ep(prog)
    k = 0
    for ty, R, N in event_types(prog):
        ev = evname(ty)
        G = getters(prog, ev)
        own = {m: self_field(G[m], G[m].ret) for m in ('get_time', 'sequence_number')}
        for m, what in (('get_time', 'time'), ('sequence_number', 'sequence number')):
            if own[m] and len(own[m]) == 1:
                res.ok('keys', ev, 'its %s is the one it was made with' % what)
            else:
                res.bad('keys', ev, 'its %s is not the one it was made with' % what, G[m].fn.where)
        if not all(own.values()):
            continue
        k += 1
        receive(prog, res, ep, ev, R, own)
        take(prog, res, ep, ev, N, own)
    res.need('event types', k, 3)
    n = 0
    up = upward(prog, fns(prog, EDGE[0]))
    for f in prog.trait_method('DspProcessor', 'process_audio'):
        if f.blocks and f.key in up:
            n += 1
            loop(prog, res, ep, f)
    res.need('nodes with events', n, 3)
    res.cov.update(functions=2 * k + n + 3 * k, roots=[f for _, r, x in event_types(prog) for f in (r.npath, x.npath)])
    res.notes.append('The queue of events is one list; every way it changes in a callback was enumerated (receive, order, take), and the loop of each node '
                     'that takes events was reduced to its inductive step.')


def upward(prog, targets):
    """functions from which one of the targets can be called"""
    seen = {f.key for f in targets}
    todo = list(targets)
    loc = [(g, str(g.blocks)) for g in prog.local() if g.blocks]
    while todo:
        f = todo.pop()
        for g, t in loc:
            if g.key not in seen and f.key in t:
                seen.add(g.key)
                todo.append(g)
    return seen


def fieldref(A, path):
    return mk('ref', ('P', A.arg(1)), tuple(('f', v, i) for v, i in path))


def receive(prog, res, ep, ev, f, own):
    A = analyse(prog, f, opaque_calls('::should_clear_queue'), 'receive')
    I = A.I
    who = '%s (%s)' % (short(f), ev)
    rv = [e for e in A.events if e.kind == 'chan']
    if len(rv) != 1 or last(rv[0].name) != 'try_recv' or len(rv[0].loops) != 1:
        res.bad('received', who, 'events are not received in one loop', f.where)
        return
    r = rv[0]
    L = r.loops[0]
    q = r.args[0]
    if not (q.op == 'ref' and q.a[0] == ('P', A.arg(1)) and tuple(q.a[1]) == (('f', 0, ep.chan),)):
        res.bad('received', who, 'events are received from another channel', r.where)
    ex = [e for e in A.events if e.kind == 'exit']
    got, no = mk('is', r.ret, 0), mk('is', r.ret, 1)
    base = ('P', A.arg(1))
    inf = I.loops[L]
    if r.gates and any(not terms_exit(g) for g in r.gates):
        res.bad('received', who, 'events are received only if %s' % str(r.gates[0])[:80], r.where)
        return
    ph = [(p, i, s) for p, (b, pa, i, s) in inf.phis.items() if b == base and tuple(pa) == (('f', 0, ep.pend),)]
    if len(ph) != 1:
        res.bad('received', who, 'a received event does not join the waiting ones', f.where)
        return
    p, i, s = ph[0]
    msg = I.pf(r.ret, 0, 0)
    s = deep(s, (got, notb(no)))
    if s.op == 'push' and s.a[1] is msg and i is fieldpath(A, ((0, ep.pend),)):
        res.ok('received', who, 'every event that is received joins the waiting ones')
    else:
        res.bad('received', who, 'a received event does not join the waiting ones in every case', f.where)
        return
    kept = s.a[0]
    clear = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith('should_clear_queue')]
    if kept is p:
        res.ok('kept', who, 'no waiting event is dropped')
    elif len(clear) == 1 and deep(kept, (clear[0].ret,)).op == 'empty' and deep(kept, (notb(clear[0].ret),)) is p and \
            A.at(clear[0], clear[0].args[0]) is msg:
        res.ok('kept', who, 'waiting events are dropped only when the event that is received asks for it')
    else:
        res.bad('kept', who, 'waiting events are dropped without being asked for', f.where)
    # until there is none
    outs = exits_of(L)
    if len(outs) == 1 and any(x in (no, notb(got)) for x in outs[0]):
        res.ok('all', who, 'receives until none is left')
    else:
        res.bad('all', who, 'stops receiving while events are left', f.where)
    # in order
    fin = I.pf(A.final(base), 0, ep.pend)
    flags = [(x, i0, s0) for x, (b, pa, i0, s0) in inf.phis.items() if i0 is FALSE and s0 is TRUE]
    x = fin
    for fl, _, _ in flags:
        a, b = deep(x, (fl,)), deep(x, (notb(fl),))
        if b is p and a.op == 'sorted':
            x = a
    if x.op == 'sorted' and x.a[-1] is p or x.op == 'sorted' and p in x.a:
        c = [t for t in x.a if isinstance(t, type(p)) and t is not p]
        if c and ordered(prog, A, c[0], own):
            res.ok('ordered', who, 'what waits is put in order of time, and of the calls for equal times')
        else:
            res.bad('ordered', who, 'what waits is not put in order of time, and of the calls for equal times', f.where)
    else:
        res.bad('ordered', who, 'what waits is not put in order', f.where)


def terms_exit(g):
    return any(t.op == 'exit' for t in subterms(g))


def fieldpath(A, path):
    v = mk('deref0', A.arg(1))
    for var, i in path:
        v = A.I.pf(v, var, i)
    return v


def exits_of(L):
    """what held at each exit of a loop"""
    return [fs for k, fs in EXITS.items() if k.op == 'exit' and k.a[0] == L]


def ordered(prog, A, c, own):
    ea, eb = mk('deref0', mk('sym', 'elemA')), mk('deref0', mk('sym', 'elemB'))

    def time(e):
        v = e
        for var, i in own['get_time']:
            v = A.I.pf(v, var, i)
        return raw(A, v)

    def seq(e):
        v = e
        for var, i in own['sequence_number']:
            v = A.I.pf(v, var, i)
        return v
    ta, tb, sa, sb = time(ea), time(eb), seq(ea), seq(eb)

    def rel(a, b, r):
        if r < 0:
            return (lt(a, b), le(a, b), notb(lt(b, a)), notb(eq(a, b)))
        if r > 0:
            return (lt(b, a), le(b, a), notb(lt(a, b)), notb(eq(a, b)))
        return (eq(a, b), le(a, b), le(b, a), notb(lt(a, b)), notb(lt(b, a)))
    if c.op == 'tuple' and len(c.a) == 2:
        # the key of an element: keys are compared part by part
        return raw(A, c.a[0]) is ta and c.a[1] is sa
    want = {-1: 0, 0: 1, 1: 2}
    for r in (-1, 0, 1):
        for s in (-1, 0, 1):
            v = deep(c, rel(ta, tb, r) + rel(sa, sb, s))
            w = r or s
            if v.op != 'adt' or v.a[1] != want[w]:
                return False
    return True


def take(prog, res, ep, ev, f, own):
    A = analyse(prog, f)
    I = A.I
    who = '%s (%s)' % (short(f), ev)
    base = ('P', A.arg(1))
    pend = fieldpath(A, ((0, ep.pend),))
    rate = fieldpath(A, ((0, ep.rate),))
    start, cur, count = mk('deref0', A.arg(2)), mk('deref0', A.arg(3)), A.arg(4)
    head = I.select(pend, ZERO)

    def get(m):
        v = head
        for var, i in own[m]:
            v = I.pf(v, var, i)
        return v
    ht = raw(A, get('get_time'))
    _, end = refsubst(prog, 'Timestamp::incremented_by_samples',
                      {mk('deref0', mk('sym', 'arg1')): start, mk('sym', 'arg2'): count, mk('sym', 'arg3'): rate})
    end = raw(A, end)
    some, none = (le(ONE, mk('len', pend)), notb(le(mk('len', pend), ZERO))), (le(mk('len', pend), ZERO), notb(le(ONE, mk('len', pend))))
    due, not_due = (lt(ht, end), notb(le(end, ht))), (le(end, ht), notb(lt(ht, end)))
    if A.ret.op != 'tuple' and A.ret.op != 'ite':
        raise NoAnswer('what %s gives cannot be resolved' % who)
    fin = I.pf(A.final(base), 0, ep.pend)
    at, opt = A.pf(A.ret, 0), A.pf(A.ret, 1)
    for lits, what in ((none, 'no event waits'), (some + not_due, 'the first event lies after the block')):
        o, q, t = deep(opt, lits), deep(fin, lits), deep(at, lits)
        if o.op == 'adt' and o.a[1] == 0 and q is pend and t is count:
            res.ok('not-early', who, 'nothing is taken when %s, and the rest of the block is left to be rendered' % what)
        elif o.op == 'adt' and o.a[1] == 0 and q is pend:
            res.bad('not-early', who, 'the rest of the block is not rendered when %s' % what, f.where)
        else:
            res.bad('not-early', who, 'an event is taken or lost when %s' % what, f.where)
    lits = some + due
    o, q = deep(opt, lits), deep(fin, lits)
    if o.op == 'adt' and o.a[1] == 1 and o.a[2] is head:
        res.ok('taken', who, 'the first event is taken when it lies before the end of the block')
    else:
        res.bad('taken', who, 'the first event is not taken when it lies before the end of the block', f.where)
    if q.op in ('removed', 'popped') and q.a[0] is pend and (len(q.a) < 2 or q.op == 'popped' or q.a[1] is ZERO) and 'swap' not in str(q.a[-1]):
        res.ok('once', who, 'an event that is taken leaves the list, which keeps its order')
    else:
        res.bad('once', who, 'an event that is taken stays in the list, or the list loses its order', f.where)
    ct = raw(A, cur)
    later, earlier = (le(ct, ht), notb(lt(ht, ct))), (lt(ht, ct), notb(le(ct, ht)))
    for l2, want, what in ((later, ht, 'the frame its time lies in'), (earlier, ct, 'the current frame when its time has passed')):
        t = deep(at, lits + l2)
        for x in list(subterms(t)):
            if x.op == 'app' and x.a[0] == 'ord_max':
                ys = [y for y in x.a[1:] if raw(A, y) is want]
                if ys:
                    t = subst(t, {x: ys[0]})
            elif x.op == 'max' and set(x.a) == {ct, ht}:
                t = subst(t, {x: want})
        t = deep(t, lits + l2)
        w = refsubst(prog, 'Timestamp::as_samples', {mk('deref0', mk('sym', 'arg1')): mk('sym', 'DIFF'), mk('sym', 'arg2'): rate})[1]
        w = subst(w, {raw(A, mk('sym', 'DIFF')): sub(want, raw(A, start))})
        x = t.a[0] if t.op == 'f2i' else t
        while x.op == 'app' and x.a[0] in ('floor', 'trunc'):
            x = x.a[1]
        if t.op == 'f2i' and x is w:
            res.ok('frame', who, 'an event takes effect in %s' % what)
        else:
            res.bad('frame', who, 'an event does not take effect in %s' % what, f.where)


def loop(prog, res, ep, f):
    A = analyse(prog, f, opaque_calls(*EDGE), 'events')
    I = A.I
    who = short(f)
    rec = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith(EDGE[1])]
    nxt = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith(EDGE[0])]
    if len(rec) == 1 and not rec[0].gates and not rec[0].loops and all(rec[0].seq < n.seq for n in nxt):
        res.ok('received', who, 'what was sent is received first in every call')
    else:
        res.bad('received', who, 'what was sent is not received in every call before events are handled', f.where)
        return
    if len(nxt) != 1 or len(nxt[0].loops) != 1:
        res.bad('segments', who, 'events are not taken in one loop over the block', f.where)
        return
    n = nxt[0]
    L = n.loops[0]
    inf = I.loops[L]
    opt, end = I.pf(n.ret, 0, 1), I.pf(n.ret, 0, 0)
    if n.args[0] is not rec[0].args[0]:
        res.bad('segments', who, 'events are taken from another queue than they are received into', n.where)
        return
    ctx = mk('deref0', A.arg(2))
    fst, fin_, fout = (fidx(prog, 'ProcessContext', x) for x in ('start_time', 'input_buffer', 'output_buffer'))
    start = I.pf(ctx, 0, fst)
    frames = [mk('app', 'frame_count', mk('deref0', I.pf(ctx, 0, x))) for x in (fin_, fout)]
    counts = frames + [imin(*frames)]
    if n.args[1] is start:
        res.ok('segments', who, 'times are measured from the start of the block')
    else:
        res.bad('segments', who, 'times are not measured from the start of the block', n.where)
    count = n.args[3]
    if count in counts:
        res.ok('segments', who, 'the whole block is covered')
    else:
        res.bad('segments', who, 'the frames that are covered are not those of the block', n.where)
    pos = [(p, i, s) for p, (b, pa, i, s) in inf.phis.items() if i is ZERO and s is end]
    if len(pos) != 1:
        res.bad('segments', who, 'a segment does not start where the one before ended', f.where)
        return
    pos = pos[0][0]
    res.ok('segments', who, 'each segment starts where the one before ended, the first at frame 0')
    outs = exits_of(L)
    stop = (le(count, pos), notb(lt(pos, count)))
    if tuple(g for g in n.gates if not terms_exit(g)) == (lt(pos, count),) and len(outs) <= 1:
        res.ok('segments', who, 'goes on until the end of the block')
    else:
        res.bad('segments', who, 'can stop before the end of the block', f.where)
    now = A.at(n, n.args[2])
    nt = raw(A, now)
    ph = [(p, i, s) for p, (b, pa, i, s) in inf.phis.items() if p is nt or contains(nt, lambda t: t is p) and p is not pos]
    good = False
    for p, i, s in ph:
        bits = [t for t in (i, I.pf(i, 0, 0), raw(A, i)) if t is raw(A, mk('deref0', start))]
        if bits:
            new = s.a[0] if s.op == 'fixed' else raw(A, s) if s.op == 'adt' else I.pf(s, 0, 0)
            d, d2 = sub(new, nt), sub(new, bits[0])
            for x, want in ((d, sub(end, pos)), (d2, end)):
                if x.op == 'app' and x.a[0] == 'fixed_from_num' and x.a[1].op == 'fdiv' and x.a[1].a[0] is mk('i2f', want) and is_rate(A, x.a[1].a[1]):
                    good = True
    if good:
        res.ok('clock', who, 'the time follows the frames that were rendered')
    else:
        res.bad('clock', who, 'the time does not follow the frames that were rendered', n.where)
    # an event is handled in every case, after the segment before it
    some, none = (mk('is', opt, 1), notb(mk('is', opt, 0))), (mk('is', opt, 0), notb(mk('is', opt, 1)))
    evt = I.pf(opt, 1, 0)
    base = ('P', A.arg(1))
    variants = sorted({t.a[1] for p, (b, pa, i, s) in inf.phis.items() for t in subterms(s) if t.op == 'is' and contains(t.a[0], lambda x: x is evt)})
    kinds = {t.a[0] for p, (b, pa, i, s) in inf.phis.items() for t in subterms(s) if t.op == 'is' and contains(t.a[0], lambda x: x is evt)}
    if len(kinds) != 1:
        raise NoAnswer('how the kinds of events are told apart in %s cannot be resolved' % who)
    kind = next(iter(kinds))
    hint = [N for _, _, N in event_types(prog) if N.key == n.inst]
    nv = variants_of(prog, kind, evt, hint[0] if hint else None)
    early = [l for l in I.loops if l != L and within_loop(A, l, L) and not mentions_any(I.loops[l].pc, opt) and
             any(b == base and contains(i, lambda t: t is evt) for b, pa, i, s in I.loops[l].phis.values())]
    if early:
        res.bad('handled', who, 'an event is handled before the frames before it are rendered', f.where)
    for v, vn in nv:
        lits = some + tuple(mk('is', kind, v) if j == v else notb(mk('is', kind, j)) for j, _ in nv)
        changed = False
        cond = None
        for p, (b, pa, i, s) in inf.phis.items():
            if b != base:
                continue
            x, y = deep(s, lits), deep(s, none)
            if x is y:
                continue
            changed = True
            for t in subterms(x):
                if t.op == 'ite' and t.a[0] not in subterms(y) and directly(t.a[0], (pos, end)):
                    cond = t.a[0]
        if not changed:
            # or something is handed on
            changed = any(e.kind in ('vec', 'chan') and any(x in (mk('is', kind, v),) for x in e.pc) for e in A.events)
        if changed and cond is None:
            res.ok('handled', '%s (%s)' % (who, vn), 'is handled when it is taken, after the frames before it')
        elif changed:
            res.bad('handled', '%s (%s)' % (who, vn), 'is handled only if %s' % str(cond)[:100], f.where)
        else:
            res.bad('handled', '%s (%s)' % (who, vn), 'has no effect when it is taken', f.where)
    res.need('kinds of events of %s' % who, len(nv), 2)


def within_loop(A, l, L):
    """is loop l nested in loop L: its phis start from what L carries"""
    return any(contains(i, lambda t: t.op == 'phi' and t.a[0] == L or t is mk('k', L)) for b, pa, i, s in A.I.loops[l].phis.values())


def mentions_any(pc, t):
    return any(contains(g, lambda x: x is t) for g in pc)


def directly(c, what):
    """does a condition compare one of these numbers itself (and not something computed from a time)"""
    for x in subterms(c):
        if x.op in ('le0', 'eq0'):
            _, m = poly_parts(x.a[0])
            if any(t in what for t in m):
                return True
    return False


def is_rate(A, t):
    t = t.a[0] if t.op == 'i2f' else t
    return t.op == 'app' and t.a[0] == 'sample_rate' or self_field(A, t) is not None and len(self_field(A, t)) >= 1


def variants_of(prog, kind, evt, hint=None):
    """(number, name) of the variants of the enum that is a field of an event"""
    if kind.op != 'field' or kind.a[0] is not evt:
        raise NoAnswer('how the kinds of events are told apart cannot be resolved')
    best = None
    for ty, R, N in event_types(prog):
        if hint is not None and N is not hint:
            continue
        for t in prog.types.values():
            if t and t['k'] == 'adt' and t['path'].endswith('::' + evname(ty)) and kind.a[2] < len(t['fields'][0]):
                e = prog.types[t['fields'][0][kind.a[2]]]
                if e['k'] == 'adt' and e['path'].endswith('Type'):
                    best = e['path']
    if best is None:
        raise NoAnswer('the kinds of events cannot be resolved')
    return [(i, v['n']) for i, v in enumerate(adt(prog, best)['variants'])]


# -- R18 ---------------------------------------------------------------------------------------------
Z = 'now'
CALLS = {  # type -> (enum of its events, {method: [(variant, time argument, payload arguments)]})
    'Adsr': ('AdsrEventType', {
        'note_on_at_time': [('NoteOn', 2, ())],
        'note_off_at_time': [('NoteOff', 2, ())],
        'set_attack_time': [('SetAttack', Z, (2,))],
        'set_decay_time': [('SetDecay', Z, (2,))],
        'set_sustain_level': [('SetSustain', Z, (2,))],
        'set_release_time': [('SetRelease', Z, (2,))],
        'set_adsr': [('SetAttack', Z, (2,)), ('SetDecay', Z, (3,)), ('SetSustain', Z, (4,)), ('SetRelease', Z, (5,))],
    }),
    'Sampler': ('SampleEventType', {
        'start_now': [('StartImmediate', Z, ())],
        'stop_now': [('Stop', Z, ())],
        'start_from_position_at_time': [('Start', 2, (3,))],
        'stop_at_time': [('Stop', 2, ())],
        'enable_loop': [('EnableLoop', Z, (2, 3))],
        'cancel_loop': [('CancelLoop', Z, ())],
        'cancel_all': [('CancelAll', Z, ())],
        'enable_loop_at_time': [('EnableLoop', 2, (3, 4))],
        'cancel_loop_at_time': [('CancelLoop', 2, ())],
    }),
    'Recorder': ('RecorderEventType', {
        'record_now': [('Start', Z, ())],
        'stop_record_now': [('Stop', Z, ())],
        'stop_record_at_time': [('Stop', 2, ())],
    }),
}


def r18(prog, res, tier):
    from .params import constructors, processor_of, leafpaths_deep
    zero = analyse(prog, fn(prog, 'Timestamp::zero')).ret
    k = 0
    own = {}
    for ty, R, N in event_types(prog):
        G = getters(prog, evname(ty))
        own[evname(ty)] = {m: self_field(G[m], G[m].ret) for m in ('get_time', 'sequence_number')}
        clears(prog, res, evname(ty), G['should_clear_queue'])
    counters = {}
    fields = {}
    for ty, (enum, calls) in CALLS.items():
        for m, want in calls.items():
            f = fn(prog, '%s::%s' % (ty, m))
            k += 1
            A = analyse(prog, f)
            I = A.I
            who = short(f)
            sends = [e for e in A.events if e.kind == 'chan']
            if len(sends) != len(want) or any(last(e.name) not in ('send', 'try_send') or e.gates or e.loops for e in sends):
                res.bad('one-event', who, 'does not send exactly %s in every call' % ('one event' if len(want) == 1 else '%d events' % len(want)), f.where)
                continue
            res.ok('one-event', who, 'sends exactly %s' % ('one event' if len(want) == 1 else 'one event for each setting'))
            left = list(want)
            seqs = []
            for e in sends:
                q = e.args[0]
                if q.op == 'ref' and q.a[0] == ('P', A.arg(1)) and len(q.a[1]) >= 1:
                    fields.setdefault(ty, set()).add(tuple(q.a[1]))
                else:
                    res.bad('queue', who, 'sends on something other than its own channel', e.where)
                v = e.args[1]
                at = [o for n_, o in own.items() if v.op == 'adt' and prog.types[e.argtys[1]]['path'].endswith('::' + n_)]
                if len(at) != 1 or not all(at[0].values()):
                    raise NoAnswer('the event %s sends cannot be resolved' % who)
                at = at[0]

                def get(path):
                    x = v
                    for var, i in path:
                        x = I.pf(x, var, i)
                    return x
                t, n_ = get(at['get_time']), get(at['sequence_number'])
                kd = [x for j, x in enumerate(v.a[2:]) if x.op == 'adt' and ((0, j),) not in at.values()]
                if len(kd) != 1:
                    raise NoAnswer('the kind of event %s sends cannot be resolved' % who)
                kd = kd[0]
                hit = None
                for w in left:
                    if kd.a[1] == vidx(prog, enum, w[0]):
                        hit = w
                if hit is None:
                    res.bad('kind', who, 'sends another kind of event', e.where)
                    continue
                left.remove(hit)
                res.ok('kind', who, 'asks for %s' % hit[0])
                if t is (zero if hit[1] == Z else A.arg(hit[1])):
                    res.ok('time', who, 'for %s' % ('at once' if hit[1] == Z else 'the time it was given'))
                else:
                    res.bad('time', who, 'not for the time it was given' if hit[1] != Z else 'not at once', e.where)
                if len(kd.a) - 2 == len(hit[2]) and all(kd.a[2 + j] is A.arg(i) for j, i in enumerate(hit[2])):
                    res.ok('payload', who, 'with the values it was given')
                else:
                    res.bad('payload', who, 'not with the values it was given', e.where)
                src = [x for x in A.events if x.kind == 'atomic' and x.ret is n_]
                if len(src) == 1 and last(src[0].name) == 'fetch_add' and src[0].args[0].op == 'static' and src[0].args[1].op == 'int' and src[0].args[1].a[0] > 0 \
                        and n_ not in seqs:
                    seqs.append(n_)
                    counters.setdefault(ty, set()).add(src[0].args[0].a[0])
                    res.ok('sequence', who, 'the event has a later number than those of earlier calls')
                else:
                    res.bad('sequence', who, 'the event does not have a later number than those of earlier calls', e.where)
    for ty in CALLS:
        if len(counters.get(ty, ())) == 1:
            res.ok('sequence', ty, 'all its calls number their events from one counter')
        elif counters.get(ty):
            res.bad('sequence', ty, 'its calls do not number their events from one counter', '')
        if len(fields.get(ty, ())) == 1:
            res.ok('queue', ty, 'all its calls send on one channel')
        elif fields.get(ty):
            res.bad('queue', ty, 'its calls send on more than one channel', '')
    # the channel leads to the processor of its own node
    n = 0
    ep = Ep(prog)
    for f, C, es in constructors(prog):
        got = processor_of(prog, C, es[0].args[4])
        if got is None:
            continue
        P, v = got[0], got[1]
        h = handle_value(C)
        ty = owner(prog, f)
        if ty not in CALLS or ty not in fields or len(fields[ty]) != 1:
            continue
        n += 1
        x = h
        for q in next(iter(fields[ty])):
            x = C.I.pf(x, q[1], q[2])
        rx = [t for t in parts(v) if t.op == 'field' and t.a[1:] == (0, 1) and x.op == 'field' and t.a[0] is x.a[0]]
        if x.op == 'field' and x.a[1:] == (0, 0) and len(rx) == 1:
            res.ok('channel', short(f), 'the events of the handle reach the processor of its node')
        else:
            res.bad('channel', short(f), 'the events of the handle do not reach the processor of its node', f.where)
        rate = [t for t in parts(v) if t.op == 'adt' and len(t.a) == 5 and rx and rx[0] in t.a[2:]]
        if rate:
            r = rate[0].a[2 + ep.rate]
            if r.op == 'sym' or r.op == 'field':
                res.ok('channel', short(f), 'events are timed at the sample rate of the node')
            else:
                res.bad('channel', short(f), 'events are not timed at the sample rate of the node', f.where)
    res.need('event calls', k, 15)
    res.need('nodes with event channels', n, 3)
    res.cov.update(functions=k + n, roots=['%s::%s' % (t, m) for t in CALLS for m in CALLS[t][1]])
    res.notes.append('Every call was reduced to the events it sends; kind, time, values and number of each are compared with the argument they must come from.')


def clears(prog, res, ev, A):
    """which events drop what waits: only a request to cancel everything"""
    r = A.ret
    enum = [e for t, (e, _) in CALLS.items() if ev.startswith(t)]
    vs = [v['n'] for v in adt(prog, enum[0])['variants']]
    w = 'CancelAll'
    if r is FALSE:
        if w in vs:
            res.bad('clears', ev, 'cancelling everything does not drop what waits', A.fn.where)
        else:
            res.ok('clears', ev, 'no event drops what waits')
        return
    # the term compares the kind with a constant of the enum
    ks = [(t.a[0], t.a[1]) for t in subterms(r) if t.op == 'is']
    ok = w in vs and kind_test(prog, A, r, vs.index(w), vs)
    if ok:
        res.ok('clears', ev, 'only cancelling everything drops what waits')
    else:
        res.bad('clears', ev, 'what waits is dropped by something other than cancelling everything', A.fn.where)


def kind_test(prog, A, r, want, vs):
    """is the term true exactly for one variant of the kind"""
    kinds = {t.a[0] for t in subterms(r) if t.op in ('is', 'discr') and self_field(A, t.a[0])}
    if len(kinds) != 1:
        return False
    k = next(iter(kinds))
    for j in range(len(vs)):
        lits = [mk('is', k, i) if i == j else notb(mk('is', k, i)) for i in range(len(vs))]
        m = {t: INT(j) for t in subterms(r) if t.op == 'discr' and t.a[0] is k}
        v = deep(subst(r, m), lits)
        if v is not (TRUE if j == want else FALSE):
            return False
    return True


def parts(v):
    """the values a value is made of"""
    out = []
    st = [v]
    while st:
        x = st.pop()
        out.append(x)
        if x.op in ('adt', 'tuple', 'upd'):
            st += [y for y in x.a if hasattr(y, 'op')]
    return out


def handle_value(C):
    """what a constructor hands out, without its boxes and cells"""
    h = C.ret
    n = 0
    while n < 8:
        n += 1
        if h.op == 'box':
            h = C.final(h.a[0])
        elif h.op == 'cell':
            h = h.a[0]
        else:
            break
    return h


def owner(prog, f):
    return f.npath.split('::')[-2]


RULES = {'R17': r17, 'R18': r18}
