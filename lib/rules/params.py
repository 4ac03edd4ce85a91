"""R12-R14: parameters: the control side, the real-time side, and the way from one to the other."""
from q import *
from .engine import Engine, sent, name, exit_facts, ret_event, processor
from .graph import Nodes
import interp


def adt(prog, suffix):
    for p, a in prog.adts.items():
        if p == suffix or p.endswith('::' + suffix):
            return a
    raise NoAnswer('no type %s' % suffix)


def fidx(prog, suffix, field, variant=0):
    f = adt(prog, suffix)['variants'][variant]['f']
    if field not in f:
        raise NoAnswer('%s has no field %s' % (suffix, field))
    return f.index(field)


def vidx(prog, suffix, variant):
    for i, v in enumerate(adt(prog, suffix)['variants']):
        if v['n'] == variant:
            return i
    raise NoAnswer('%s has no variant %s' % (suffix, variant))


def raw(A, t):
    """the fixed-point number in a Timestamp value"""
    x = A.I.pf(t, 0, 0)
    return x.a[0] if x.op == 'fixed' else A.I.pf(x, 0, 0)


def self_field(A, t):
    """path of a term that is a field of what arg1 points at"""
    path = []
    while t.op == 'field':
        path.append((t.a[1], t.a[2]))
        t = t.a[0]
    return tuple(reversed(path)) if t is mk('deref0', A.arg(1)) else None


def clamped(t):
    """(value, lo, hi) of a limited value"""
    if t.op == 'app' and t.a[0] == 'clamp':
        return t.a[1:4]
    if t.op == 'app' and t.a[0] in ('min', 'max'):
        for i in (1, 2):
            x, y = t.a[i], t.a[3 - i]
            if x.op == 'app' and x.a[0] in ('min', 'max') and x.a[0] != t.a[0]:
                for j in (1, 2):
                    lo, hi = (y, x.a[3 - j]) if t.a[0] == 'max' else (x.a[3 - j], y)
                    if x.a[j].op != 'field' or x.a[j].op == 'sym':
                        return x.a[j], lo, hi
    if t.op == 'ite':
        from .mixing import leaves_of
        ls = list(leaves_of(t))
        xs = {l for _, l in ls if l.op == 'sym'}
        ends = {l for _, l in ls if l.op != 'sym'}
        if len(xs) == 1 and len(ends) == 2:
            x = next(iter(xs))

            def below(a, b, lits):
                return any(l in (mk('fle', a, b), mk('flt', a, b), notb(mk('flt', b, a)), notb(mk('fle', b, a))) for l in lits)
            for lo in ends:
                hi = next(iter(ends - {lo}))
                if all(below(lo, x, li) and below(x, hi, li) if l is x else below(x, lo, li) if l is lo else below(hi, x, li) for li, l in ls):
                    return x, lo, hi
    return None


def refsubst(prog, fname, m):
    """the result of a small pure function with its arguments replaced"""
    A = analyse(prog, fn(prog, fname))
    return A, subst(A.ret, m)


# -- R12 ---------------------------------------------------------------------------------------------
METHODS = {  # name -> (variant, value arg, time, method variant, start arg)
    'set_value_now': ('ParameterValueChange', 2, 'zero', 'Immediate', None),
    'set_value_at_time': ('ParameterValueChange', 2, 3, 'Immediate', None),
    'linear_ramp_to_value': ('ParameterValueChange', 2, 4, 'Linear', 3),
    'exponential_ramp_to_value': ('ParameterValueChange', 2, 4, 'Exponential', 3),
    'cancel_scheduled_changes': ('CancelParameterChanges', None, None, None, None),
    'cancel_scheduled_changes_ending_after': ('CancelParameterChanges', None, 2, None, None),
}


def r12(prog, res, tier):
    par = adt(prog, 'AudioParameter')
    nf = 0
    # the two halves as they are built
    N = analyse(prog, fn(prog, 'AudioParameter::new'))
    pair = N.ret
    if pair.op != 'tuple' or len(pair.a) != 2 or pair.a[0].op != 'adt' or pair.a[1].op != 'adt':
        raise NoAnswer('AudioParameter::new does not build its two halves in the open')
    ctl, rt = pair.a

    def holding(v, want):
        return [i for i, x in enumerate(v.a[2:]) if x is want]
    dsp, pid, rng = N.arg(1), N.arg(2), N.arg(3)
    fd, fp, fr = holding(ctl, dsp), holding(ctl, pid), holding(ctl, rng)
    who = N.fn.npath
    if len(fd) == 1 and len(fp) == 1 and len(fr) == 1:
        res.ok('halves', who, 'keeps its node, its name and its range')
        fd, fp, fr = fd[0], fp[0], fr[0]
    else:
        res.bad('halves', who, 'the handle does not keep the node, name and range it was made with', N.fn.where)
        return
    if holding(rt, pid):
        res.ok('halves', who, 'both halves have the same name')
    else:
        res.bad('halves', who, 'the real-time half has another name', N.fn.where)
    boxes = [x for x in ctl.a[2:] if x.op == 'box' and x in rt.a[2:]]
    shared = None
    if len(boxes) == 1:
        res.ok('halves', who, 'both halves share one published value')
        shared = boxes[0]
    else:
        res.bad('halves', who, 'the halves do not share the published value', N.fn.where)
        return
    # the initial value is the default of the range; the range holds what it was made with
    R = analyse(prog, fn(prog, 'ParameterRange::new'))
    D = analyse(prog, fn(prog, 'ParameterRange::default'))
    r = R.ret
    if r.op != 'adt':
        raise NoAnswer('ParameterRange::new does not build a range in the open')

    def pos(x):
        p = [i for i, y in enumerate(r.a[2:]) if y is x]
        return p[0] if len(p) == 1 else None
    rd, lo, hi = (pos(R.arg(i)) for i in (1, 2, 3))
    if None in (rd, lo, hi):
        res.bad('range', R.fn.npath, 'the range does not hold its default, minimum and maximum', R.fn.where)
        return
    res.ok('range', R.fn.npath, 'holds its default, minimum and maximum')
    pcs = set(R.st.pc)
    low, high = mk('fle', R.arg(2), R.arg(1)), mk('fle', R.arg(1), R.arg(3))
    if {low, high} <= pcs:
        res.ok('range', R.fn.npath, 'a range whose default is outside it is refused')
    else:
        res.bad('range', R.fn.npath, 'a range whose default is outside it is accepted', R.fn.where)
    if self_field(D, D.ret) != ((0, rd),):
        res.bad('range', D.fn.npath, 'does not give the default of the range', D.fn.where)
    init = N.final(shared.a[0])
    want = mk('field', N.arg(3), 0, rd)
    if contains(init, lambda t: t is want) or any(x is want for x in subterms(init)):
        res.ok('initial', who, 'starts at the default of the range')
    else:
        res.bad('initial', who, 'does not start at the default of the range', N.fn.where)
    # what the handle shows
    for m, i, what in (('get_value', list(ctl.a[2:]).index(shared), 'the value the callback keeps'), ('get_id', fp, 'its name')):
        try:
            S = analyse(prog, fn(prog, 'AudioParameter::' + m))
        except NoAnswer:
            continue
        nf += 1
        if self_field(S, S.ret) == ((0, i),):
            res.ok('shown', S.fn.npath, 'shows ' + what)
        else:
            res.bad('shown', S.fn.npath, 'does not show ' + what, S.fn.where)
    # the calls
    ity = adt(prog, 'ParameterChangeRequest')
    for m, (variant, varg, when, method, start) in METHODS.items():
        S = analyse(prog, fn(prog, 'AudioParameter::' + m))
        nf += 1
        w = S.fn.where
        s = sent(S)
        if len(s) != 1 or s[0][0].gates or s[0][0].loops:
            res.bad('one-command', S.fn.npath, 'does not send exactly one command in every call', w)
            continue
        res.ok('one-command', S.fn.npath, 'sends exactly one command')
        q = s[0][0].args[0]
        while q.op in ('transmute', 'field') and self_field(S, q) is None:
            q = q.a[0]
        if self_field(S, q) is None:
            res.bad('one-command', S.fn.npath, 'sends on something other than its own queue', w)
        c = s[0][1]
        if c.op != 'adt' or c.a[1] != vidx(prog, 'Command', variant):
            res.bad('command', S.fn.npath, 'sends another kind of command', w)
            continue
        req = c.a[2]
        kind = 'ParameterChangeRequest' if method else 'CancelChangeRequest'

        def get(v, ty, f):
            return S.I.pf(v, 0, fidx(prog, ty, f))
        if self_field(S, get(req, kind, 'dsp_id')) == ((0, fd),) and self_field(S, get(req, kind, 'parameter_id')) == ((0, fp),):
            res.ok('addressed', S.fn.npath, 'names its own node and parameter')
        else:
            res.bad('addressed', S.fn.npath, 'does not name its own node and parameter', w)
        if not method:
            et = get(req, kind, 'end_time')
            if et.op == 'adt' and (when is None and et.a[1] == 0 or when is not None and et.a[1] == 1 and et.a[2] is S.arg(when)):
                res.ok('time', S.fn.npath, 'passes on its time' if when else 'names no time')
            else:
                res.bad('time', S.fn.npath, 'does not pass on its time', w)
            continue
        ch = get(req, kind, 'change')
        v = get(ch, 'ParameterChange', 'value')
        cl = clamped(v)
        if cl and cl[0] is S.arg(varg) and self_field(S, cl[1]) == ((0, fr), (0, lo)) and self_field(S, cl[2]) == ((0, fr), (0, hi)):
            res.ok('clamped', S.fn.npath, 'limits the value to the range')
        else:
            res.bad('clamped', S.fn.npath, 'does not limit the value to the range it was made with', w)
        et = get(ch, 'ParameterChange', 'end_time')
        zero = analyse(prog, fn(prog, 'Timestamp::zero')).ret
        if et is (zero if when == 'zero' else S.arg(when)):
            res.ok('time', S.fn.npath, 'passes on its time')
        else:
            res.bad('time', S.fn.npath, 'does not pass on its time', w)
        mt = get(ch, 'ParameterChange', 'method')
        if mt.op == 'adt' and mt.a[1] == vidx(prog, 'ValueChangeMethod', method) and (start is None or mt.a[2] is S.arg(start)):
            res.ok('method', S.fn.npath, 'asks for %s' % method.lower())
        else:
            res.bad('method', S.fn.npath, 'does not ask for the change it promises', w)
    res.cov.update(functions=nf + 3, roots=[N.fn.npath] + ['AudioParameter::' + m for m in METHODS])
    res.notes.append('Every call was reduced to the one command it sends; each part of the command is compared with the argument or field it must come from.')


# -- R13 ---------------------------------------------------------------------------------------------
class Rt:
    def __init__(self, prog, res):
        self.prog = prog
        A = self.A = analyse(prog, fn(prog, 'RealtimeAudioParameter::process'))
        I = A.I
        ty = I.pointee_ty(A.fn.locals[1][0])
        if ty is None:
            raise NoAnswer('the parameter type cannot be resolved')
        fl = prog.types[ty]['fields'][0]
        ch = [i for i, f in enumerate(fl) if tname(prog, f) == 'ParameterChange']
        pend = [i for i, f in enumerate(fl) if 'ParameterChange' in prog.tystr(f) and tname(prog, f) in ('Vec', 'VecDeque')]
        pub = [i for i, f in enumerate(fl) if 'Atomic' in prog.tystr(f)]
        if len(ch) != 1 or len(pend) != 1 or len(pub) != 1:
            raise NoAnswer('the state of a parameter cannot be resolved')
        self.cur, self.pend, self.pub = (('f', 0, ch[0]),), (('f', 0, pend[0]),), (('f', 0, pub[0]),)
        G = analyse(prog, fn(prog, 'RealtimeAudioParameter::get_values'))
        g = G.ret
        if g.op != 'slice' or g.a[0] != ('P', G.arg(1)):
            raise NoAnswer('the values of a parameter cannot be resolved')
        self.G = G
        self.buf = tuple(g.a[1])
        self.base = ('P', A.arg(1))

    def field(self, path):
        v = mk('deref0', self.A.arg(1))
        for p in path:
            v = self.A.I.pf(v, p[1], p[2])
        return v


def r13(prog, res, tier):
    R = Rt(prog, res)
    A, I = R.A, R.A.I
    who = A.fn.npath
    w = A.fn.where
    time, count, rate = A.arg(2), A.arg(3), A.arg(4)
    g = R.G.ret
    if g.a[2] is ZERO and g.a[3] is R.G.arg(2):
        res.ok('values', R.G.fn.npath, 'gives the first values, as many as asked for')
    else:
        res.bad('values', R.G.fn.npath, 'does not give the first values, as many as asked for', R.G.fn.where)
    takes = [e for e in A.events if e.kind == 'vec' and e.args and e.args[0].op == 'ref' and e.args[0].a[0] == R.base and tuple(e.args[0].a[1]) == R.pend]
    for e in takes:
        if last(e.name) not in ('remove', 'pop_front') or last(e.name) == 'remove' and e.args[1] is not ZERO:
            res.bad('taken', name(e), 'the waiting changes are altered other than by taking the first', e.where)
            return
    if not takes:
        res.bad('taken', who, 'waiting changes are never taken', w)
        return
    lids = {e.loops for e in takes}
    if len(lids) != 1 or len(next(iter(lids))) != 1:
        raise NoAnswer('changes are not taken in the loop over the frames')
    L = next(iter(lids))[0]
    inf = I.loops[L]
    k = mk('k', L)

    def step(path):
        for ph, (b, p, i, s) in inf.phis.items():
            if b == R.base and tuple(p) == tuple(path):
                return ph, i, s
        return None
    # what the frames' values are written to
    fin = A.final(R.base)
    for p in R.buf:
        fin = I.pf(fin, p[1], p[2])
    from .mixing import leaves_of
    static = []
    vph = None
    for lits, leaf in leaves_of(fin):
        if leaf.op == 'resized':
            if leaf.a[1] is not count or leaf.a[0].op != 'empty':
                res.bad('count', who, 'a constant block does not have as many values as frames', w)
            else:
                res.ok('count', who, 'a constant block has as many values as frames')
            static.append((lits, leaf.a[2]))
        elif leaf.op == 'phi' and leaf.a[0] == L:
            _, i, s = step(R.buf)
            if i.op == 'empty' and s.op == 'push' and s.a[0] is leaf and inf.trips is not None and same(I, inf.trips, count):
                res.ok('count', who, 'one value is added in every frame, from none')
            else:
                res.bad('count', who, 'the block does not get exactly one value per frame', w)
            vstep = s.a[1] if s.op == 'push' else None
        else:
            raise NoAnswer('how the values of a block are written cannot be resolved: %s' % str(leaf)[:120])
    if step(R.buf) is None or vstep is None:
        raise NoAnswer('the values of a changing block cannot be resolved')
    if vstep.op == 'f2f':
        vstep = vstep.a[0]
    cands = [(ph, i, s) for ph, (b, p, i, s) in inf.phis.items() if s is vstep]
    if len(cands) != 1:
        res.bad('published', who, 'the value of a frame does not start from the value of the frame before', w)
        return
    x, x0, V = cands[0]
    ld = ret_event(A, x0) if x0.op == 'ret' else None
    if ld is not None and ld.kind == 'atomic' and last(ld.name) == 'load' and published(R, ld.args[0]):
        res.ok('published', who, 'a block starts from the published value')
    else:
        res.bad('published', who, 'a block does not start from the value last published', w)
    st = [e for e in A.events if e.kind == 'atomic' and last(e.name) in ('store', 'swap') and published(R, e.args[0])]
    ways = [(lits, leaf.op == 'resized') for lits, leaf in leaves_of(fin)]
    good = bool(st) and not any(e.loops for e in st)
    for lits, same_ in ways:
        # exactly one store on every way through, of the value the last frame had
        fire = [(e, deep(andb(*e.gates), lits)) for e in st]
        fire = [(e, g) for e, g in fire if g is not FALSE]
        good = good and len(fire) == 1 and fire[0][1] is TRUE and \
            all(l is x or same_ and l is x0 for _, l in leaves_of(deep(fire[0][0].args[1], lits)))
    if good:
        res.ok('published', name(st[0]), 'the last value of the block is published')
    else:
        res.bad('published', who, 'the last value of a block is not what is published', w)
    # the scenarios of a frame
    cs, ps = step(R.cur), step(R.pend)
    if cs is None or ps is None:
        res.bad('taken', who, 'a change that is taken is not made the current one', w)
        return
    cur, _, cur2 = cs
    pend, _, pend2 = ps
    head = I.select(pend, ZERO)
    T, t1 = refsubst(prog, 'Timestamp::incremented_by_samples',
                     {mk('deref0', mk('sym', 'arg1')): mk('deref0', time), mk('sym', 'arg2'): k, mk('sym', 'arg3'): rate})
    now = raw(A, t1)
    fi = {f: fidx(prog, 'ParameterChange', f) for f in ('value', 'end_time', 'method')}
    vi = {v: vidx(prog, 'ValueChangeMethod', v) for v in ('Immediate', 'Linear', 'Exponential')}
    vals = {}
    for nme, ph_ in [(p, ph) for ph, (b, p, i, s) in inf.phis.items() if b == R.base and p not in (R.cur, R.pend, R.buf)]:
        vals[tuple(nme)] = ph_

    def due(m):
        f = I.pf(head, 0, fi['end_time']) if m == 'Immediate' else I.pf(I.pf(head, 0, fi['method']), vi[m], 0)
        return le(raw(A, f), now)
    nonempty = le(ONE, mk('len', pend))
    empty = (notb(nonempty), le(mk('len', pend), ZERO))

    def variant(m):
        meth = I.pf(head, 0, fi['method'])
        return tuple(mk('is', meth, j) if n == m else notb(mk('is', meth, j)) for n, j in vi.items())
    scen = [('no change waits', empty, None)]
    for m in vi:
        base = (nonempty, notb(empty[1])) + variant(m)
        scen.append(('a waiting %s change is not due' % m.lower(), base + (notb(due(m)),), None))
        scen.append(('a waiting %s change is due' % m.lower(), base + (due(m),), m))
    # the state a running change keeps: the fields the next value is computed from
    run = {}
    n = 0
    for what, lits, m in scen:
        c2, p2, v2 = deep(cur2, lits), deep(pend2, lits), deep(V, lits)
        C = head if m else cur
        n += 1
        if m is None:
            if c2 is cur and p2 is pend:
                res.ok('not-early', who, 'nothing is taken when %s' % what)
            else:
                res.bad('not-early', who, 'a change is taken when %s' % what, w)
                continue
        else:
            gone = p2.op in ('removed', 'popped') and p2.a[0] is pend
            if c2 is head and gone:
                res.ok('on-time', who, 'when %s it becomes the current one and leaves the list' % what)
            elif c2 is head:
                res.bad('once', who, 'a change that is taken stays in the list (%s)' % what, w)
                continue
            else:
                res.bad('on-time', who, 'when %s it is not taken' % what, w)
                continue
        ended = le(raw(A, I.pf(C, 0, fi['end_time'])), now)
        target = I.pf(C, 0, fi['value'])
        a, b = deep(v2, lits + (ended,)), deep(v2, lits + (notb(ended),))
        if m == 'Immediate' and a is not target and deep(v2, lits + (due(m),)) is target:
            a = target
        if a is target:
            res.ok('reached', who, 'at its end time the value is the target (%s)' % what)
        else:
            res.bad('reached', who, 'at the end time of a change the value is not its target (%s)' % what, w)
        if m == 'Immediate':
            continue
        nx = bounded(b, x, target)
        if nx is None:
            res.bad('no-overshoot', who, 'the value can pass the target of a change (%s)' % what, w)
            continue
        res.ok('no-overshoot', who, 'until its end time the value stays on its side of the target (%s)' % what)
        inc, coef = affine(nx, x)
        if inc is None:
            raise NoAnswer('how a ramp moves cannot be resolved: %s' % str(nx)[:160])
        if m is None:
            if inc.op != 'phi' or coef.op != 'phi':
                res.bad('ramp', who, 'a running ramp does not move by its own step (%s)' % what, w)
            run[0], run[1] = inc, coef
            continue
        D = duration(R, I.pf(C, 0, fi['end_time']), t1, rate)
        if m == 'Linear':
            good = coef.op == 'fl' and float(coef.a[0]) == 1.0 and inc is mk_f(I, 'fdiv', mk_f(I, 'fsub', target, x), D)
        else:
            ratio = mk_f(I, 'fdiv', target, x)
            good = inc.op == 'fl' and float(inc.a[0]) == 0.0 and coef in (
                mk('app', 'exp', mk_f(I, 'fdiv', mk('app', 'ln', ratio), D)),
                mk('app', 'powf', ratio, mk_f(I, 'fdiv', mk('fl', '1.0'), D)))
        if good:
            res.ok('ramp', who, 'a %s ramp starts with the step that reaches its target at its end time' % m.lower())
        else:
            res.bad('ramp', who, 'a %s ramp does not start with the step that reaches its target at its end time' % m.lower(), w)
    # after an immediate change nothing moves
    lits = scen[[i for i, s in enumerate(scen) if s[2] == 'Immediate'][0]][1]
    for j, (nm, neutral) in enumerate((('increment', 0.0), ('coefficient', 1.0))):
        ph = run.get(j)
        if ph is None:
            continue
        s = [v[3] for p, v in inf.phis.items() if p is ph]
        y = deep(s[0], lits) if s else None
        if y is not None and y.op == 'fl' and float(y.a[0]) == neutral:
            res.ok('ramp', who, 'an immediate change ends a running ramp')
        else:
            res.bad('ramp', who, 'an immediate change leaves a ramp running', w)
    # a constant block only when nothing waits and nothing moves
    for lits, v in static:
        v = v.a[0] if v.op == 'f2f' else v
        if v is not x0:
            res.bad('constant', who, 'a constant block does not hold the published value', w)
        facts = set()
        for l in lits:
            facts |= set(l.a) if l.op == 'and' else {l}
        nowait = any(f in facts for f in (le(mk('len', R.field(R.pend)), ZERO), eq(mk('len', R.field(R.pend)), ZERO)))
        still = True
        for j, neutral in ((0, 0.0), (1, 1.0)):
            ph = run.get(j)
            if ph is None:
                continue
            still = still and any(neutral_fact(R, f, tuple(ph.a[2]), neutral) for f in facts)
        if nowait and still:
            res.ok('constant', who, 'a block is constant only when no change waits and no ramp runs')
        else:
            res.bad('constant', who, 'a block is taken to be constant although %s' % ('a change waits' if not nowait else 'a ramp may run'), w)
    # changes wait in order of their end times; nothing but the two requests alters the list
    Q = analyse(prog, fn(prog, 'RealtimeAudioParameter::add_parameter_change'))
    v = Q.final(('P', Q.arg(1)))
    v = Q.I.pf(v, 0, R.pend[0][2])
    old = Q.I.pf(mk('deref0', Q.arg(1)), 0, R.pend[0][2])
    if inserted_in_order(Q, v, old, Q.arg(2), fi['end_time']):
        res.ok('ordered', Q.fn.npath, 'a new change waits after all that end no later and before all that end later')
    else:
        res.bad('ordered', Q.fn.npath, 'changes do not wait in order of their end times, and of arrival where these are equal', Q.fn.where)
    Z = analyse(prog, fn(prog, 'RealtimeAudioParameter::cancel_scheduled_changes'))
    v = Z.I.pf(Z.final(('P', Z.arg(1))), 0, R.pend[0][2])
    if v.op == 'empty':
        res.ok('cancel', Z.fn.npath, 'no change is left waiting')
    else:
        res.bad('cancel', Z.fn.npath, 'changes are left waiting', Z.fn.where)
    Z = analyse(prog, fn(prog, 'RealtimeAudioParameter::cancel_scheduled_changes_ending_after'))
    v = Z.I.pf(Z.final(('P', Z.arg(1))), 0, R.pend[0][2])
    old = Z.I.pf(mk('deref0', Z.arg(1)), 0, R.pend[0][2])
    good = v.op == 'filtered' and v.a[0] is old and len(v.a) == 3 and v.a[2] is le(
        raw(Z, Z.I.pf(Z.I.select(old, v.a[1]), 0, fi['end_time'])), raw(Z, mk('deref0', Z.arg(2))))
    if good:
        res.ok('cancel', Z.fn.npath, 'exactly the waiting changes that end later are removed')
    else:
        res.bad('cancel', Z.fn.npath, 'what is removed is not exactly the waiting changes that end later', Z.fn.where)
    res.need('scenarios', n, 7)
    res.cov.update(functions=len(I.inlined) + 4, events=len(A.events), scenarios=n, roots=[who])
    res.notes.append('One frame of the block loop is decided by cases: no change waits, or the first waiting change is of each kind and due or not due; '
                     'in each case the new state and value are compared with what the case demands.')
    res.assumptions += ['at most one waiting change is taken per frame (this is how the code is meant to work)',
                        'ramp values are compared as terms of real arithmetic; rounding is not considered']


def neutral_fact(R, f, path, neutral):
    """does the fact say that the field equals its neutral value"""
    A = R.A
    if f.op == 'ret':
        e = ret_event(A, f)
        if e is None or not e.name.endswith('::eq'):
            return False
        refs = [a for a in e.args if a.op == 'ref']
        mine = any(a.a[0] == R.base and tuple(a.a[1]) == path for a in refs)
        const = any(A.at(e, a).op == 'fl' and float(A.at(e, a).a[0]) == neutral for a in refs)
        other = [a for a in e.args if a.op != 'ref']
        dflt = all(a.op == 'ret' and ret_event(A, a) is not None and last(ret_event(A, a).name) == 'default()' or
                   a.op == 'ret' and ret_event(A, a) is not None and 'default' in ret_event(A, a).name for a in other)
        return mine and const and dflt
    if f.op in ('fop', 'feq'):
        v = R.field(path)
        return v in f.a and any(isinstance(y, T) and y.op == 'fl' and float(y.a[0]) == neutral for y in f.a)
    return False


def entails_any(lits, static):
    have = set()
    for l in lits:
        have |= set(l.a) if l.op == 'and' else {l}
    for s, _ in static:
        want = set()
        for l in s:
            want |= set(l.a) if l.op == 'and' else {l}
        if want <= have:
            return True
    return False


def published(R, a):
    """the atomic is the parameter's published value"""
    v = R.field(R.pub)
    return a is v or contains(a, lambda t: t is v) or a.op == 'ref' and a.a[0] == R.base and tuple(a.a[1])[:1] == R.pub


def bounded(b, x, target):
    """the unlimited next value, when b is it limited not to pass the target"""
    def lim(t, f):
        if t.op == 'app' and t.a[0] == f and target in t.a[1:]:
            return t.a[2] if t.a[1] is target else t.a[1]
        return None
    if b.op == 'ite':
        c = b.a[0]
        up = [mk('fle', x, target), mk('flt', x, target), notb(mk('flt', target, x)), notb(mk('fle', target, x))]
        if c in up:
            lo, hi = lim(b.a[1], 'min'), lim(b.a[2], 'max')
            return lo if lo is not None and lo is hi else None
        if notb(c) in up:
            lo, hi = lim(b.a[2], 'min'), lim(b.a[1], 'max')
            return lo if lo is not None and lo is hi else None
    # by the four cases of which side of the target the value and the next value are on
    cond = {t for t in subterms(b) if t.op in ('fle', 'flt') and target in t.a}
    others = {o for t in cond for o in t.a if o is not target and o is not x}
    for y in others:
        if all(set(t.a) in ({x, target}, {y, target}) for t in cond):
            below, above = mk('flt', y, target), mk('flt', target, y)
            under = (mk('fle', x, target), notb(mk('flt', target, x)))
            over = (notb(mk('fle', x, target)), mk('flt', target, x), mk('fle', target, x), notb(mk('flt', x, target)))
            yb = (below, mk('fle', y, target), notb(above), notb(mk('fle', target, y)))
            ya = (above, mk('fle', target, y), notb(below), notb(mk('fle', y, target)))
            if all(deep(b, u + v) is w for u, v, w in ((under + (mk('flt', x, target), notb(mk('fle', target, x))), yb, y), (under, ya, target), (over, ya, y), (over, yb, target))):
                return y
    if b.op == 'app' and b.a[0] == 'clamp':
        y, lo, hi = b.a[1:4]
        mn = lo.op == 'app' and lo.a[0] == 'min' and set(lo.a[1:]) == {x, target}
        mx = hi.op == 'app' and hi.a[0] == 'max' and set(hi.a[1:]) == {x, target}
        return y if mn and mx else None
    return None


def mk_f(I, op, a, b):
    return I.fbin({'fdiv': 'Div', 'fsub': 'Sub', 'fmul': 'Mul', 'fadd': 'Add'}[op], a, b)


def affine(t, x):
    """(b, a) of t = a*x + b"""
    one, zero = mk('fl', '1.0'), mk('fl', '0.0')

    def prod(m):
        if m is x:
            return one
        if m.op == 'fmul' and x in m.a:
            return m.a[1] if m.a[0] is x else m.a[0]
        return None
    if t.op == 'fadd':
        for i in (0, 1):
            p = prod(t.a[i])
            if p is not None:
                return t.a[1 - i], p
    p = prod(t)
    if p is not None:
        return zero, p
    return None, None


def duration(R, end, t1, rate):
    S = analyse(R.prog, fn(R.prog, 'Timestamp::as_samples'))
    I = R.A.I
    f = mk('deref0', mk('sym', 'arg1'))
    base = I.pf(I.pf(f, 0, 0), 0, 0)
    a = subst(S.ret, {base: raw(R.A, end), mk('sym', 'arg2'): rate})
    b = subst(S.ret, {base: raw(R.A, t1), mk('sym', 'arg2'): rate})
    return mk_f(I, 'fsub', a, b)


def inserted_in_order(Q, v, old, new, fend):
    """v is old with new put after every element that ends no later and before every one that ends later"""
    I = Q.I
    if v.op == 'inserted' and v.a[0] is old and v.a[2] is new:
        at = v.a[1]
        if at.op == 'app' and at.a[0] == 'partition_point':
            el = [t for t in subterms(at.a[2]) if t.op == 'deref0' and t.a[0].op == 'sym' and t.a[0].a[0] == 'elemA']
            if len(set(el)) == 1 and at.a[1].op in ('subarr', 'field') and contains(at.a[1], lambda t: t is old):
                return at.a[2] is le(raw(Q, I.pf(el[0], 0, fend)), raw(Q, I.pf(new, 0, fend)))
        if at.op == 'ite' and at.a[0].op == 'exit':
            # the first element that fails a test, or the end
            lid = at.a[0].a[0]
            k = mk('k', lid)
            later = lt(raw(Q, I.pf(new, 0, fend)), raw(Q, I.pf(I.select(old, k), 0, fend)))
            for here, v2 in ((at.a[0], at.a[1]), (notb(at.a[0]), at.a[2])):
                facts = andb(*interp.EXITS.get(here, ()))
                facts = facts.a if facts.op == 'and' else (facts,)
                if v2 is k and later not in facts:
                    return False
                if v2 is not k and (v2 is not mk('len', old) or not any(same(I, f.a[0], sub(mk('len', old), k)) for f in facts if f.op == 'le0')):
                    return False
            return k in at.a[1:]
        raise NoAnswer('where a new change is inserted cannot be resolved: %s' % str(at)[:200])
    raise NoAnswer('how a new change is put in order cannot be resolved: %s' % str(v)[:200])


# -- R14 ---------------------------------------------------------------------------------------------
REQUESTS = ('add_parameter_change', 'cancel_scheduled_changes', 'cancel_scheduled_changes_ending_after')


def opaque_calls(*ends):
    """boundary: calls of the named functions, and bulk buffer operations, stay events"""
    import models

    def b(c):
        n = c.tgt.npath if c.tgt else ''
        for x in ends:
            if n.endswith(x):
                c.name = n
                return models.opaque(c, havoc=False)
        return bulk(c)
    return b


def constructors(prog):
    """every function of the crate that builds a node for the graph, analysed"""
    b = opaque_calls('AudioParameter::new', 'GraphNode::new', 'Id::generate')
    out = []
    for f in prog.local():
        if f.blocks and 'GraphNode::new' in str(f.blocks):
            A = analyse(prog, f, b, 'construct')
            es = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith('GraphNode::new')]
            if es:
                out.append((f, A, es))
    return out


def processor_of(prog, A, box):
    """the process_audio of the processor in a box, and its value"""
    v = box
    n = 0
    while v.op == 'box' and n < 4:
        v = A.final(v.a[0])
        n += 1
    if v.op != 'adt':
        raise NoAnswer('the processor of a node cannot be resolved: %s' % str(v)[:100])
    t = prog.types[v.a[0]]
    from prog import strip_generics
    path = strip_generics(t['path'])
    fs = [f for f in prog.trait_method('DspProcessor', 'process_audio') if f.blocks and strip_generics(f.selfty or '').split('<')[0] == path]
    if len(fs) != 1:
        raise NoAnswer('the processor of a node cannot be resolved: %s' % path)
    return fs[0], v


def short(f):
    if f.selfty:
        return f.selfty.rsplit('::', 1)[-1] + '::' + f.name
    return f.npath.rsplit('::', 2)[-2] + '::' + f.name


def entries(A, m, res, who, news):
    """what a map of parameters holds: [(key, value, event of AudioParameter::new, loop or None)]"""
    out = []
    n = 0
    while m.op != 'empty' and n < 64:
        n += 1
        if m.op == 'mapset':
            out.append((m.a[1], m.a[2], None))
            m = m.a[0]
        elif m.op == 'mapof' and m.a[0].op == 'gen' and m.a[0].a[0].op == 'int':
            g = m.a[0]
            for i in range(g.a[0].a[0]):
                x = A.I.simp(subst(g.a[2], {g.a[1]: INT(i)}), ())
                out.append((A.I.pf(x, 0, 0), A.I.pf(x, 0, 1), None))
            return out
        elif m.op == 'phi':
            lid = m.a[0]
            ph = A.I.loops[lid].phis.get(m)
            if ph is None or ph[3].op != 'mapset' or ph[3].a[0] is not m:
                return None
            out.append((ph[3].a[1], ph[3].a[2], lid))
            m = ph[2]
        else:
            return None
    return out


def r14(prog, res, tier):
    import models
    # the request reaches the parameter
    P = processor(prog)
    A = analyse(prog, P, opaque_calls(*('RealtimeAudioParameter::' + x for x in REQUESTS)), 'requests')
    N = Nodes(prog, res)
    E = Engine(prog, res, A)
    I = A.I
    who = A.fn.npath
    calls = [e for e in A.events if e.kind == 'call' and (e.name or '').rsplit('::', 1)[-1] in REQUESTS and 'RealtimeAudioParameter' in e.name]
    want = {'add_parameter_change': ('ParameterValueChange', 'ParameterChangeRequest'),
            'cancel_scheduled_changes': ('CancelParameterChanges', 'CancelChangeRequest'),
            'cancel_scheduled_changes_ending_after': ('CancelParameterChanges', 'CancelChangeRequest')}
    for m, (variant, rty) in want.items():
        v = vidx(prog, 'Command', variant)
        got = [e for e in calls if e.name.endswith('::' + m)]
        if not got:
            res.bad('delivered', who, 'a request to %s has no effect' % m.replace('_', ' '), P.where)
            continue
        if len(got) > 1:
            res.bad('delivered', who, 'a request to %s is carried out at %d places' % (m.replace('_', ' '), len(got)), P.where)
            continue
        e = got[0]
        req = I.pf(E.msg, v, 0)
        if mk('is', E.msg, v) not in e.pc:
            res.bad('delivered', name(e), 'is carried out on another command', e.where)
            continue
        did, pid = I.pf(req, 0, fidx(prog, rty, 'dsp_id')), I.pf(req, 0, fidx(prog, rty, 'parameter_id'))
        ref = e.args[0]
        path = tuple(ref.a[1]) if ref.op == 'ref' else ()
        ks = [p for p in path if p[0] == 'k']
        if len(ks) == 1 and path and path[-1] is ks[0] and ks[0][1] is pid:
            res.ok('delivered', name(e), 'goes to the parameter the request names')
        else:
            res.bad('delivered', name(e), 'does not go to the parameter the request names', e.where)
        gets = [t for t in subterms(ref.a[0][1]) if t.op == 'mapget'] if ref.op == 'ref' and ref.a[0][0] == 'P' else []
        top = gets[0] if gets else None
        if len(gets) == 1 and top.a[1] is did and top.a[0].op == 'phi' and tuple(top.a[0].a[2]) == N.npath:
            res.ok('delivered', name(e), 'of the node the request names')
        else:
            res.bad('delivered', name(e), 'does not go to the node the request names', e.where)
            continue
        et = I.pf(req, 0, fidx(prog, rty, 'end_time')) if rty == 'CancelChangeRequest' else None
        allowed = {mk('is', E.msg, v), notb(mk('is', E.recv, 1)), mk('is', E.recv, 0), mk('has', top.a[0], did)}
        extra = [g for g in e.gates if g not in allowed]
        if et is not None:
            timed = m.endswith('after')
            lit = mk('is', et, 1)
            mine = [g for g in extra if g in ((lit, notb(mk('is', et, 0))) if timed else (notb(lit), mk('is', et, 0)))]
            if not mine:
                res.bad('delivered', name(e), 'is carried out whether or not the request has a time', e.where)
            extra = [g for g in extra if g not in mine]
            arg = A.at(e, e.args[1]) if timed else None
            if timed and raw(A, arg) is not raw(A, I.pf(et, 1, 0)):
                res.bad('delivered', name(e), 'is not given the time of the request', e.where)
        elif e.args[1] is not I.pf(req, 0, fidx(prog, rty, 'change')):
            res.bad('delivered', name(e), 'is not given the change of the request', e.where)
        if extra:
            res.bad('delivered', name(e), 'is carried out only if %s' % str(extra[0])[:100], e.where)
        else:
            res.ok('delivered', name(e), 'in every case in which the node is in the graph')
    # every parameter is advanced before the node renders
    D = analyse(prog, fn(prog, 'Dsp::process_audio'), opaque_calls('RealtimeAudioParameter::process'), 'advance')
    w = D.fn.where
    adv = [e for e in D.events if e.kind == 'call' and e.name.endswith('RealtimeAudioParameter::process')]
    rend = [e for e in D.events if e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')]
    if len(rend) != 1 or rend[0].gates or rend[0].loops:
        res.bad('advanced', D.fn.npath, 'the node does not render exactly once', w)
    elif len(adv) != 1 or len(adv[0].loops) != 1:
        res.bad('advanced', D.fn.npath, 'its parameters are not advanced once each', w)
    else:
        from .graph import full_map_loop
        e = adv[0]
        lid = e.loops[0]
        out, inp = D.arg(3), D.arg(2)
        if full_map_loop(D.I, lid, None) and all(contains(g, lambda t: t.op == 'dlen') for g in e.gates) and e.seq < rend[0].seq and \
                e.args[0].op == 'ref' and e.args[0].a[0] == ('P', D.arg(1)):
            res.ok('advanced', name(e), 'every parameter of the node, before it renders')
        else:
            res.bad('advanced', name(e), 'some parameter of the node is not advanced before it renders', e.where)
        good = e.args[1] is D.arg(4) and any(e.args[2] is mk('app', 'frame_count', mk('deref0', b)) for b in (out, inp)) and \
            any(e.args[3] is mk('app', 'sample_rate', mk('deref0', b)) for b in (out, inp))
        if good:
            res.ok('advanced', name(e), 'from the start time, for the frames and at the rate of the output')
        else:
            res.bad('advanced', name(e), 'not from the start time, for the frames and at the rate of the output', e.where)
        ctx = D.at(rend[0], rend[0].args[1])
        parts = {f: D.I.pf(ctx, 0, fidx(prog, 'ProcessContext', f)) for f in ('input_buffer', 'output_buffer', 'start_time', 'parameters')}
        pmap = parts['parameters']
        same_map = pmap.op == 'ref' and pmap.a[0] == ('P', D.arg(1)) and tuple(e.args[0].a[1])[:len(pmap.a[1])] == tuple(pmap.a[1])

        def is_arg(x, a):
            return x is a or x.op == 'ref' and x.a[0] == ('P', a) and not x.a[1]
        if is_arg(parts['input_buffer'], inp) and is_arg(parts['output_buffer'], out) and is_arg(parts['start_time'], D.arg(4)) and same_map:
            res.ok('context', name(rend[0]), 'the node is given its input, its output, the start time and its own parameters')
        else:
            res.bad('context', name(rend[0]), 'the node is not given its input, its output, the start time and its own parameters', rend[0].where)
    for m in ('get', 'get_mut'):
        for g in fns(prog, 'Parameters::' + m):
            if not g.blocks:
                continue
            H = analyse(prog, g)
            v = found_in(H.ret, mk('deref0', H.arg(2)))
            if v:
                res.ok('handed-out', short(g), 'gives the parameter of the name asked for')
            else:
                res.bad('handed-out', short(g), 'does not give the parameter of the name asked for', g.where)
    # what a node declares
    declared = {}
    nodes = 0
    pidf = None
    for f in adt(prog, 'RealtimeAudioParameter')['variants'][0]['f']:
        if f == 'id':
            pidf = fidx(prog, 'RealtimeAudioParameter', 'id')
    built = analyse(prog, fn(prog, 'AudioParameter::new')).ret.a[1]
    pids = [i for i, x in enumerate(built.a[2:]) if x is mk('sym', 'arg2')]
    for f, C, es in constructors(prog):
        who = short(f)
        nodes += 1
        if len(es) != 1 or es[0].loops:
            res.bad('declared', who, 'builds %d nodes' % len(es), f.where)
            continue
        e = es[0]
        gid = e.args[0]
        ge = ret_event(C, gid) if gid.op == 'ret' else None
        if ge is None or not ge.name.endswith('Id::generate'):
            res.bad('fresh-id', who, 'the node does not get an identity of its own', e.where)
            continue
        res.ok('fresh-id', who, 'the node gets an identity of its own')
        news = [x for x in C.events if x.kind == 'call' and x.name.endswith('AudioParameter::new')]
        for x in news:
            if x.args[0] is gid and x.args[3] is C.arg(1) and e.args[1] is C.arg(1):
                res.ok('declared', who, 'its parameters name the node and its context')
            else:
                res.bad('declared', who, 'a parameter is made for another node or context', x.where)
        pm = C.I.pf(e.args[5], 0, 0)
        rts = entries(C, pm, res, who, news)
        if rts is None:
            raise NoAnswer('%s: the parameters given to the node cannot be resolved: %s' % (who, str(pm)[:120]))
        names = set()
        bad = False
        for key, val, lid in rts:
            x = [y for y in news if val.op == 'field' and val.a[0] is y.ret and val.a[2] == 1]
            if not x or (lid is not None) != bool(x[0].loops):
                bad = True
                continue
            x = x[0]
            if key is not x.args[1] and not any(key is C.I.pf(val, 0, i) for i in pids):
                bad = True
            names |= literal_names(C, x, lid, res, who)
        if bad or len(rts) < len(news):
            res.bad('declared', who, 'not every parameter made for the node is kept by it under its own name', f.where)
        elif news:
            res.ok('declared', who, 'every parameter made for the node is kept by it under its own name: %s' % ', '.join(sorted(names)))
        # the control half
        r = C.ret
        vals = [v for p, v in leafpaths_deep(C, r)]
        ctl = None
        ctls = []
        for v in vals:
            es2 = entries(C, v, res, who, news) if v.op in ('phi', 'mapset') else None
            if es2 and all(val.op == 'field' and val.a[2] == 0 and any(val.a[0] is y.ret for y in news) for _, val, _ in es2):
                ctl = es2
                ctls.append(v)
        if news and (ctl is None or len(ctl) < len(rts) or not all(
                any(key is y.args[1] and val.a[0] is y.ret for y in news) for key, val, _ in ctl)):
            res.bad('declared', who, 'the handle does not keep every parameter under its own name', f.where)
        elif news:
            res.ok('declared', who, 'the handle keeps every parameter under its own name')
        pf, pv = processor_of(prog, C, e.args[4])
        declared.setdefault(pf, set()).update(names)
        # what the processor reads
        U = analyse(prog, pf, opaque_calls('RealtimeAudioParameter::get_values'), 'values')
        used = set()
        octx = U.I.pf(mk('deref0', U.arg(2)), 0, fidx(prog, 'ProcessContext', 'output_buffer'))
        ictx = U.I.pf(mk('deref0', U.arg(2)), 0, fidx(prog, 'ProcessContext', 'input_buffer'))
        pctx = U.I.pf(mk('deref0', U.arg(2)), 0, fidx(prog, 'ProcessContext', 'parameters'))
        for x in U.events:
            if x.kind != 'call' or not x.name.endswith('RealtimeAudioParameter::get_values'):
                continue
            ref = x.args[0]
            ks = [p for p in ref.a[1] if p[0] == 'k'] if ref.op == 'ref' else []
            if len(ks) != 1 or ref.a[0] != ('P', pctx) or ks[0][1].op != 'str':
                raise NoAnswer('%s: which parameter is read cannot be resolved: %s' % (short(pf), str(ref)[:100]))
            nm = ks[0][1].a[0]
            used.add(nm)
            if nm not in names:
                res.bad('read', short(pf), "reads a parameter '%s' the node does not declare" % nm, x.where)
            elif any(x.args[1] is mk('app', 'frame_count', mk('deref0', b)) for b in (octx, ictx)):
                res.ok('read', short(pf), "reads '%s' for exactly the frames of its output" % nm)
            else:
                res.bad('read', short(pf), "does not read '%s' for exactly the frames of its output" % nm, x.where)
        for nm in sorted(names - used):
            res.bad('read', short(pf), "the parameter '%s' of the node has no effect" % nm, pf.where)
        # the handles it gives out
        rty = C.fn.locals[0][0]
        rn = tname(prog, rty)
        for m in ('get_parameters', 'get_parameters_mut'):
            for a in prog.trait_method('DspNode', m):
                if not a.blocks or not news or (a.selfty or '').split('<')[0].rsplit('::', 1)[-1] != rn:
                    continue
                H = analyse(prog, a)
                v = H.ret
                own = r
                if v.op == 'ref' and v.a[0] == ('P', H.arg(1)):
                    for p in v.a[1]:
                        own = C.I.pf(own, p[1], p[2]) if p[0] == 'f' else BOT
                else:
                    own = BOT
                held = [x for _, x in leafpaths_deep(C, own)]
                if any(x in held for x in ctls):
                    res.ok('handed-out', short(a), 'gives the parameters of the node')
                else:
                    res.bad('handed-out', short(a), 'does not give the parameters of the node', a.where)
        got = set()
        for a in prog.local():
            if not a.blocks or not a.locals or a.npath.rsplit('::', 2)[-2] != rn or a.argc != 1:
                continue
            if tname(prog, C.I.pointee_ty(a.locals[0][0])) != 'AudioParameter':
                continue
            H = analyse(prog, a)
            v = H.ret
            ks = [p for p in v.a[1] if p[0] == 'k'] if v.op == 'ref' and v.a[0] == ('P', H.arg(1)) else []
            if len(ks) != 1 or ks[0][1].op != 'str':
                raise NoAnswer('%s: which parameter is handed out cannot be resolved' % short(a))
            nm = ks[0][1].a[0]
            if nm.replace('-', '_') == a.name and nm in names:
                res.ok('handed-out', short(a), "gives the parameter '%s'" % nm)
                got.add(nm)
            else:
                res.bad('handed-out', short(a), "gives the parameter '%s'" % nm, a.where)
    res.assumptions.append('the input and the output a node is given have the same number of frames and the same rate (R06, R10)')
    res.need('nodes', nodes, 8)
    res.need('parameters', sum(len(v) for v in declared.values()), 8)
    res.cov.update(functions=nodes * 2 + 3, roots=[P.npath, D.fn.npath] + [short(f) for f, _, _ in constructors(prog)])
    res.notes.append('Node constructors are found as the functions that call GraphNode::new; processors from the type of the value boxed there.')


def found_in(t, key):
    """what a map of one's own holds under the key, or nothing if it holds none"""
    if t.op != 'ite' or t.a[0].op != 'has' or t.a[0].a[1] is not key:
        return False
    some, none = t.a[1], t.a[2]
    if some.op != 'adt' or none.op != 'adt' or none.a[1] != 0 or some.a[1] != 1 or len(some.a) != 3 or some.a[2].op != 'ref':
        return False
    p = some.a[2].a[1]
    return bool(p) and p[-1][0] == 'k' and p[-1][1] is key


def literal_names(C, x, lid, res, who):
    """the names the parameters made at this call have"""
    nm, rng = x.args[1], x.args[2]
    pairs = []
    if lid is None:
        pairs = [(nm, rng)]
    else:
        arr = [t for t in subterms(nm) if t.op == 'array']
        sel = [t for t in subterms(nm) if t.op == 'select']
        k = mk('k', lid)
        trips = C.I.loops[lid].trips
        if len(arr) != 1 or len(sel) != 1 or sel[0].a[1] is not k or sel[0].a[0] is not arr[0]:
            raise NoAnswer('%s: the names of the parameters cannot be resolved' % who)
        if trips is None or not same(C.I, trips, INT(len(arr[0].a))):
            ex = [g for g in x.gates]
            if not any(g is le(k, INT(len(arr[0].a) - 1)) for g in ex):
                raise NoAnswer('%s: how many parameters are made cannot be resolved' % who)
        for i, el in enumerate(arr[0].a):
            m = {sel[0]: el}
            pairs.append((C.I.simp(subst(nm, m), ()), C.I.simp(subst(rng, m), ())))
    out = set()
    for nm, rng in pairs:
        if nm.op == 'tuple':
            nm = nm.a[0]
        if nm.op != 'str':
            raise NoAnswer('%s: the name of a parameter cannot be resolved: %s' % (who, str(nm)[:80]))
        if nm.a[0] in out:
            res.bad('declared', who, "the name '%s' is declared twice" % nm.a[0], x.where)
        out.add(nm.a[0])
    return out


def leafpaths_deep(A, v, n=0):
    """every part of a value, through boxes and structures"""
    if n > 8:
        return
    if v.op == 'box':
        yield from leafpaths_deep(A, A.final(v.a[0]), n + 1)
    elif v.op == 'adt':
        for x in v.a[2:]:
            yield from leafpaths_deep(A, x, n + 1)
    elif v.op in ('tuple', 'cell'):
        for x in v.a:
            yield from leafpaths_deep(A, x, n + 1)
    else:
        yield (), v


RULES = {'R12': r12, 'R13': r13, 'R14': r14}
