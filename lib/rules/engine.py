"""R04-R07: the engine's transport, clock, block splitting and command queue."""
from q import *
import interp


def processor(prog):
    fs = prog.trait_method('AudioProcess', 'process')
    fs = [f for f in fs if f.blocks]
    if len(fs) != 1:
        raise NoAnswer('expected one audio processor, found %d' % len(fs))
    return fs[0]


def run_processor(prog):
    return analyse(prog, processor(prog), bulk, 'processor')


def created(prog):
    """the two halves of the engine as they are built: (analysis, processor value, control value)"""
    A = analyse(prog, fn(prog, 'create_engine_with_options'))
    ptys = {processor(prog).selfty}
    r = A.ret
    if r.op != 'tuple' or len(r.a) != 2:
        raise NoAnswer('the engine constructor does not return a pair')
    out = []
    for x in r.a:
        x = unbox(A, x)
        out.append(x)
    return A, out[1], out[0]


def unbox(A, v):
    n = 0
    while v.op == 'box' and n < 4:
        v = A.final(v.a[0])
        n += 1
    return v


def root_method(prog, name):
    fs = [f for f in prog.trait_method('Context', name) if f.blocks]
    if not fs:
        raise NoAnswer('no implementation of Context::%s' % name)
    return fs[0]


def sent(A):
    """commands sent by a control function: [(event, message)]"""
    return [(e, e.args[1]) for e in A.events if len(e.args) > 1 and
            (e.kind == 'chan' and e.name.endswith('send') or e.kind == 'call' and e.trait == 'CommandQueue' and e.name.endswith('::send'))]


def command_variant(prog, res, method):
    A = analyse(prog, root_method(prog, method))
    s = sent(A)
    if len(s) != 1 or s[0][1].op != 'adt' or s[0][0].loops:
        raise NoAnswer('%s does not send exactly one command' % method)
    e, m = s[0]
    if e.pc:
        res.bad('transport-command', '%s' % A.fn.npath, 'sends its command only under a condition', e.where)
    return m


def leafpaths(A, v, ty, path=()):
    """(path, value) of the scalar fields of a struct value"""
    if v.op == 'adt':
        for i, x in enumerate(v.a[2:]):
            yield from leafpaths(A, x, None, path + (('f', v.a[1], i),))
    else:
        yield path, v


def field_value(A, v, path):
    for p in path:
        v = A.I.pf(v, p[1], p[2])
    return v


def receive_loop(A, res):
    """the loop that takes commands from the queue: (try_recv event, loop info)"""
    rx = [e for e in A.ev('chan') if e.name.endswith('try_recv') and 'Command' in ' '.join(A.prog.tystr(t) for t in e.argtys if t is not None)]
    if not rx:
        raise NoAnswer('the processor takes no commands from a queue')
    return rx


def is_self(t, name='arg1'):
    return t.op == 'sym' and t.a[0] == name


def field_phi(A, lid, path):
    return mk('phi', lid, ('P', A.arg(1)), tuple(path))


class Engine:
    """what the other rules need to know about the processor"""

    def __init__(self, prog, res, A=None):
        self.prog = prog
        A = self.A = A or run_processor(prog)
        self.C, self.built, self.control = created(prog)
        rx = receive_loop(A, res)
        self.rx = rx
        e = rx[0]
        if not e.loops:
            raise NoAnswer('commands are not taken in a loop')
        self.cl = e.loops[-1]
        self.info = A.I.loops[self.cl]
        self.recv = e.ret
        self.msg = mk('field', e.ret, 0, 0)
        self.start = command_variant(prog, res, 'start')
        self.stop = command_variant(prog, res, 'stop')
        self.nvar = len(prog.types[self.start.a[0]]['fields'])
        self.flag = None
        # the transport flag: the field the start command sets and the stop command clears
        cands = []
        for ph, (base, path, init, step) in self.info.phis.items():
            if base != ('P', A.arg(1)):
                continue
            s1 = self.on(step, self.start.a[1])
            s0 = self.on(step, self.stop.a[1])
            if s1 in (TRUE, FALSE) and s0 in (TRUE, FALSE):
                cands.append((ph, path, init, step, s1, s0))
        self.cands = cands

    def on(self, t, variant):
        """t in an iteration that received the given command"""
        A = self.A
        lits = (notb(mk('is', self.recv, 1)), mk('is', self.recv, 0), mk('is', self.msg, variant))
        t = A.I.simp(t, lits)
        m = {}
        for v in range(self.nvar):
            m[mk('is', self.msg, v)] = TRUE if v == variant else FALSE
        m[mk('is', self.recv, 1)] = FALSE
        m[mk('is', self.recv, 0)] = TRUE
        return A.I.simp(subst(t, m), lits)


def engine(prog, res):
    return Engine(prog, res)


def writes_output(A, e, out):
    """does the event change what the caller's output buffer holds"""
    if e.kind in ('fill', 'copy', 'store', 'copywithin', 'swap'):
        return bool(e.args) and reaches(A, e.args[0], out)
    if e.kind == 'call' and e.trait and e.trait.endswith('AudioBuffer') or e.kind == 'call' and '::AudioBuffer::' in e.name:
        nm = last(e.name)
        if nm in READONLY or nm == 'get_channel_data_mut':
            return False
        return bool(e.args) and (reaches(A, e.args[0], out) or span(A, e, e.args[0])[0] is out)
    return False


def span(A, e, v):
    """(buffer, first frame) of what a buffer or a window of one shows"""
    off = ZERO
    for i in range(4):
        if v.op != 'ref' or v.a[0][0] not in ('L', 'A'):
            break
        w = A.at(e, v)
        if w.op != 'adt' or tname(A.prog, w.a[0]) not in ('BorrowedAudioBuffer', 'MutableBorrowedAudioBuffer'):
            break
        parts = [x for x in w.a[2:] if x.op == 'adt' and tname(A.prog, x.a[0]) == 'SampleRange']
        under = [x for x in w.a[2:] if x not in parts]
        if len(parts) != 1 or len(under) != 1:
            break
        names = A.prog.adts[A.prog.types[parts[0].a[0]]['path']]['variants'][0]['f']
        off = add(off, A.I.pf(parts[0], 0, names.index('frame')))
        v = under[0]
    return v, off


def copied(A, e):
    """(buffer written, first frame written, frames, buffer read, first frame read) of a copy from one buffer to another"""
    if e.kind != 'call' or last(e.name) not in ('copy_from', 'add_from') or len(e.args) < 6:
        return None
    a, b = e.args[2], e.args[3]
    if a.op != 'adt' or b.op != 'adt':
        return None
    to, o1 = span(A, e, e.args[0])
    fr, o2 = span(A, e, e.args[1])
    return to, add(o1, b.a[3]), e.args[5], fr, add(o2, a.a[3])


READONLY = ('channel_count', 'frame_count', 'sample_rate', 'length_in_seconds', 'get_channel_data', 'range_is_valid', 'frame_iter',
            'get_sample', 'is_empty', 'copy_to_interleaved', 'duplicate')


def reaches(A, v, out, n=0):
    """is v a reference into the buffer `out` (directly, or channel data obtained from it)"""
    if v is out:
        return True
    if n > 12:
        return False
    if v.op in ('ref', 'slice', 'box'):
        b = v.a[0]
        if b[0] in ('P', 'C'):
            return reaches(A, b[1], out, n + 1)
        return False
    if v.op == 'ret':
        e = ret_event(A, v)
        return e is not None and bool(e.args) and reaches(A, e.args[0], out, n + 1)
    if v.op in ('field', 'transmute', 'select', 'deref0'):
        return reaches(A, v.a[0], out, n + 1)
    if v.op == 'ite':
        return reaches(A, v.a[1], out, n + 1) or reaches(A, v.a[2], out, n + 1)
    return False


def ret_event(A, v):
    m = getattr(A, '_rets', None)
    if m is None:
        m = A._rets = {}
        for e in A.events:
            if e.ret is not None:
                m[e.ret] = e
                if e.ret.op == 'ret':
                    m.setdefault(('id', e.ret.a[0]), e)
    x = m.get(v)
    if x is None and v.op == 'ret':
        x = m.get(('id', v.a[0]))
    return x


def name(e):
    return '%s (%s)' % (e.fn.npath, last2(e.name) if e.name else e.kind)


def find_flag(E, res):
    A = E.A
    good = [c for c in E.cands if c[4] is TRUE and c[5] is FALSE or c[4] is FALSE and c[5] is TRUE]
    # rendering must be gated by it; the flag is the candidate any render is gated by, or the only one
    if not good:
        return None
    return good[0]


def r04(prog, res, tier):
    E = Engine(prog, res)
    A = E.A
    res.cov.update(functions=len(A.I.inlined), events=len(A.events), loops=len(A.I.loops), call_sites=len(A.events),
                   roots=[A.fn.npath])
    c = find_flag(E, res)
    if c is None:
        res.bad('transport-flag', A.fn.npath, 'no state of the processor is set by the start command and cleared by the stop command', A.fn.where)
        return
    ph, path, init, step, on_, off_ = c
    run = ph if on_ is TRUE else notb(ph)
    # after the command loop the flag is the loop's value at its exit
    res.ok('transport-flag', A.fn.npath, 'state %s is set by start and cleared by stop' % (path,))
    for v in range(E.nvar):
        if v in (E.start.a[1], E.stop.a[1]):
            continue
        s = E.on(step, v)
        if s is not ph:
            res.bad('transport-flag', A.fn.npath, 'the transport state is changed by command %d, which is neither start nor stop' % v, A.fn.where)
        else:
            res.ok('transport-flag', 'command %d' % v, 'leaves the transport state alone')
    if not init_is_field(A, init, path):
        res.bad('transport-flag', A.fn.npath, 'the transport state is changed before the commands are handled', A.fn.where)
    fin = field_value(A, A.final(('P', A.arg(1))), path)
    if fin is not ph:
        res.bad('transport-flag', A.fn.npath, 'the transport state is changed outside the command loop', A.fn.where)
    b = field_value(E.C, E.built, path)
    if b is not (FALSE if on_ is TRUE else TRUE):
        res.bad('initially-stopped', E.C.fn.npath, 'the engine is not created stopped', E.C.fn.where)
    else:
        res.ok('initially-stopped', E.C.fn.npath, 'created stopped')
    out = A.arg(3)
    clears = []
    nr = 0
    for e in A.events:
        render = e.kind == 'call' and last(e.name) == 'process_audio' and e.trait and e.trait.endswith('DspProcessor') or \
            e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')
        clock = e.kind == 'atomic' and e.name.endswith('store') and reaches(A, e.args[0], A.arg(1)) and not any(
            e2.loops for e2 in (e,))
        wr = writes_output(A, e, out)
        if wr and silence(A, e, out):
            clears.append(e)
            continue
        if render or clock or wr:
            nr += 1
            if A.holds(e.pc, run):
                res.ok('gated', name(e), 'only while started')
            else:
                res.bad('gated', name(e), 'a stopped engine still %s' % ('renders' if render else 'advances its clock' if clock else 'writes to the output'), e.where)
    res.need('gated render effects', nr, 3)
    # while stopped the position does not move
    f0 = mk('deref0', A.arg(1))
    fv = A.final(('P', A.arg(1)))
    if fv.op == 'adt':
        for i, x in enumerate(fv.a[2:]):
            t = prog.types[prog.types[fv.a[0]]['fields'][0][i]] if prog.types[fv.a[0]]['k'] == 'adt' else None
            if t and t['k'] in ('uint', 'int', 'float'):
                y = A.under(subst(x, {ph: FALSE if on_ is TRUE else TRUE}))
                if y is mk('field', f0, 0, i):
                    res.ok('frozen', 'field %d' % i, 'unchanged while stopped')
                else:
                    res.bad('frozen', A.fn.npath, 'a stopped engine moves its position (field %d)' % i, A.fn.where)
    # silence: the whole output is cleared on every path, before anything else is written
    full = [e for e in clears if whole_clear(A, e, out)]
    stopped_clear = [e for e in full if A.holds((notb(run),), andb(*gpc(A, e, E.cl)))]
    if stopped_clear:
        res.ok('silent', name(stopped_clear[0]), 'the output is cleared while stopped')
    else:
        res.bad('silent', A.fn.npath, 'a stopped engine leaves what the caller had in the output buffer', A.fn.where)
    run_clear = [e for e in full if A.holds((run,), andb(*gpc(A, e, E.cl)))]
    first = min([e.seq for e in A.events if writes_output(A, e, out) and e not in clears] or [10 ** 9])
    if any(e.seq < first for e in run_clear):
        res.ok('silent', 'started', 'the output is cleared before anything is rendered into it')
    else:
        res.bad('silent', A.fn.npath, 'what no node renders is left as the caller had it', A.fn.where)
    # and while started something does run
    rend = [e for e in A.events if e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')]
    if not rend:
        res.bad('started-renders', A.fn.npath, 'no node is ever rendered', A.fn.where)
    res.notes.append('The audio callback is evaluated once with all its callees inlined; each event that renders a node, stores the clock or '
                     'writes the output carries its guard, which must entail the transport state; that state\'s step over each command and '
                     'its initial value are read off the command loop and the constructor.')


def gpc(A, e, cl):
    """the guard of an event without the choice of how the command loop ended"""
    return list(e.gates)


def init_is_field(A, init, path):
    v = mk('deref0', A.arg(1))
    for p in path:
        v = mk('field', v, p[1], p[2])
    return init is v


def silence(A, e, out):
    if e.kind == 'call' and last(e.name) in ('clear', 'clear_range'):
        return True
    if e.kind == 'call' and last(e.name) in ('fill_with_value', 'fill_channel_with_value'):
        return any(is_zero(a) for a in e.args)
    if e.kind == 'fill':
        return is_zero(e.args[1])
    return False


def is_zero(a):
    return a.op == 'fl' and float(a.a[0]) == 0.0 or str(a) == '0.0f'


def whole_clear(A, e, out):
    if e.kind == 'call' and last(e.name) == 'clear' and e.args[0] is out:
        return True
    if e.kind == 'call' and last(e.name) == 'fill_with_value' and e.args[0] is out:
        return True
    if e.kind == 'fill' and e.loops:
        # for every channel: the loop index is the channel, the fill covers the channel's slice
        d = e.args[0]
        b = d.a[0] if d.op in ('ref', 'slice') else None
        if b and b[0] == 'P' and b[1].op == 'ret':
            g = ret_event(A, b[1])
            if g is not None and g.args[0] is out and len(e.args) > 2:
                loc = g.args[1]
                k = mk('k', e.loops[-1])
                n = mk('app', 'channel_count', mk('deref0', out))
                guard = [l for l in e.pc]
                fullch = loc.op == 'adt' and loc.a[2] is k and loc.a[3] is ZERO
                cover = any(l is le(add(k, ONE), n) for l in guard)
                whole = same(A.I, e.args[2], A.I.length(mk('deref0', b[1])), e.pc) or \
                    same(A.I, e.args[2], mk('app', 'frame_count', mk('deref0', out)), e.pc)
                return fullch and cover and whole
    return False




def stores(A, out):
    return [e for e in A.events if e.kind == 'atomic' and last(e.name) in ('store', 'swap', 'fetch_add', 'fetch_sub', 'compare_exchange', 'fetch_max', 'fetch_update')
            and reaches(A, e.args[0], A.arg(1))]


ORD = {0: 'Relaxed', 1: 'Release', 2: 'Acquire', 3: 'AcqRel', 4: 'SeqCst'}


def seconds_of(t):
    """(frames, rate) when t is the fixed-point time of frames / rate"""
    if t.op == 'fixed':
        t = t.a[0]
    if t.op == 'app' and t.a[0] == 'fixed_from_num' and t.a[1].op == 'fdiv':
        n, d = t.a[1].a
        if n.op == 'i2f' and d.op == 'i2f':
            return n.a[0], d.a[0]
    return None


def r05(prog, res, tier):
    E = Engine(prog, res)
    A = E.A
    out = A.arg(3)
    n = mk('app', 'frame_count', mk('deref0', out))
    c = find_flag(E, res)
    run = [] if c is None else [c[0] if c[4] is TRUE else notb(c[0])]
    res.cov.update(functions=len(A.I.inlined), events=len(A.events), loops=len(A.I.loops), call_sites=len(A.events), roots=[A.fn.npath])
    who = A.fn.npath
    st = stores(A, out)
    if len(st) != 1:
        res.bad('published-once', who, 'the clock is stored at %d places in one callback' % len(st), A.fn.where)
        if not st:
            return
    for e in st:
        if e.loops:
            res.bad('published-once', name(e), 'the clock is stored inside a loop: a callback can publish intermediate times', e.where)
        else:
            res.ok('published-once', name(e), 'stored once per callback')
        o = e.args[-1]
        if last(e.name) != 'store' or not (o.op == 'adt' and o.a[1] in (1, 4)):
            res.bad('ordering', name(e), 'the clock is not published with release ordering', e.where)
        else:
            res.ok('ordering', name(e), ORD[o.a[1]])
        late = [x for x in A.events if x.seq > e.seq and (writes_output(A, x, out) or x.kind == 'call' and x.name.endswith('DspProcessor::process_audio'))]
        if late:
            res.bad('published-after', name(e), 'the clock is published before the block is rendered', e.where)
        else:
            res.ok('published-after', name(e), 'nothing is rendered after the clock is published')
        # value
        fin = A.final(('P', A.arg(1)))
        fin = A.under(fin, *run)
        sr = seconds_of(A.I.simp(e.args[1], e.pc))
        if sr is None:
            res.bad('value', name(e), 'the published time is not frames rendered divided by the sample rate', e.where)
            continue
        frames, rate = sr
        pos = None
        if fin.op == 'adt':
            for i, x in enumerate(fin.a[2:]):
                x = A.under(subst(x, {run[0]: TRUE} if run and run[0].op != 'not' else {}), *run)
                if same(A.I, x, frames, e.pc):
                    pos = i
                    posv = x
        if pos is None:
            res.bad('value', name(e), 'the published time does not follow the position that is carried to the next block', e.where)
            continue
        f0 = mk('field', mk('deref0', A.arg(1)), 0, pos)
        if same(A.I, sub(posv, f0), n):
            res.ok('value', name(e), 'position advances by the frames of the block')
        else:
            res.bad('value', name(e), 'a block does not advance the position by its frame count', e.where)
        if E.built.op == 'adt':
            b = A.pf(E.built, pos)
            if b is ZERO:
                res.ok('value', E.C.fn.npath, 'position starts at zero')
            else:
                res.bad('value', E.C.fn.npath, 'the position does not start at zero', E.C.fn.where)
            # the rate is the one the application asked for
            G = analyse(prog, root_method(prog, 'get_sample_rate'))
            ri = rate.a[2] if rate.op == 'field' and rate.a[0] is mk('deref0', A.arg(1)) else None
            gi = G.ret.a[2] if G.ret.op == 'field' and G.ret.a[0] is mk('deref0', G.arg(1)) else None
            if ri is not None and gi is not None and A.pf(E.built, ri) is A.pf(E.control, gi):
                res.ok('value', 'sample rate', 'the rate the clock divides by is the rate the context reports')
            else:
                res.bad('value', name(e), 'the clock does not run at the sample rate the context reports', e.where)
            # one cell, shared, zero
            ci = e.args[0]
            cell = A.pf(E.built, ci.a[2]) if ci.op == 'field' else BOT
            G = analyse(prog, root_method(prog, 'current_time'))
            lds = [x for x in G.events if x.kind == 'atomic']
            if len(lds) != 1 or last(lds[0].name) != 'load':
                res.bad('read', G.fn.npath, 'reading the time is not one atomic load', G.fn.where)
                continue
            l = lds[0]
            li = l.args[0]
            rcell = A.pf(E.control, li.a[2]) if li.op == 'field' else None
            if rcell is cell and cell.op == 'box':
                res.ok('read', G.fn.npath, 'reads the cell the callback publishes')
            else:
                res.bad('read', G.fn.npath, 'does not read the cell the callback publishes', l.where)
            z = E.C.final(cell.a[0]) if cell.op == 'box' else BOT
            if z.op == 'atomic' and z.a[0] is ZERO:
                res.ok('read', E.C.fn.npath, 'the published time starts at zero')
            else:
                res.bad('read', E.C.fn.npath, 'the published time does not start at zero', E.C.fn.where)
            if not (l.args[-1].op == 'adt' and l.args[-1].a[1] in (2, 4)):
                res.bad('ordering', G.fn.npath, 'the clock is not read with acquire ordering', l.where)
            else:
                res.ok('ordering', G.fn.npath, ORD[l.args[-1].a[1]])
            r = G.ret
            while r.op == 'adt' and len(r.a) == 3:
                r = r.a[2]
            if r.op == 'fixed' and r.a[0] is l.ret:
                res.ok('read', G.fn.npath, 'returns the published value as it is')
            else:
                res.bad('read', G.fn.npath, 'does not return the published value as it is', G.fn.where)
    # nobody else writes such a cell
    k = 0
    for f in prog.local():
        if not f.blocks or f.key in A.I.inlined:
            continue
        for b in f.blocks:
            t = b[1]
            if t[0] == 'call':
                cn = callee_name(t[1])
                if 'AtomicI64' in cn and last(cn) in ('store', 'swap', 'fetch_add', 'fetch_sub', 'compare_exchange', 'fetch_max', 'fetch_min'):
                    res.bad('single-writer', f.npath, 'also writes a clock cell', '%s:%s' % (f.file, b[2]))
                k += 1
    res.ok('single-writer', 'crate', '%d call sites looked at, no other writer' % k)
    res.cov['call_sites'] = k + len(A.events)
    res.notes.append('The stored value is expressed over the state at the start of the callback by value analysis and compared with the position '
                     'the callback leaves behind; both halves of the engine are evaluated at their construction to identify the shared cell.')


def callee_name(c):
    return c.get('npath') or c.get('path') or c.get('name') or '' if isinstance(c, dict) else str(c)


def init_of(A, t, lid):
    phis = A.I.loops[lid].phis
    m = {p: v[2] for p, v in phis.items()}
    m[mk('k', lid)] = ZERO
    return A.I.simp(subst(t, m), ())


def next_of(A, t, lid, pc=()):
    phis = A.I.loops[lid].phis
    m = {p: v[3] for p, v in phis.items()}
    m[mk('k', lid)] = add(mk('k', lid), ONE)
    return A.I.simp(subst(t, m), pc)


def invariants(A, E):
    """fields of the processor (and of the structs inside) that are built equal and never change: [equality facts]"""
    built = list(leafpaths(E.C, E.built, None))
    fin = A.final(('P', A.arg(1)))
    by = {}
    for path, v in built:
        if v.op == 'field' or v.op == 'sym':
            t = mk('deref0', A.arg(1))
            for p in path:
                t = mk('field', t, p[1], p[2])
            if field_value(A, fin, path) is t:
                by.setdefault(v, []).append(t)
    m = {}
    for v, ts in by.items():
        for a in ts[1:]:
            m[a] = ts[0]
    return m


def r06(prog, res, tier):
    E = Engine(prog, res)
    A = E.A
    I = A.I
    inp, out = A.arg(2), A.arg(3)
    n = mk('app', 'frame_count', mk('deref0', out))
    nin = mk('app', 'frame_count', mk('deref0', inp))
    inv = invariants(A, E)
    canon = lambda t: subst(t, inv)
    facts = [eq(a, b) for a, b in inv.items()]
    who = A.fn.npath
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[who], invariants=[str(f)[:200] for f in facts])
    rend = [e for e in A.events if e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')]
    res.need('node renders in the callback', len(rend), 1)
    copies = [e for e in A.events if writes_output(A, e, out) and not silence(A, e, out)]
    res.need('writes of the output in the callback', len(copies), 1)
    ctxf = prog_fields(prog, 'ProcessContext')
    sr_built = None
    for e in rend:
        if not e.loops:
            res.bad('split', name(e), 'the block is not rendered in sub-blocks of the maximum size', e.where)
            continue
    if not rend or any(not e.loops for e in rend):
        return
    L = rend[0].loops[0]
    for w in copies:
        if not w.loops or w.loops[0] != L:
            res.bad('split', name(w), 'the output is not written once per sub-block', w.where)
            continue
        # frame offset and length of this write
        loc = location(A, w.args[0])
        whole = copied(A, w)
        if whole:
            loc = whole[1:3]
        if loc is None:
            raise NoAnswer('cannot tell where %s writes' % name(w))
        off, cnt = loc
        cnt = cnt if cnt is not None else (w.args[2] if len(w.args) > 2 else None)
        off, cnt = canon(off), canon(cnt)
        pc = tuple(canon(g) for g in w.pc) + tuple(facts)
        o0 = init_of(A, off, L)
        if same(I, o0, ZERO):
            res.ok('contiguous', name(w), 'the first sub-block is written at the start of the output')
        else:
            res.bad('contiguous', name(w), 'the first sub-block is not written at the start of the output', w.where)
        o1 = canon(next_of(A, off, L, pc))
        # frames each node renders in this sub-block
        if same(I, o1, add(off, cnt), pc) or ends_there(o1, off, cnt, n, pc):
            res.ok('contiguous', name(w), 'each sub-block is written where the last one ended')
        else:
            res.bad('contiguous', name(w), 'sub-blocks overlap or leave gaps in the output', w.where)
        ex = exit_facts(I, L)
        if ex is None and getattr(I.loops[L], 'trips', None) is not None:
            ex = (le(I.loops[L].trips, I.loops[L].k),)
        ex = ex and tuple(canon(x) for x in ex)
        if ex is not None and Lin(ex, interp.is_signed).holds(le(n, off)):
            res.ok('covers', name(w), 'sub-blocks are rendered until the output is full')
        else:
            res.bad('covers', name(w), 'the block can end before the output is full', w.where)
        for e in rend:
            ctx = A.at(e, e.args[1])
            if ctx.op != 'adt':
                raise NoAnswer('the render context cannot be resolved')
            ib = A.at(e, A.pf(ctx, ctxf['input_buffer']))
            ob = A.at(e, A.pf(ctx, ctxf['output_buffer']))
            stt = A.at(e, A.pf(ctx, ctxf['start_time']))
            ip = A.at(e, A.pf(ctx, ctxf['parameters']))
            pce = tuple(canon(g) for g in e.pc) + tuple(facts)
            for b, what in ((ib, 'input'), (ob, 'output')):
                fc = view_frames(A, b)
                fc = fc if fc is None else canon(fc)
                if fc is None:
                    raise NoAnswer('the %s window of a node cannot be resolved' % what)
                if all(Lin(tuple(pce), interp.is_signed).holds(x) for x in (le(fc, cnt), le(cnt, fc))) or same(I, fc, cnt, pce):
                    res.ok('frames', name(e), 'a node is given exactly the frames of its sub-block (%s)' % what)
                else:
                    res.bad('frames', name(e), 'the %s a node is given does not have the frames of its sub-block' % what, e.where)
            if below_max(A, E, cnt, pce, canon):
                res.ok('split', name(e), 'no sub-block is longer than the maximum frame count')
            else:
                res.bad('split', name(e), 'a sub-block can be longer than the maximum frame count', e.where)
            if start_ok(A, E, stt, off, e, canon):
                res.ok('start-time', name(e), 'a sub-block starts at the block time plus its offset')
            else:
                res.bad('start-time', name(e), 'the start time a node is given is not the time of the first frame of its sub-block', e.where)
        # the input read for this sub-block
        for e in A.events:
            cp = copied(A, e)
            if e.kind == 'call' and last(e.name) in ('get_channel_data', 'copy_to_interleaved') and e.args and reaches(A, e.args[0], inp) or cp and cp[3] is inp:
                l = e.args[1]
                io = cp[4] if cp else l.a[3] if l.op == 'adt' else None
                if io is not None and same(I, canon(io), off, pc) and e.loops and e.loops[0] == L:
                    res.ok('input', name(e), 'the input is read at the offset the output is written at')
                else:
                    res.bad('input', name(e), 'the input is read at another offset than the output is written at', e.where)
    # host input read at all
    if not any(e.kind == 'call' and e.args and (last(e.name) == 'get_channel_data' and reaches(A, e.args[0], inp) or (copied(A, e) or [None] * 4)[3] is inp)
               for e in A.events):
        res.bad('input', who, 'the input of the block is never read', A.fn.where)
    res.notes.append('Induction over the sub-block loop: the offset of every output write is zero at entry, its step is the length written, and the '
                     'loop exit entails that the offset has reached the block length; node windows and start times are compared with that offset. '
                     'Struct fields built equal and never assigned are taken as equal.')
    res.assumptions += ['the maximum frame count is at least one']


def ends_there(o1, off, cnt, n, pc):
    """the next sub-block starts where this one ended, or this one ends the block and there is no next"""
    if cnt.op != 'min':
        return False
    for x in cnt.a:
        L = Lin(tuple(pc) + tuple(le(x, y) for y in cnt.a), interp.is_signed)
        if not (L.holds(eq(o1, add(off, x))) or (L.holds(eq(add(off, x), n)) and L.holds(le(n, o1)))):
            return False
    return True


def exit_facts(I, lid):
    for k, v in EXITS.items():
        if k.op == 'exit' and k.a[0] == lid and k.a[2] == 1:
            return v
    return None


def prog_fields(prog, adt):
    for p, a in prog.adts.items():
        if p.rsplit('::', 1)[-1] == adt and a['krate'] == 'rawdio':
            return {n: i for i, n in enumerate(a['variants'][0]['f'])}
    raise NoAnswer('no type %s' % adt)


def location(A, v):
    """(frame offset, length) of a reference into a channel of a buffer"""
    if v.op in ('ref', 'slice'):
        b = v.a[0]
        if b[0] != 'P':
            return None
        g = ret_event(A, b[1])
        if g is None or last(g.name) not in ('get_channel_data_mut', 'get_channel_data'):
            return None
        l = g.args[1]
        if l.op != 'adt':
            return None
        off, cnt = l.a[3], None
        if v.op == 'slice':
            off, cnt = add(off, v.a[2]), v.a[3]
        else:
            for p in v.a[1]:
                if p[0] == 'sub':
                    off, cnt = add(off, p[1]), p[2]
                elif p[0] == 'i':
                    off, cnt = add(off, p[1]), ONE
        return off, cnt
    return None


def view_frames(A, b):
    """the frame count of a buffer value: a window's range, an owned buffer's frames"""
    if b.op != 'adt':
        return None
    t = A.prog.types[b.a[0]]
    names = A.prog.adts.get(t['path'])
    if names is None:
        return None
    f = names['variants'][0]['f']
    if 'frame_count' in f:
        return A.I.pf(b, 0, f.index('frame_count'))
    for i, x in enumerate(b.a[2:]):
        if x.op == 'adt':
            r = view_frames(A, x)
            if r is not None:
                return r
    return None


def below_max(A, E, cnt, pc, canon=lambda t: t):
    # a field of the processor built from the option the application gave
    G = analyse(A.prog, root_method(A.prog, 'maximum_frame_count'))
    gi = G.ret.a[2] if G.ret.op == 'field' else None
    if gi is None:
        return False
    opt = A.pf(E.control, gi)
    for path, v in leafpaths(E.C, E.built, None):
        if v is opt:
            t = mk('deref0', A.arg(1))
            for p in path:
                t = mk('field', t, p[1], p[2])
            if Lin(tuple(pc), interp.is_signed).holds(le(cnt, canon(t))):
                return True
    return False


def start_ok(A, E, t, off, e, canon=lambda t: t):
    while t.op == 'adt' and len(t.a) == 3:
        t = t.a[2]
    if t.op != 'fixed':
        return False
    t = t.a[0]
    c, m = poly_parts(t)
    if c != 0:
        return False
    base = None
    rest = []
    for x, k in m.items():
        ev = ret_event(A, x) if x.op == 'ret' else None
        if ev is not None and ev.kind == 'atomic' and last(ev.name) == 'load' and reaches(A, ev.args[0], A.arg(1)) and k == 1:
            base = ev
        else:
            rest.append((x, k))
    rate = None
    for x, k in rest:
        fr = seconds_of(x)
        if fr is None or k != 1:
            return False
        rate = fr[1]
        frames = fr[0]
        if base is not None:
            if not same(A.I, canon(frames), off, e.pc):
                return False
        else:
            st = stores(A, None)
            pos = [mk('field', mk('deref0', A.arg(1)), 0, i) for i in range(12)]
            if not any(same(A.I, frames, add(p, off), e.pc) for p in pos):
                return False
    if not rest and not same(A.I, off, ZERO, e.pc):
        return False
    if rate is not None:
        G = analyse(A.prog, root_method(A.prog, 'get_sample_rate'))
        gi = G.ret.a[2] if G.ret.op == 'field' else None
        ri = rate.a[2] if rate.op == 'field' and rate.a[0] is mk('deref0', A.arg(1)) else None
        if gi is None or ri is None or A.pf(E.built, ri) is not A.pf(E.control, gi):
            return False
    return True


def transport(A, E, t):
    """does the condition depend on a scalar the processor itself keeps (started, position, time, sizes)"""
    def scalar(x):
        if x.op == 'phi' and x.a[1] == ('P', A.arg(1)) and len(x.a[2]) == 1:
            path = x.a[2]
        elif x.op == 'field' and x.a[0].op in ('deref0', 'init') and x.a[0].a[0] == ('P', A.arg(1)):
            path = (('f', x.a[1], x.a[2]),)
        else:
            return False
        ft = A.I.field_ty(A.I.pointee_ty(A.fn.locals[1][0]), path[0][1], path[0][2])
        return A.prog.types[ft]['k'] in ('prim', 'int', 'uint', 'float') or 'fixed::' in A.prog.tystr(ft) or tname(A.prog, ft) == 'Timestamp'
    return contains(t, scalar)


def parts_of(A, v, n=0):
    if n > 8:
        return [v]
    if v.op == 'box':
        return parts_of(A, A.final(v.a[0]), n + 1)
    if v.op in ('adt', 'tuple', 'cell'):
        return [y for x in v.a[2 if v.op == 'adt' else 0:] if hasattr(x, 'op') for y in parts_of(A, x, n + 1)]
    return [v]


def sub_at(E, v, own):
    """the value a part of the context has when the engine is made"""
    path = []
    while v.op == 'field' and v is not own:
        path.append((v.a[1], v.a[2]))
        v = v.a[0]
    if v is not own:
        return None
    r = E.control
    for p in reversed(path):
        r = E.C.I.pf(r, p[0], p[1])
    while r.op == 'adt' and len(r.a) == 3:
        r = r.a[2]
    return r


def r07(prog, res, tier):
    E = Engine(prog, res)
    A = E.A
    I = A.I
    who = A.fn.npath
    out = A.arg(3)
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[who])
    if len(E.rx) != 1:
        res.bad('one-receive', who, 'commands are received at %d places' % len(E.rx), A.fn.where)
    e = E.rx[0]
    L = E.cl
    # the receive runs in every callback
    outer = [x for x in e.gates if not contains(x, lambda t: t.op in ('k', 'phi') and t.a[0] == L)]
    pre = [x for x in outer]
    if pre or len(e.loops) != 1:
        res.bad('every-callback', name(e), 'commands are only taken when %s' % (', '.join(str(x)[:80] for x in pre) or 'inside another loop'), e.where)
    else:
        res.ok('every-callback', name(e), 'commands are taken in every callback')
    inner = [x for x in e.gates if x not in pre]
    if inner:
        res.bad('drained', name(e), 'the queue is not read in every round of the command loop', e.where)
    ex = exit_facts(I, L)
    err = mk('is', e.ret, 1)
    if ex is not None and (err in ex or Lin(ex).holds(err)):
        res.ok('drained', name(e), 'the loop ends only when the queue is empty')
    else:
        res.bad('drained', name(e), 'the command loop can end while commands are waiting', e.where)
    # before anything is rendered
    rend = [x for x in A.events if x.kind == 'call' and x.name.endswith('DspProcessor::process_audio')]
    if all(x.seq > e.seq and L not in x.loops for x in rend):
        res.ok('before-render', name(e), '%d node renders come after the command loop' % len(rend))
    else:
        res.bad('before-render', name(e), 'audio is rendered before the waiting commands are handled', e.where)
    # every command does something, in the round that received it
    for v in range(E.nvar):
        effects = [x for x in A.events if L in x.loops and x.seq > e.seq and x.kind not in ('assert', 'panic', 'drop', 'atomic') and
                   any(g is mk('is', E.msg, v) or g.op == 'is' and g.a[0] is E.msg and g.a[1] == v for g in x.pc)]
        steps = []
        free = [x for x in effects if not any(transport(A, E, g) for g in x.pc if g not in e.pc)]
        for ph, (base, path, init, step) in E.info.phis.items():
            if base[0] in ('P', 'A'):
                st = E.on(step, v)
                if st is not ph:
                    steps.append((base, path))
                    if base == ('P', A.arg(1)) and not any(t.op == 'ite' and transport(A, E, t.a[0]) for t in subterms(st)):
                        free.append((base, path))
        if (effects or steps) and not free:
            res.bad('handled', who, 'command %d takes effect only in some states of the transport' % v, A.fn.where)
        elif effects or steps:
            res.ok('handled', 'command %d' % v, '%d effects, %d fields' % (len(effects), len(steps)))
        else:
            res.bad('handled', who, 'command %d has no effect' % v, A.fn.where)
    # one queue: what every handle of the context sends on is what the processor receives on
    ci = e.args[0]
    rxv = None
    if ci.op == 'ref':
        v = E.built
        for p in ci.a[1]:
            v = E.C.I.pf(v, p[1], p[2])
        rxv = v
    if rxv is not None and rxv.op == 'field' and rxv.a[2] == 1:
        chan = rxv.a[0]
        tx = [v for path, v in leafpaths(E.C, E.control, None) if v.op == 'field' and v.a[0] is chan and v.a[2] == 0]
        if tx:
            res.ok('one-queue', E.C.fn.npath, 'the context sends into the queue the callback reads')
        else:
            res.bad('one-queue', E.C.fn.npath, 'the context does not send into the queue the callback reads', E.C.fn.where)
    else:
        raise NoAnswer('the command queue cannot be traced to its construction')
    # what the context hands out leads to its queue
    G = analyse(prog, root_method(prog, 'get_command_queue'))
    own = mk('deref0', G.arg(1))
    ends = [v for v in parts_of(G, G.ret) if v.op == 'field' or v.op == 'ret']
    at = [sub_at(E, v, own) for v in ends]
    if rxv is not None and rxv.op == 'field' and ends and all(v is not None and v.op == 'field' and v.a[0] is chan and v.a[2] == 0 for v in at) and not \
            [x for x in G.events if x.kind in ('chan', 'channew')]:
        res.ok('one-queue', G.fn.npath, 'hands out a sender of the queue the callback reads')
    else:
        res.bad('one-queue', G.fn.npath, 'hands out something other than a sender of the queue the callback reads', G.fn.where)
    # the senders: every implementation passes the command on exactly once, unconditionally
    k = 0
    for f in prog.trait_method('CommandQueue', 'send'):
        if not f.blocks or f.krate_is_test if hasattr(f, 'krate_is_test') else not f.blocks:
            continue
        S = analyse(prog, f)
        s = sent(S)
        if len(s) == 1 and s[0][1] is S.arg(2) and not s[0][0].gates and not s[0][0].loops:
            res.ok('passed-on', f.npath, 'sends its command once')
            k += 1
        else:
            res.bad('passed-on', f.npath, 'does not send its command exactly once', f.where)
    res.need('command senders', k, 1)
    res.notes.append('Order is that of the queue: one unbounded channel, one receive site, each command handled in the loop round that received it '
                     'and none kept for later; the loop is left only on an empty queue.')


RULES = {'R04': r04, 'R05': r05, 'R06': r06, 'R07': r07}
