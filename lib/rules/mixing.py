"""R10, R11: what each node hears, and the buffers it hears it from."""
from q import *
from .engine import leafpaths, name, prog_fields, reaches, ret_event, unbox, created, location, view_frames
from .graph import Nodes, Lists, Stop, Api, api_message, at_path, direction, _Quiet, rooted, exact_keys
import interp
from interp import EXITS, last, last2


_deep, _full = deep, {}


def deep(t, lits):
    lits = tuple(lits)
    if lits not in _full:
        _full[lits] = lits + tuple(x for x in expand(lits) if x not in lits)
    return _deep(t, _full[lits])


class Pools:
    def __init__(self, N, res):
        self.N = N
        A, I, prog = N.A, N.I, N.prog
        S, m, e = api_message(prog, 'GraphNode::connect_to_output')
        self.out_variant = m.a[1]
        ep = m.a[2]
        S2, m2, e2 = api_message(prog, 'GraphNode::connect_to_input')
        self.in_variant = m2.a[1]
        ep2 = m2.a[2]
        if ep.op != 'adt' or ep2.op != 'adt' or ep.a[0] != ep2.a[0]:
            raise NoAnswer('endpoints are not carried by the commands')
        self.epty = ep.a[0]
        self.kindf = [i for i in range(len(ep.a) - 2) if ep.a[2 + i].op == 'adt']
        self.idf = [i for i in range(len(ep.a) - 2) if ep.a[2 + i].op != 'adt']
        if len(self.kindf) != 1 or len(self.idf) != 1:
            raise NoAnswer('endpoints are not a kind and a node')
        self.kindf, self.idf = self.kindf[0], self.idf[0]
        self.OUT = ep.a[2 + self.kindf]
        self.IN = ep2.a[2 + self.kindf]
        if self.OUT is self.IN:
            raise NoAnswer('inputs and outputs are not told apart')
        # the two pools, by the type of what they hold
        self.assigned = self.free = None
        for e in A.events:
            if e.kind in ('mapset', 'mapdel', 'vec') and e.args and N.path_of(e.args[0]) is not None:
                p = N.path_of(e.args[0])
                ety = I.elem_ty(I.place_ty(('P', A.arg(1)), p))
                if tname(prog, ety) == bufname(prog):
                    if e.kind == 'vec':
                        self.free = p if self.free in (None, p) else False
                    else:
                        self.assigned = p if self.assigned in (None, p) else False
        if not self.assigned or not self.free:
            raise NoAnswer('the pools of buffers cannot be told')

    def endpoint(self, kind, idt):
        a = [None, None]
        a[self.kindf] = kind
        a[self.idf] = idt
        return mk('adt', self.epty, 0, *a)

    def origin(self, t):
        """where a buffer was taken from: ('assigned', key) or ('free',)"""
        if t.op == 'mapget':
            if self.root(t.a[0]) == self.assigned:
                return ('assigned', t.a[1])
        if t.op in ('select', 'elem'):
            if self.root(t.a[0]) == self.free:
                return ('free',)
        return None

    def root(self, m):
        n = 0
        while m.op in ('mapset', 'mapdel', 'popped', 'push', 'ite', 'vpush', 'truncated') and n < 60:
            n += 1
            m = m.a[1] if m.op == 'ite' else m.a[0]
        if m.op == 'phi' and m.a[1] == ('P', self.N.A.arg(1)):
            return tuple(m.a[2])
        return None


def bufname(prog):
    return 'OwnedAudioBuffer'


def leaves_of(t, lits=(), d=0):
    """the leaves of a decision tree with the decisions that lead to them"""
    t = deep(t, lits)
    if t.op != 'ite' or d > 40:
        yield lits, t
        return
    c = t.a[0]
    yield from leaves_of(t.a[1], lits + (c,), d + 1)
    yield from leaves_of(t.a[2], lits + (notb(c),), d + 1)


class Walk:
    """a loop over the edges of a node: which list, of which node, and the edge at hand"""

    def __init__(self, N, Ls, lid, which, node, lits):
        A, I, prog = N.A, N.I, N.prog
        self.ok = False
        self.why = ''
        cur = None
        for ph, (b, pp, i2, s2) in I.loops[lid].phis.items():
            if b[0] == 'L' and i2.op == 'adt' and prog.types[i2.a[0]]['path'].endswith('option::Option') and i2.a[1] == 0:
                cur = (ph, s2)
        if cur is None:
            raise NoAnswer('a loop over edges has no cursor')
        c0, s2 = cur
        self.cur = c0
        nodes, edges = N.nodes_now(lid), N.edges_now(lid)
        self.nodes, self.edges = nodes, edges
        nph = mk('mapget', nodes, node)
        self.some = (mk('is', c0, 1), notb(mk('is', c0, 0)), mk('has', edges, mk('field', c0, 1, 0)))
        self.none = (mk('is', c0, 0), notb(mk('is', c0, 1)))
        self.head = mk('field', nph, 0, Ls.head[which])
        self.follow = mk('field', mk('mapget', edges, mk('field', c0, 1, 0)), 0, Ls.next[which])
        base = tuple(lits) + (mk('has', nodes, node),)
        a, b = deep(s2, self.some + base), deep(s2, self.none + base)
        if b is not self.head:
            self.why = 'does not start at the first edge'
        elif a is not self.follow:
            self.why = 'does not go on to the next edge'
        else:
            self.ok = True
        n = len([k for k in EXITS if any(x.op == 'exit' and x.a[0] == lid for x in subterms(k))])
        if self.ok and n != 1:
            self.ok = False
            self.why = 'can end before the last edge'
        self.cases = ((self.some + base, self.follow), (self.none + base, self.head))

    def record(self, h):
        return mk('mapget', self.edges, mk('field', h, 1, 0))


def edge_data(N, Ls, rec, i):
    v = N.I.pf(rec, 0, Ls.data)
    for p in N.api.rel[i]:
        v = N.I.pf(v, p[1], p[2])
    return v


def dsp_fields(prog):
    """(id, inputs, outputs) fields of the record the node constructor sends, and of the handle it returns"""
    S, m, e = api_message(prog, 'GraphNode::new')
    d = unbox(S, S.pf(m, (m.a[1], 0)))
    if d.op != 'adt':
        raise NoAnswer('the node a constructor sends cannot be resolved')
    out = {}
    for i, x in enumerate(d.a[2:]):
        for j, what in ((1, 'id'), (3, 'inputs'), (4, 'outputs'), (5, 'processor'), (6, 'parameters')):
            if x is S.arg(j):
                out[what] = i
    return S, m, d, out


def window(A, e, v):
    """(buffer reference, first channel, first frame, channels, frames) of a window on a buffer"""
    if v.op != 'adt':
        return None
    ref = rng = None
    for x in v.a[2:]:
        if x.op == 'adt' and tname(A.prog, x.a[0]) == 'SampleRange':
            rng = x
        elif x.op in ('ref', 'field'):
            ref = x
    if ref is None or rng is None:
        return None
    f = prog_fields(A.prog, 'SampleRange')
    return ref, *[rng.a[2 + f[n]] for n in ('channel', 'frame', 'channel_count', 'frame_count')]


def node_struct(N, idt):
    """the node record a render call runs on: the term whose fields are inputs, outputs and processor"""
    t = N.render.args[0]
    chain = []
    while t.op != 'mapget':
        chain.append(t)
        t = t.a[0]
    return chain, t


def r10(prog, res, tier):
    N = Nodes(prog, res)
    A, I, E = N.A, N.I, N.E
    try:
        Ls = Lists(N, _Quiet())
    except Stop:
        raise NoAnswer('the edge lists are not consistent')
    Pl = Pools(N, res)
    e = N.render
    who, w = name(e), e.where
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[A.fn.npath])
    ctxf = prog_fields(prog, 'ProcessContext')
    ctx = A.at(e, e.args[1])
    win = window(A, e, A.at(e, A.pf(ctx, ctxf['input_buffer'])))
    wout = window(A, e, A.at(e, A.pf(ctx, ctxf['output_buffer'])))
    if win is None or wout is None:
        raise NoAnswer('the windows a node renders with cannot be resolved')
    X = N.id
    # the node's own input and output counts
    S, m, d, df = dsp_fields(prog)
    if not {'inputs', 'outputs'} <= set(df):
        res.bad('channels', S.fn.npath, 'a node is not sent with the channel counts it was created with', S.fn.where)
        return
    chain, root = node_struct(N, X)
    dty = d.a[0]
    base = None
    for t in chain:
        if t.op == 'deref0':
            base = t
            break
    for wd, what, k in ((win, 'input', 'inputs'), (wout, 'output', 'outputs')):
        ref, c0, f0, cc, fc = wd
        want = mk('field', base, 0, df[k]) if base is not None else None
        if same(I, c0, ZERO) and same(I, f0, ZERO) and want is not None and same(I, cc, want):
            res.ok('channels', who, 'a node gets the first %s channels it was created with, from frame 0' % what)
        else:
            res.bad('channels', who, 'the %s window of a node is not the %s channels it was created with' % (what, what), w)
    if same(I, win[4], wout[4], e.pc):
        res.ok('channels', who, 'input and output have the same frames')
    frames = wout[4]
    ins = list(leaves_of(A.at(e, win[0]), tuple(e.pc)))
    out = list(leaves_of(A.at(e, wout[0]), tuple(e.pc)))
    # the output: a buffer of the node's own
    okout = True
    for lits, leaf in out:
        o = Pl.origin(leaf)
        if o is None:
            raise NoAnswer('the output buffer of a node cannot be resolved: %s' % str(leaf)[:200])
        if o[0] == 'assigned' and not same(I, o[1], Pl.endpoint(Pl.OUT, X), lits):
            okout = False
    if okout:
        res.ok('own-output', who, 'a node renders into a free buffer or the one standing for its own output')
    else:
        res.bad('own-output', who, 'a node renders into a buffer that stands for another output', w)
    adds = [a for a in A.events if a.kind == 'call' and last(a.name) in ('add_from', 'copy_from', 'add_from_with_gain') and N.L in a.loops and a.seq < e.seq]
    rows = sum_rows(N, Ls, Pl, adds, X, frames, res)
    own = [Pl.endpoint(Pl.IN, X)]
    k1 = k2 = 0
    for lits, leaf in ins:
        o = Pl.origin(leaf)
        if o is None:
            raise NoAnswer('the input buffer of a node cannot be resolved: %s' % str(leaf)[:200])
        shared = o[0] == 'assigned' and not same(I, o[1], own[0], lits)
        zero = count_is(A, N, Ls, X, lits, 0)
        if nothing_there(Pl, leaf, lits):
            continue
        if not shared:
            k1 += 1
            if zero:
                res.ok('no-input', who, 'a node with nothing connected hears its own buffer')
                continue
            hits = [r for r in rows if all(implied(g, lits) for g in r['outer']) and same(I, deep(r['dest'], lits), leaf, lits)]
            if not hits and silent_source(N, Ls, Pl, X, lits) and no_system_input(N, Pl, X, lits):
                res.ok('sum', who, 'a node whose only source has not rendered hears a silent buffer')
                continue
            if len(hits) == 1:
                res.ok('sum', who, 'a node with connections hears the sum of its incoming edges')
            elif not hits:
                res.bad('sum', who, 'a node with connections can be rendered without their sum in its input (decisions: %s)' % decisions(lits, e.pc), w)
            else:
                res.bad('sum', who, 'the incoming edges of a node are mixed in more than once', w)
        else:
            k2 += 1
            shortcut(N, Ls, Pl, res, e, lits, leaf, o, X, base, df)
    res.need('input cases', k1, 1)
    finish(N, Ls, Pl, res, e, ins, out, X, win, wout)
    system(N, Ls, Pl, res)
    res.notes.append('The input buffer of the render call is one decision tree; each leaf is traced to the pool entry it came from and to the '
                     'mixing loop that filled it (a walk of the incoming list from head to end), or must satisfy the conditions under which reading the '
                     'single source directly is the same.')
    res.assumptions += ['a pool buffer is silent when taken (R11); add_from adds and copy_from copies exactly the given frames (R23)']


def nothing_there(Pl, leaf, lits):
    """the last element of a pool that is empty: the path ends in a panic instead"""
    if leaf.op not in ('select', 'elem') or Pl.root(leaf.a[0]) != Pl.free:
        return False
    m = leaf.a[0]
    while m.op in ('popped', 'push'):
        m = m.a[0]
    lens = [t for t in set(x for l in lits for x in subterms(l)) if t.op == 'len' and Pl.root(t.a[0]) == Pl.free]
    L = Lin(lits, interp.is_signed)
    return any(L.holds(le(t, ZERO)) for t in lens + [mk('len', m)])


def silent_source(N, Ls, Pl, X, lits):
    """there is one edge and nothing stands for the output it comes from"""
    if not count_is(N.A, N, Ls, X, lits, 1):
        return False
    nodes, edges = N.nodes_now(N.L), N.edges_now(N.L)
    head = mk('field', mk('mapget', nodes, X), 0, Ls.head['dst'])
    rec = mk('mapget', edges, mk('field', head, 1, 0))
    key = Pl.endpoint(Pl.OUT, mk('field', rec, 0, Ls.frm))
    has = (mk('is', head, 1), notb(mk('is', head, 0)), mk('has', edges, mk('field', head, 1, 0)))
    for l in expand(lits):
        if l.op == 'not' and l.a[0].op == 'has' and Pl.root(l.a[0].a[0]) == Pl.assigned and deep(l.a[0].a[1], tuple(lits) + has) is deep(key, tuple(lits) + has):
            return True
    return False


def lid_of(t, lid):
    if t.op in ('phi', 'k', 'exit'):
        return t.a[0] == lid
    return any(hasattr(x, 'op') and x.op == 'k' and x.a[0] == lid for x in t.a)


def decisions(lits, pc):
    return '; '.join(str(l)[:80] for l in lits if l not in pc)[:300]


def implied(g, lits):
    lits = tuple(lits) + tuple(x for x in expand(lits) if x not in lits)
    if g in lits:
        return True
    d_ = deep(g, lits)
    if d_ is TRUE:
        return True
    if d_ is FALSE:
        return False
    return Lin(lits, interp.is_signed).holds(d_)


def count_is(A, N, Ls, X, lits, n):
    """do the decisions fix the number of incoming edges of X at n"""
    for l in lits:
        for t in subterms(l):
            if t.op == 'ret':
                ev = ret_event(A, t)
                if ev is not None and last(ev.name) == 'count' and ev.args:
                    dd = direction(N.I, ev.args[0], N.prog)
                    if dd is not None and same(N.I, dd[0], X, lits) and dd[1] == Ls.dir['dst']:
                        if Lin(lits, interp.is_signed).holds(eq(t, INT(n))):
                            return True
    # no head
    h = mk('field', mk('mapget', N.nodes_now(N.L), X), 0, Ls.head['dst'])
    return n == 0 and (mk('is', h, 0) in lits or notb(mk('is', h, 1)) in lits)


def sum_rows(N, Ls, Pl, adds, X, frames, res):
    A, I, E = N.A, N.I, N.E
    lf = prog_fields(N.prog, 'SampleLocation')
    rows = []
    for a in adds:
        inner = a.loops[a.loops.index(N.L) + 1:]
        if len(inner) != 1:
            # the copy of the system input and such have no edge loop
            if not inner:
                res.bad('sum', name(a), 'something is mixed into a node input outside the walk over its edges', a.where)
                continue
            raise NoAnswer('mixing is nested deeper than one walk over edges')
        lid = inner[0]
        if last(a.name) != 'add_from':
            res.bad('sum', name(a), 'an incoming edge replaces what the other edges contributed', a.where)
            continue
        inside = lambda g: contains(g, lambda t: t.op in ('phi', 'k', 'ret', 'exit') and lid_of(t, lid))
        W = Walk(N, Ls, lid, 'dst', X, [l for l in a.pc if not inside(l)])
        if not W.ok:
            res.bad('sum', name(a), 'the mixing loop over the incoming edges of a node %s' % W.why, a.where)
            continue
        src, dl, sl, n, fr = a.args[1], None, None, a.args[4], a.args[5]
        l1, l2 = a.args[2], a.args[3]
        bad = None
        inner_g = [g for g in a.gates if inside(g)]
        for lits, h in W.cases:
            rec = W.record(h)
            lits = tuple(lits) + (mk('is', h, 1), notb(mk('is', h, 0)), mk('has', W.edges, mk('field', h, 1, 0)))
            frm = mk('field', rec, 0, Ls.frm)
            key = Pl.endpoint(Pl.OUT, frm)
            sv = deep(A.at(a, src), lits)
            o = Pl.origin(sv)
            if o is None or o[0] != 'assigned':
                bad = 'the source of an edge is not read from the output of a node'
                break
            if deep(o[1], lits) is not key:
                bad = 'the source of an edge is not read from the output of the node it comes from'
                break
            v = lambda l, f: deep(I.pf(l, 0, lf[f]), lits)
            so, di, nn = (edge_data(N, Ls, rec, i) for i in (3, 4, 5))
            if not (same(I, v(l1, 'channel'), so, lits) and same(I, v(l2, 'channel'), di, lits)):
                bad = 'the channels of an edge are not those it was connected with'
                break
            if not (same(I, v(l1, 'frame'), ZERO, lits) and same(I, v(l2, 'frame'), ZERO, lits)):
                bad = 'an edge is not mixed from the first frame'
                break
            if not same(I, deep(n, lits), nn, lits):
                bad = 'the number of channels of an edge is not what it was connected with'
                break
            if not same(I, deep(fr, lits), frames, lits):
                bad = 'an edge is not mixed for all frames of the sub-block'
                break
            for g in inner_g:
                d_ = deep(g, lits)
                if d_ is TRUE or d_.op == 'has' and Pl.root(d_.a[0]) == Pl.assigned and d_.a[1] is key:
                    continue
                bad = 'an edge is only mixed when %s' % str(d_)[:150]
                break
            if bad:
                break
        if bad:
            res.bad('sum', name(a), bad, a.where)
            continue
        outer = [g for g in a.gates if g not in inner_g]
        rows.append(dict(outer=outer, dest=A.at(a, a.args[0]), ev=a))
        res.ok('edge', name(a), 'every incoming edge is added once, from its source output and channels to its destination channels')
    return rows


def shortcut(N, Ls, Pl, res, e, lits, leaf, o, X, base, df):
    """reading the single source's output in place of a sum"""
    A, I = N.A, N.I
    who, w = name(e), e.where
    key = o[1]
    nodes, edges = N.nodes_now(N.L), N.edges_now(N.L)
    head = mk('field', mk('mapget', nodes, X), 0, Ls.head['dst'])
    rec = mk('mapget', edges, mk('field', head, 1, 0))
    lits = lits + (mk('is', head, 1), notb(mk('is', head, 0)), mk('has', edges, mk('field', head, 1, 0)))
    want = Pl.endpoint(Pl.OUT, mk('field', rec, 0, Ls.frm))
    if deep(key, lits) is not want:
        res.bad('direct', who, 'a node can hear a buffer that is neither its own input nor the output of its source', w)
        return
    L = Lin(tuple(deep(l, lits) if l.op not in ('is',) else l for l in lits) + tuple(lits), interp.is_signed)
    so, di, n = (edge_data(N, Ls, rec, i) for i in (3, 4, 5))
    need = [('it is the only edge', count_is(A, N, Ls, X, lits, 1)),
            ('the edge leads to the first channel', L.holds(eq(di, ZERO))),
            ('the edge comes from the first channel', L.holds(eq(so, ZERO))),
            ('the edge carries every input channel', base is not None and L.holds(le(mk('field', base, 0, df['inputs']), n))),
            ('no system input is waiting for the node', no_system_input(N, Pl, X, lits))]
    missing = [t for t, ok in need if not ok]
    if missing:
        for t in missing:
            res.bad('direct', who, 'a node hears its source directly although it is not certain that %s' % t, w)
    else:
        res.ok('direct', who, 'a node hears its source directly only where that equals the sum: ' + ', '.join(t for t, ok in need))


def no_system_input(N, Pl, X, lits):
    key = Pl.endpoint(Pl.IN, X)
    for l in expand(lits):
        if l.op == 'not' and l.a[0].op == 'has' and Pl.root(l.a[0].a[0]) == Pl.assigned and same(N.I, l.a[0].a[1], key, lits):
            return True
    return False


def expand(lits):
    """the decisions taken apart, and what is left of the alternatives once some are excluded"""
    out = []
    todo = list(lits)
    ors = []
    while todo:
        l = todo.pop()
        if l.op == 'and':
            todo += list(l.a)
        elif l.op == 'not' and l.a[0].op == 'or':
            todo += [notb(x) for x in l.a[0].a]
        else:
            if l.op == 'or' or l.op == 'not' and l.a[0].op == 'and':
                ors.append(l)
            out.append(l)
    base = set(out)
    for l in ors:
        parts = list(l.a) if l.op == 'or' else [notb(x) for x in l.a[0].a]
        left = [x for x in parts if notb(x) not in base]
        if len(left) < len(parts) and left:
            out.append(orb(*left))
            if len(left) == 1:
                out += [x for x in expand(left) if x not in out]
    return out


def finish(N, Ls, Pl, res, e, ins, out, X, win, wout):
    """after rendering: the output stands for the node's output; the input goes back where it came from"""
    A, I = N.A, N.I
    after = [x for x in A.events if x.seq > e.seq and x.loops and x.loops[:len(e.loops)] == e.loops]
    puts = []
    for x in after:
        if x.kind == 'mapset' and N.path_of(x.args[0]) == Pl.assigned:
            puts.append(('assigned', x, x.args[1], x.args[2]))
        elif x.kind == 'vec' and last(x.name) == 'push' and N.path_of(x.args[0]) == Pl.free:
            puts.append(('free', x, None, x.args[1]))
    ok = bad = 0
    for lits, leaf in out:
        lits0 = lits
        h = [p for p in puts if same(I, deep(p[3], lits0), leaf, lits0) and not contradicts(p[1], lits0)]
        if len(h) == 1 and h[0][0] == 'assigned' and all(implied(g, lits0) for g in h[0][1].gates if g not in e.gates) and \
                deep(h[0][2], lits0) is deep(Pl.endpoint(Pl.OUT, X), lits0):
            ok += 1
        else:
            bad += 1
    if ok and not bad:
        res.ok('publish', name(e), 'what a node rendered stands for its output afterwards (%d cases)' % ok)
    else:
        res.bad('publish', name(e), 'what a node rendered does not stand for its output afterwards', e.where)
    ok = bad = 0
    for lits, leaf in ins:
        if nothing_there(Pl, leaf, lits):
            continue
        o = Pl.origin(leaf)
        own = o[0] == 'free' or same(I, o[1], Pl.endpoint(Pl.IN, X), lits)
        good = False
        n = 0
        for kind, x, key, val in puts:
            if contradicts(x, lits) or not same(I, deep(val, lits), leaf, lits):
                continue
            n += 1
            if not all(implied(g, lits) for g in x.gates if g not in e.gates):
                continue
            if own and kind == 'free':
                good = True
            if own and kind == 'assigned' and silent_source(N, Ls, Pl, X, lits):
                good = True
            if not own and kind == 'assigned' and deep(key, lits) is deep(o[1], lits):
                good = True
        if good and n == 1:
            ok += 1
        else:
            bad += 1
    if ok and not bad:
        res.ok('return', name(e), 'the input buffer goes back to the pool, a source output stays the output of its node (%d cases)' % ok)
    else:
        res.bad('return', name(e), 'after a node is rendered its input buffer is not put back where it belongs', e.where)


def contradicts(x, lits):
    lits = tuple(lits) + tuple(l for l in expand(lits) if l not in lits)
    if any(refuted(g, lits) for g in x.gates):
        return True
    left = tuple(h for h in (deep(g, lits) for g in x.gates) if h is not TRUE)
    rest = tuple(l for l in lits if l.op != 'or' and not (l.op == 'not' and l.a[0].op == 'and')) + left
    return any(refuted(l, rest) for l in lits if l not in rest)


def refuted(g, lits):
    """can g not hold where the literals do"""
    g = deep(g, lits)
    if g is FALSE or g is TRUE:
        return g is FALSE
    if g.op == 'or':
        return all(refuted(x, lits) for x in g.a)
    if g.op == 'and':
        return any(refuted(x, lits) for x in g.a)
    return Lin(lits, interp.is_signed).holds(notb(g))


def system(N, Ls, Pl, res):
    """the system input and output: the endpoint the last command named"""
    A, I, E = N.A, N.I, N.E
    inp, out = A.arg(2), A.arg(3)
    for variant, what in ((Pl.out_variant, 'output'), (Pl.in_variant, 'input')):
        ok = None
        msg = I.pf(E.msg, variant, 0)
        for ph, (b, pp, init, step) in E.info.phis.items():
            if b != ('P', A.arg(1)):
                continue
            s = E.on(step, variant)
            if s.op == 'adt' and s.a[1] == 1 and len(s.a) == 3 and s.a[2] is msg:
                ok = (ph, tuple(pp))
                others = [v for v in range(E.nvar) if v != variant and E.on(step, v) is not ph]
                if others:
                    res.bad('system-' + what, A.fn.npath, 'command %d changes which node is the system %s' % (others[0], what), A.fn.where)
        if ok is None:
            res.bad('system-' + what, A.fn.npath, 'connecting a node to the system %s does not make it the system %s' % (what, what), A.fn.where)
            continue
        ph, path = ok
        endp = mk('field', ph, 1, 0)
        if what == 'output':
            cps = [a for a in A.events if a.kind == 'call' and last(a.name) == 'copy_from' and a.seq > N.render.seq and to_host(A, a, a.args[0], out)]
            good = False
            for a in cps:
                sv = A.at(a, a.args[1])
                o = Pl.origin(sv)
                inner = [g for g in a.gates if g not in N.render.gates]
                lim = [g for g in inner if not (g.op == 'is' and g.a[0] is ph or g.op == 'not' and g.a[0].op == 'is' and g.a[0].a[0] is ph or g.op == 'has' and g.a[1] is endp)]
                if o == ('assigned', endp) and not lim and channels_ok(N, a, out):
                    good = True
            if good and len(cps) == 1:
                res.ok('system-output', name(cps[0]), 'the output of the block is the output of the connected node, first channel to first channel')
            else:
                res.bad('system-output', name(cps[0]) if cps else A.fn.npath, 'the output of the block is not the output of the node connected to the system output',
                        cps[0].where if cps else A.fn.where)
        else:
            cps = [a for a in A.events if a.kind == 'call' and last(a.name) == 'copy_from' and a.seq < N.render.seq and to_host(A, a, a.args[1], inp)]
            good = False
            for a in cps:
                dv = A.at(a, a.args[0])
                put = [x for x in A.events if x.kind == 'mapset' and N.path_of(x.args[0]) == Pl.assigned and x.args[1] is endp and
                       x.args[2] is dv and x.seq > a.seq and x.seq < N.render.seq and x.gates == a.gates]
                lim = [g for g in a.gates if g not in N.render.gates and not (g.op in ('is', 'not') and contains(g, lambda t: t is ph)) and not contains(g, lambda t: t.op == 'len')]
                if put and not lim and Pl.origin(dv) == ('free',) and channels_ok(N, a, inp):
                    good = True
            if good and len(cps) == 1:
                res.ok('system-input', name(cps[0]), 'the input of the block is what the connected node hears, first channel to first channel')
            else:
                res.bad('system-input', name(cps[0]) if cps else A.fn.npath, 'the input of the block does not reach the node connected to the system input',
                        cps[0].where if cps else A.fn.where)


def to_host(A, a, ref, host):
    v = A.at(a, ref)
    if reaches(A, ref, host):
        return True
    return any(reaches(A, x, host) for x in v.a[2:] if hasattr(x, 'op')) if v.op == 'adt' else False


def channels_ok(N, a, host):
    """origin to origin, all channels both sides have up to the limit"""
    A, I = N.A, N.I
    lf = prog_fields(N.prog, 'SampleLocation')
    for l in (a.args[2], a.args[3]):
        if l.op != 'adt' or any(not same(I, I.pf(l, 0, lf[f]), ZERO, a.pc) for f in ('channel', 'frame')):
            return False
    n = a.args[4]
    hc = mk('app', 'channel_count', mk('deref0', host))
    parts = list(n.a) if n.op == 'min' else [n]
    if hc not in parts:
        return False
    # any other bound is a field of the processor that is fixed (the buffers' own channel count)
    fin = A.final(('P', A.arg(1)))
    for x in parts:
        if x is hc:
            continue
        if not (x.op == 'field' and rooted(x, A.arg(1))):
            return False
    return True


def r11(prog, res, tier):
    N = Nodes(prog, res)
    exact_keys(prog, res, ('Endpoint', 'EndpointType', 'Id'), 'endpoints')
    A, I, E = N.A, N.I, N.E
    Pl = Pools(N, res)
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[A.fn.npath])
    k = 0
    for x in A.events:
        if x.kind != 'vec' or N.path_of(x.args[0]) != Pl.free:
            continue
        nm = last(x.name)
        if nm == 'pop':
            continue
        if nm != 'push':
            res.bad('pool', name(x), 'the pool of free buffers is changed by %s' % nm, x.where)
            continue
        k += 1
        v = x.args[1]
        clears = [c for c in A.events if c.kind == 'call' and last(c.name) in ('clear',) and c.seq < x.seq and c.loops == x.loops and
                  same(I, A.at(c, c.args[0]), v, x.pc) and all(implied(g, x.pc) for g in c.gates)]
        fills = [c for c in A.events if c.kind == 'call' and last(c.name) == 'fill_with_value' and c.seq < x.seq and c.loops == x.loops and
                 c.args[1].op == 'fl' and float(c.args[1].a[0]) == 0.0 and same(I, A.at(c, c.args[0]), v, x.pc) and all(implied(g, x.pc) for g in c.gates)]
        clears = clears + fills
        late = [c for c in A.events if clears and c.kind == 'call' and c.seq > clears[-1].seq and c.seq < x.seq and
                last(c.name) in ('copy_from', 'add_from', 'fill_with_value', 'process_audio') and c not in clears]
        if clears and not late:
            res.ok('silent', name(x), 'a buffer is silenced before it goes back to the pool')
        else:
            res.bad('silent', name(x), 'a buffer goes back to the pool with the audio of a node in it', x.where)
    res.need('returns to the pool', k, 1)
    # at the end of a sub-block no entry stands for an output any more
    sub_ = N.render.loops[0]
    fin = I.loops[sub_].phis.get(mk('phi', sub_, ('P', A.arg(1)), Pl.assigned))
    drains = [x for x in A.events if x.kind == 'mapdel' and N.path_of(x.args[0]) == Pl.assigned and x.seq > N.render.seq and N.L not in x.loops and
              len(x.loops) == 2 and x.args[1].op == 'hkey']
    clears = [x for x in A.events if x.kind == 'mapclear' and N.path_of(x.args[0]) == Pl.assigned]
    good = False
    for x in drains:
        lid = x.loops[-1]
        ex = [f for kk, fs in EXITS.items() if kk.op == 'exit' and kk.a[0] == lid and kk.a[2] == 1 for f in fs]
        push = [y for y in A.events if y.kind == 'vec' and last(y.name) == 'push' and N.path_of(y.args[0]) == Pl.free and y.loops == x.loops]
        one = push and same(I, push[0].args[1], x.args[2], x.pc)
        empty = drained(ex)
        good = good or (bool(one) and empty)
    nothing_else = not [x for x in A.events if x.kind == 'mapset' and N.path_of(x.args[0]) == Pl.assigned and drains and x.seq > drains[-1].seq]
    if good and nothing_else:
        res.ok('drained', name(drains[0]), 'after every sub-block all buffers that stood for an output go back to the pool')
    else:
        res.bad('drained', A.fn.npath, 'a buffer can go on standing for the output of a node in the next sub-block', A.fn.where)
    # taken buffers are given to one use only: a buffer obtained in a node round is put back once (see R10) and none is lost
    for x in A.events:
        if x.kind == 'drop' and x.args and x.argtys and any(tname(prog, t) == bufname(prog) for t in x.argtys if t is not None):
            res.bad('kept', name(x), 'a buffer is destroyed in the callback', x.where)
    # the pool starts silent
    C, built, ctl = created(prog)
    v = built
    for p in Pl.free:
        v = C.I.pf(v, p[1], p[2])
    B = analyse(prog, fn(prog, 'OwnedAudioBuffer::new'))
    zero = False
    for t in subterms(B.ret):
        if t.op == 'from_elem' and t.a[0].op == 'fl' and float(t.a[0].a[0]) == 0.0:
            zero = True
    if zero:
        res.ok('new', B.fn.npath, 'a new buffer is silent')
    else:
        raise NoAnswer('the contents of a new buffer cannot be resolved: %s' % str(B.ret)[:200])
    res.notes.append('Every way into the pool of free buffers is preceded by a clear of the same buffer; the map of outputs is emptied at the end of each sub-block.')


def drained(facts):
    fs = list(facts)
    for i in range(5):
        if any(contains(f, lambda t: t.op == 'dlen') and f.op == 'le0' or f.op == 'eq0' and contains(f, lambda t: t.op == 'dlen') for f in fs):
            return True
        nxt = []
        for f in fs:
            nxt += EXITS.get(f, ())
            if f.op == 'or':
                # a key that was found is present
                alts = [x for x in f.a if not (x.op == 'not' and x.a[0].op == 'has' and x.a[0].a[1].op == 'hkey')]
                nxt += alts if len(alts) == 1 else []
        fs = nxt
    return False


RULES = {'R10': r10, 'R11': r11}
