"""R08-R13: the processing graph as the audio callback sees it: run order, connection records, mixing, buffers, node life cycle."""
from q import *
from .engine import Engine, processor, sent, leafpaths, name, prog_fields, reaches, ret_event, unbox, created, init_of, next_of, root_method
import interp
from interp import EXITS, last, last2


def run_bulk(prog):
    return analyse(prog, processor(prog), bulk, 'bulk')


def at_path(I, v, path):
    for p in path:
        v = I.pf(v, p[1], p[2])
    return v


def rooted(t, x):
    """t is a field of what x points at"""
    while t.op == 'field':
        t = t.a[0]
    return t is mk('deref0', x) or t is x


def api_message(prog, fname, res=None):
    """(analysis, command value) of a public graph node call; None when it does not send exactly one command unconditionally"""
    S = analyse(prog, fn(prog, fname))
    s = sent(S)
    if len(s) != 1 or s[0][0].gates or s[0][0].loops or s[0][1].op != 'adt':
        raise NoAnswer('%s does not send exactly one command' % fname)
    return S, s[0][1], s[0][0]


class Api:
    """where a connection command carries what, from the public call that sends it"""

    def __init__(self, prog):
        S, m, e = api_message(prog, 'GraphNode::connect_channels_to')
        self.variant = m.a[1]
        self.msg = m
        paths = {}
        for path, v in leafpaths(S, m, None):
            for i in (3, 4, 5):
                if v is S.arg(i):
                    paths.setdefault(i, path)
            for i in (1, 2):
                if rooted(v, S.arg(i)) and v.op == 'field':
                    paths.setdefault(i, path)
        if sorted(paths) != [1, 2, 3, 4, 5]:
            raise NoAnswer('the connection command does not carry the two nodes, the two channels and the count')
        self.src, self.dst, self.so, self.di, self.n = (paths[i] for i in (1, 2, 3, 4, 5))
        # the connection record: the value common to all five
        n = 0
        while len(set(p[:n + 1] for p in paths.values())) == 1:
            n += 1
        self.data = self.src[:n]
        self.rel = {i: paths[i][n:] for i in paths}


class Nodes:
    """the node and edge maps of the callback, found from the node a render call runs on"""

    def __init__(self, prog, res):
        self.prog = prog
        A = self.A = run_bulk(prog)
        self.E = Engine(prog, res, A)
        self.I = A.I
        rend = [e for e in A.events if e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')]
        if len(rend) != 1 or len(rend[0].loops) < 2:
            raise NoAnswer('expected one render call in a loop over the nodes, found %d' % len(rend))
        self.render = rend[0]
        t = self.render.args[0]
        while t.op != 'mapget':
            if t.op in ('field', 'deref0', 'transmute', 'upd', 'ref') and t.a and isinstance(t.a[0], type(t)):
                t = t.a[0]
            else:
                raise NoAnswer('the processor that renders a node cannot be traced to the node map')
        self.id = t.a[1]
        m = t.a[0]
        if m.op != 'phi' or m.a[1] != ('P', A.arg(1)):
            raise NoAnswer('the node map is not a field of the processor')
        self.npath = tuple(m.a[2])
        self.nodes = m
        self.L = self.render.loops[-1]
        self.api = Api(prog)
        self.parent = self.npath[:-1]
        # the other maps of the same structure hold the edges
        self.mpaths = set()
        for e in A.events:
            if e.kind in ('mapset', 'mapdel') and e.args[0].op == 'ref' and e.args[0].a[0] == ('P', A.arg(1)):
                p = tuple(e.args[0].a[1])
                if p[:-1] == self.parent:
                    self.mpaths.add(p)
        self.mpaths.add(self.npath)
        eps = [p for p in self.mpaths if p != self.npath]
        if len(eps) != 1:
            raise NoAnswer('expected one map of edges beside the node map')
        self.epath = eps[0]

    def phi(self, lid, path):
        return mk('phi', lid, ('P', self.A.arg(1)), tuple(path))

    def step(self, path, variant):
        """(value before, value after) of a field of the processor in the round of the command loop that handles the command"""
        for ph, (b, pp, init, step) in self.E.info.phis.items():
            if b == ('P', self.A.arg(1)) and tuple(pp) == tuple(path):
                return ph, self.E.on(step, variant)
        return None, None

    def msg(self, api_path, variant=None):
        """the part of the received command that lies where the public call put it"""
        v = self.E.msg
        for i, p in enumerate(api_path):
            vi = p[1] if i or variant is None else variant
            v = self.I.pf(v, vi, p[2])
        return v

    def path_of(self, ref):
        return tuple(ref.a[1]) if ref.op == 'ref' and ref.a[0] == ('P', self.A.arg(1)) else None


def getm(I, m, k, lits, distinct=(), d=0):
    """the value a map holds at a key, as a term; keys in `distinct` differ from k"""
    if d == 0:
        m = deep(drop_distinct(deep(m, lits), [(k, x) for x in distinct]), lits)
    else:
        m = I.simp(m, lits)
    if m.op == 'mapset':
        if same(I, m.a[1], k, lits):
            return deep(m.a[2], lits)
        if any(same(I, m.a[1], x, lits) for x in distinct):
            return getm(I, m.a[0], k, lits, distinct, d + 1)
        return None
    if m.op == 'mapdel':
        if any(same(I, m.a[1], x, lits) for x in distinct):
            return getm(I, m.a[0], k, lits, distinct, d + 1)
        return None
    if m.op == 'ite':
        a = getm(I, m.a[1], k, lits + (m.a[0],), distinct, d + 1)
        b = getm(I, m.a[2], k, lits + (notb(m.a[0]),), distinct, d + 1)
        if a is None or b is None:
            return None
        return a if a is b else ite(m.a[0], a, b)
    if m.op == 'phi':
        return mk('mapget', m, k)
    return None


def iterator_struct(t):
    return t.op == 'adt' and len(t.a) > 3


def direction(I, v, prog):
    """(node, direction variant) of an edge or node iterator value that has not started"""
    if v.op != 'adt':
        return None
    names = prog.adts.get(prog.types[v.a[0]]['path'])
    if names is None:
        return None
    node = dirv = None
    cur = None
    for i, x in enumerate(v.a[2:]):
        if x.op == 'adt':
            ty = prog.types[x.a[0]]
            if ty['path'].endswith('option::Option'):
                cur = x.a[1]
            elif len(x.a) == 2:
                dirv = x.a[1]
            else:
                node = x
        elif x.op not in ('ref',):
            node = x
    if node is None or dirv is None or cur not in (0, None):
        return None
    return node, dirv


class Lists:
    """how edges hang together: head fields in nodes, next fields in edges, from what adding a connection writes"""

    def __init__(self, N, res):
        self.N = N
        A, I, E, api, prog = N.A, N.I, N.E, N.api, N.prog
        v = api.variant
        self.src = N.msg(api.src)
        self.dst = N.msg(api.dst)
        ins = [e for e in A.events if e.kind == 'mapset' and N.path_of(e.args[0]) == N.epath and E.cl in e.loops]
        if len(ins) != 1:
            raise NoAnswer('expected one insertion of edges, found %d' % len(ins))
        e = self.ins = ins[0]
        K = self.K = e.args[1]
        rec = e.args[2]
        if rec.op != 'adt':
            raise NoAnswer('the record of a new edge cannot be resolved')
        self.frm = self.to = self.data = None
        nexts = []
        for i, x in enumerate(rec.a[2:]):
            if same(I, x, self.src) and self.frm is None:
                self.frm = i
            elif same(I, x, self.dst) and self.to is None:
                self.to = i
            elif x is N.msg(api.data):
                self.data = i
            elif x.op == 'adt' and prog.types[x.a[0]]['path'].endswith('option::Option'):
                nexts.append(i)
                if x.a[1] != 0:
                    raise NoAnswer('a new edge is not appended to its lists')
        w = e.where
        who = name(e)
        if None in (self.frm, self.to, self.data) or len(nexts) != 2:
            res.bad('edge-record', who, 'a new edge does not record its source node, destination node and connection', w)
            raise NoAnswer('edge record not understood') if not res.findings else Stop()
        res.ok('edge-record', who, 'a new edge records its source, destination and connection, and no follower')
        self.nexts = nexts
        fresh_key(N, res, e, K)
        nph, n1 = N.step(N.npath, v)
        eph, e1 = N.step(N.epath, v)
        if n1 is None or e1 is None:
            raise NoAnswer('the maps are not carried round the command loop')
        lasts = {}
        for x in A.events:
            if x.kind == 'call' and last(x.name) == 'last' and x.loops == e.loops and x.args:
                d = direction(I, x.args[0], prog)
                if d is None:
                    continue
                for what, idt in (('src', self.src), ('dst', self.dst)):
                    if same(I, d[0], idt):
                        lasts.setdefault(what, []).append((x, d[1]))
        if sorted(lasts) != ['dst', 'src'] or any(len(v) != 1 for v in lasts.values()):
            raise NoAnswer('a new edge is not appended after the last edge of its two nodes')
        self.dir = {w: lasts[w][0][1] for w in lasts}
        if self.dir['src'] == self.dir['dst']:
            res.bad('edge-list', who, 'both ends of a new edge are looked up in the same list', w)
            raise Stop()
        base = tuple(g for g in e.pc)
        self.head, self.next = {}, {}
        some = {w: mk('is', lasts[w][0][0].ret, 1) for w in lasts}
        pay = {w: mk('field', lasts[w][0][0].ret, 1, 0) for w in lasts}
        want = lambda x: x.op == 'adt' and x.a[1] == 1 and same(I, x.a[2], K)
        for w_, o in (('src', 'dst'), ('dst', 'src')):
            idt = self.src if w_ == 'src' else self.dst
            oid = self.dst if w_ == 'src' else self.src
            # no edge yet: the node's list head
            for other in (some[o], notb(some[o])):
                lits = base + (notb(some[w_]), other, mk('is', lasts[w_][0][0].ret, 0), mk('has', eph, pay[o]))
                nv = getm(I, n1, idt, lits, (oid,))
                if nv is None or nv.op == 'bottom':
                    raise NoAnswer('the record of a node after a connection cannot be resolved')
                hs = [i for i in range(I.nfields(I.place_ty(('P', A.arg(1)), N.npath) and None, 0) or len(nv.a) - 2 if nv.op == 'adt' else 0)
                      if nv.op == 'adt' and want(nv.a[2 + i])]
                old = mk('mapget', nph, idt)
                if nv.op != 'adt' or len(hs) != 1:
                    res.bad('edge-list', who, 'the first edge %s a node is not made the head of its list' % ('out of' if w_ == 'src' else 'into'), w)
                    raise Stop()
                self.head.setdefault(w_, set()).add(hs[0])
                for i in range(len(nv.a) - 2):
                    if i != hs[0] and nv.a[2 + i] is not I.pf(old, 0, i):
                        res.bad('edge-list', who, 'connecting changes another part of the record of a node', w)
            # after the last edge
            for other in (some[o], notb(some[o])):
                for eq_last in (False, True) if other is some[o] else (False,):
                    key = pay[w_]
                    lits = base + (some[w_], other, mk('has', eph, pay[w_]), mk('has', eph, pay[o]))
                    ev = e1
                    if eq_last:
                        ev = subst(e1, {pay[o]: pay[w_]})
                    x = getm(I, ev, key, tuple(subst(l, {pay[o]: pay[w_]}) if eq_last else l for l in lits),
                             (K,) if eq_last else (K, pay[o]))
                    if x is None or x.op != 'adt':
                        if x is not None and x.op == 'mapget':
                            res.bad('edge-list', who, 'a further edge is not linked after the last edge of the list', w)
                            raise Stop()
                        raise NoAnswer('the record of the last edge after a connection cannot be resolved')
                    old = mk('mapget', eph, key)
                    ch = [i for i in range(len(x.a) - 2) if x.a[2 + i] is not I.pf(old, 0, i)]
                    good = [i for i in ch if want(x.a[2 + i])]
                    if eq_last:
                        if len(ch) != len(good) or len(good) != 2:
                            res.bad('edge-list', who, 'parallel connections are not linked into both lists', w)
                            raise Stop()
                        continue
                    if len(ch) != 1 or good != ch:
                        res.bad('edge-list', who, 'a further edge is not linked after the last edge of the list', w)
                        raise Stop()
                    self.next.setdefault(w_, set()).add(good[0])
        if any(len(s) != 1 for s in list(self.head.values()) + list(self.next.values())):
            res.bad('edge-list', who, 'edges are linked into different lists depending on the other node', w)
            raise Stop()
        self.head = {k: list(s)[0] for k, s in self.head.items()}
        self.next = {k: list(s)[0] for k, s in self.next.items()}
        if self.head['src'] == self.head['dst'] or self.next['src'] == self.next['dst']:
            res.bad('edge-list', who, 'the edges out of a node and into it share one list', w)
            raise Stop()
        res.ok('edge-list', who, 'a new edge is appended to the outgoing list of its source and the incoming list of its destination')


class Stop(Exception):
    pass


def fresh_key(N, res, e, K):
    ks = [t for t in subterms(K) if t.op == 'ret']
    ev = [ret_event(N.A, t) for t in ks]
    if any(x is not None and x.kind == 'atomic' and last(x.name) == 'fetch_add' and x.args[1] is not ZERO for x in ev):
        res.ok('edge-id', name(e), 'every edge is stored under a number never used before')
    else:
        res.bad('edge-id', name(e), 'an edge is not stored under a fresh number', e.where)


def check_iterators(N, Ls, res):
    """the iterators walk the list of their direction from the node's head, by the edges' followers"""
    prog = N.prog
    k = 0
    for f in prog.trait_method('Iterator', 'next'):
        if f.krate != 'rawdio' or not f.blocks:
            continue
        try:
            S = analyse(prog, f)
        except NoAnswer:
            continue
        me = mk('deref0', S.arg(1))
        fin = S.final(('P', S.arg(1)))
        gets = set()
        for t in subterms(fin):
            if t.op == 'mapget':
                gets.add(t)
        if not gets:
            continue
        sty = prog.types.get(f.selfty) if isinstance(prog.types, dict) and not isinstance(f.selfty, str) else None
        # fields of the iterator by what is done with them
        keys = {}
        for t in subterms(fin):
            if t.op == 'is' and t.a[0].op == 'field' and t.a[0].a[0] is me:
                keys.setdefault(t.a[0].a[2], set()).add(t.a[1])
        nodeget = [t for t in gets if t.a[1].op == 'field' and t.a[1].a[0] is me]
        edgeget = [t for t in gets if t.a[1].op == 'field' and t.a[1].a[0].op == 'field' and t.a[1].a[0].a[0] is me]
        if len(nodeget) != 1 or not edgeget:
            continue
        node = nodeget[0]
        edge = edgeget[0]
        curf = edge.a[1].a[0]
        cur = mk('is', curf, 1)
        dirs = [i for i in keys if mk('field', me, 0, i) is not curf]
        if len(dirs) != 1:
            raise NoAnswer('the direction of %s cannot be told' % f.npath)
        dirt = mk('field', me, 0, dirs[0])
        k += 1
        for w_, fromto in (('src', Ls.to), ('dst', Ls.frm)):
            d = Ls.dir[w_]
            dl = (mk('is', dirt, d),) + tuple(notb(mk('is', dirt, o)) for o in (0, 1) if o != d)
            cases = (('first', dl + (mk('is', curf, 0), notb(cur), mk('has', node.a[0], node.a[1])), mk('field', node, 0, Ls.head[w_])),
                     ('following', dl + (cur, notb(mk('is', curf, 0)), mk('has', node.a[0], node.a[1]), mk('has', edge.a[0], edge.a[1])), mk('field', edge, 0, Ls.next[w_])))
            for what, lits, wantv in cases:
                for yes in (True, False):
                    l2 = lits + ((mk('is', wantv, 1), notb(mk('is', wantv, 0))) if yes else (mk('is', wantv, 0), notb(mk('is', wantv, 1))))
                    nk = mk('has', edge.a[0], mk('field', wantv, 1, 0))
                    l2 = l2 + (nk,)
                    got = S.under(S.pf(fin, curf.a[2]), *l2)
                    ret = S.under(S.ret, *l2)
                    lst = 'outgoing' if w_ == 'src' else 'incoming'
                    okcur = same_option(S, got, wantv, yes, l2)
                    if not okcur:
                        res.bad('iterate', f.npath, 'the %s edge of the %s list is not the one the list holds' % (what, lst), f.where)
                        continue
                    if is_option(S, ret, yes):
                        x = ret.a[2] if ret.op == 'adt' and yes else (mk('field', ret, 1, 0) if yes else None)
                        if yes:
                            far = mk('field', mk('mapget', edge.a[0], mk('field', wantv, 1, 0)), 0, fromto)
                            if not (same(S.I, x, mk('field', wantv, 1, 0), l2) or same(S.I, x, far, l2)):
                                res.bad('iterate', f.npath, 'yields something else than the edge or the node at its other end (%s list)' % lst, f.where)
                                continue
                        res.ok('iterate', f.npath, '%s edge of the %s list, %s' % (what, lst, 'present' if yes else 'absent'))
                    elif same_option(S, ret, wantv, yes, l2):
                        res.ok('iterate', f.npath, '%s edge of the %s list, %s' % (what, lst, 'present' if yes else 'absent'))
                    else:
                        res.bad('iterate', f.npath, 'yields %s where the %s list %s' % ('nothing' if yes else 'an item', lst, 'goes on' if yes else 'ends'), f.where)
    res.need('graph iterators', k, 1)


def is_option(S, v, yes):
    return v.op == 'adt' and v.a[1] == (1 if yes else 0)


def same_option(S, v, want, yes, lits):
    if v is want:
        return True
    if v.op == 'adt':
        if yes:
            return v.a[1] == 1 and same(S.I, v.a[2], mk('field', want, 1, 0), lits)
        return v.a[1] == 0
    return same(S.I, v, want, lits)


def full_map_loop(I, lid, path_map):
    """the loop goes over every entry of the map and is left only at the end"""
    ex = [k for k in EXITS if any(x.op == 'exit' and x.a[0] == lid for x in subterms(k))]
    inf = I.loops[lid]
    if not any(v is mk('k', lid) for v in inf.closed.values()):
        return False
    for k in ex:
        if k.op == 'exit' and k.a[2] == 1:
            if not any(contains(f, lambda t: t.op == 'dlen') for f in EXITS[k]):
                return False
        else:
            return False
    return True


def loop_chain(N, final, path, stop):
    """the loops a field of the processor goes through, last first, until `stop`: [(lid, phi, step)]"""
    out = []
    t = final
    n = 0
    while t is not stop and n < 20:
        n += 1
        if t.op == 'phi' and t.a[1] == ('P', N.A.arg(1)) and tuple(t.a[2]) == tuple(path):
            lid = t.a[0]
            inf = N.I.loops[lid]
            v = inf.phis.get(t)
            if v is None:
                return None
            out.append((lid, t, v[3]))
            t = v[2]
        else:
            return None
    return out if t is stop else None


def unlinks(N, Ls, res, deletion, round_end):
    """after an edge is deleted every head or follower that named it names its follower instead"""
    I = N.I
    K = deletion.args[1]
    emap = deletion.args[2].a[0] if deletion.args[2].op == 'mapget' else None
    if emap is None:
        raise NoAnswer('the deleted edge cannot be resolved')
    rec = mk('mapget', emap, K)
    who = name(deletion)
    for path, which in ((N.epath, Ls.next), (N.npath, Ls.head)):
        stop = mk('mapdel', emap, K) if path == N.epath else round_end['nodes0']
        fin = round_end['edges1'] if path == N.epath else round_end['nodes1']
        fin = deep(fin, (mk('has', emap, K),))
        chain = loop_chain(N, fin, path, stop)
        if chain is None:
            raise NoAnswer('how the %s are updated after a removal cannot be resolved: %s; %s' % ('edges' if path == N.epath else 'nodes', str(fin)[:300], str(stop)[:300]))
        rty = I.nfields(I.elem_ty(I.place_ty(('P', N.A.arg(1)), path)), 0)
        for w_ in ('src', 'dst'):
            fi = which[w_]
            done = 0
            for lid, ph, step in chain:
                el = mk('elem', ph, mk('k', lid))
                old = I.pf(el, 0, fi)
                hit = (mk('is', old, 1), notb(mk('is', old, 0)))
                payload = mk('field', old, 1, 0)
                newf = lambda lits: I.pf(I.simp(elem_of(I, step, mk('k', lid), lits), lits), 0, fi)
                keyeq = key_eq(I, payload, K)
                a = newf(hit + keyeq)
                if a is old:
                    continue
                wantv = mk('field', rec, 0, Ls.next[w_])
                b = newf(hit + (notb(keyeq[0]),))
                c = newf((mk('is', old, 0), notb(mk('is', old, 1))))
                if a is wantv and b is old and c is old and full_map_loop(I, lid, path):
                    done += 1
                else:
                    done = -100
            lst = 'outgoing' if w_ == 'src' else 'incoming'
            what = 'edges' if path == N.epath else 'nodes'
            if done == 1:
                res.ok('unlink', who, 'the %s list of all %s skips a removed edge' % (lst, what))
            else:
                res.bad('unlink', who, 'the %s list of %s can keep naming a removed edge or lose the ones after it' % (lst, what), deletion.where)


def elem_of(I, m, k, lits):
    m = I.simp(m, lits)
    if m.op == 'estore' and m.a[1] is k:
        return m.a[2]
    if m.op == 'ite':
        a, b = elem_of(I, m.a[1], k, lits), elem_of(I, m.a[2], k, lits)
        return a if a is b else ite(m.a[0], a, b)
    return mk('elem', m, k)


def key_eq(I, a, b):
    """the literal that two ids are equal, in the form the comparison of the newtype takes"""
    x = eq(mk('field', a, 0, 0), I.pf(b, 0, 0) if b.op == 'adt' else mk('field', b, 0, 0))
    return (x,)


def r09(prog, res, tier):
    N = Nodes(prog, res)
    A, I, E, api = N.A, N.I, N.E, N.api
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[A.fn.npath])
    try:
        Ls = Lists(N, res)
        check_iterators(N, Ls, res)
        removal(N, Ls, res)
    except Stop:
        pass
    res.notes.append('The connection and node maps of the callback are followed through one round of the command loop for each command; the lists of '
                     'edges are identified from what adding a connection writes and the same lists must be walked by the iterators and repaired by removals.')


def commands_of(prog):
    """variants of the removing commands, from the public calls that send them"""
    S, m, e = api_message(prog, 'GraphNode::disconnect_from_node')
    src = dst = None
    for path, v in leafpaths(S, m, None):
        if v.op == 'field' and rooted(v, S.arg(1)) and src is None:
            src = path
        if v.op == 'field' and rooted(v, S.arg(2)) and dst is None:
            dst = path
    return m.a[1], src, dst


def removal(N, Ls, res):
    A, I, E = N.A, N.I, N.E
    variant, sp, dp = commands_of(N.prog)
    if sp is None or dp is None:
        raise NoAnswer('the disconnect command does not carry its two nodes')
    src, dst = N.msg(sp), N.msg(dp)
    dels = [e for e in A.events if e.kind == 'mapdel' and N.path_of(e.args[0]) == N.epath and E.cl in e.loops]
    isv = lambda e, v: mk('is', E.msg, v) in e.pc
    mine = [e for e in dels if isv(e, variant)]
    if not mine:
        res.bad('disconnect', A.fn.npath, 'disconnecting removes no edge', A.fn.where)
    others = [e for e in dels if not isv(e, variant)]
    for e in mine:
        # which edge: one whose ends are the two nodes of the command
        x = lambda i: same_key_fact(I, N, e, i)
        okf = edge_end_fact(I, N, e, Ls.frm, src)
        okt = edge_end_fact(I, N, e, Ls.to, dst)
        if okf and okt:
            res.ok('disconnect', name(e), 'the edge removed leads from the source to the destination of the command')
        else:
            res.bad('disconnect', name(e), 'the edge removed need not lead from the source to the destination of the command', e.where)
        # all of them
        lp = [l for l in e.loops if l != E.cl]
        if not lp:
            res.bad('disconnect', name(e), 'of several connections between two nodes only one is removed', e.where)
        else:
            ex = [f for k, fs in EXITS.items() if k.op == 'exit' and k.a[0] == lp[-1] and k.a[2] == 1 for f in fs]
            if exhausted(I, ex, Ls, N):
                res.ok('disconnect', name(e), 'edges are removed until none leads between the two nodes')
            else:
                res.bad('disconnect', name(e), 'the removal can stop while edges remain between the two nodes', e.where)
    for e in dels:
        lp = [l for l in e.loops if l != E.cl]
        ends = {}
        if lp:
            inf = I.loops[lp[-1]]
            for ph, (b, pp, init, step) in inf.phis.items():
                if b == ('P', A.arg(1)):
                    if tuple(pp) == N.npath:
                        ends['nodes0'] = ph
                        ends['nodes1'] = deep(step, e.pc)
                    if tuple(pp) == N.epath:
                        ends['edges1'] = deep(step, e.pc)
        else:
            v = [g.a[1] for g in e.pc if g.op == 'is' and g.a[0] is E.msg]
            if v:
                ends['nodes0'], ends['nodes1'] = N.step(N.npath, v[0])
                ends['edges1'] = N.step(N.epath, v[0])[1]
                ends = {k: deep(x, e.pc) for k, x in ends.items()}
        ends.setdefault('nodes0', None)
        if 'nodes1' not in ends or 'edges1' not in ends:
            res.bad('unlink', name(e), 'the lists are not repaired after a removed edge', e.where)
            continue
        # what the removal of a node does after its loop is not part of the round
        unlinks(N, Ls, res, e, ends)
    # node removal: no edge may be left
    nd = [e for e in A.events if e.kind == 'mapdel' and N.path_of(e.args[0]) == N.npath and E.cl in e.loops]
    if not nd:
        res.bad('remove-node', A.fn.npath, 'no command removes a node', A.fn.where)
    for e in nd:
        ok = [d for d in others if d.seq < e.seq]
        good = False
        for d in ok:
            lp = [l for l in d.loops if l != E.cl]
            if not lp:
                continue
            ex = [k for k in EXITS if k.op == 'exit' and k.a[0] == lp[0] and k.a[2] == 1]
            good = good or any(exhausted_node(I, EXITS[k], Ls, N, e.args[1]) for k in ex)
        if good:
            res.ok('remove-node', name(e), 'a node is removed only after every edge into or out of it')
        else:
            res.bad('remove-node', name(e), 'a node can be removed while edges into or out of it remain', e.where)


def edge_end_fact(I, N, e, field, node):
    """is it a fact at e that this end of the removed edge is the node"""
    K = e.args[1]
    cands = []
    for g in all_facts(e):
        if g.op == 'eq0':
            cands.append(g)
    for g in cands:
        d = g.a[0]
        c, m = poly_parts(d)
        ts = list(m.items())
        if c != 0 or len(ts) != 2 or ts[0][1] + ts[1][1] != 0:
            continue
        for (a, b) in ((ts[0][0], ts[1][0]), (ts[1][0], ts[0][0])):
            if a is I.pf(node, 0, 0) and end_of(b, field, K):
                return True
    return False


def all_facts(e):
    out = list(e.pc)
    for g in e.pc:
        if g in EXITS:
            out += EXITS[g]
    return out


def end_of(t, field, K):
    """t is the number of the node at this end of the edge stored under K"""
    if t.op != 'field' or t.a[0].op != 'field' or t.a[0].a[2] != field:
        return False
    x = t.a[0].a[0]
    if x.op == 'elem' and K.op == 'hkey':
        return x.a[1] is K.a[1]
    if x.op == 'mapget':
        return x.a[1] is K
    return False


def exhausted(I, facts, Ls, N):
    """the loop ended because the search over all edges found none"""
    fs = list(facts)
    n = 0
    while n < 6:
        n += 1
        if any(f.op == 'le0' and contains(f, lambda t: t.op == 'dlen') and not contains(f, lambda t: t.op == 'ite') for f in fs):
            return True
        nxt = []
        for f in fs:
            if f in EXITS:
                nxt += EXITS[f]
            elif f.op == 'or':
                # every way out must be a search that ended empty; a key that was found is present
                alts = [x for x in f.a if not (x.op == 'not' and x.a[0].op == 'has' and x.a[0].a[1].op == 'hkey')]
                if len(alts) == 1:
                    nxt += [alts[0]]
        if not nxt:
            return False
        fs = nxt
    return False


def exhausted_node(I, facts, Ls, N, node):
    """the loop ended because a search over all edges for the node found none; the search accepts either end"""
    for f in facts:
        if f.op == 'exit' and f in EXITS:
            neg = EXITS.get(notb(f))
            pos = EXITS[f]
            if not any(contains(x, lambda t: t.op == 'dlen') for x in pos):
                continue
            if neg is None:
                continue
            ends = set()
            for g in neg:
                for t in subterms(g):
                    if t.op == 'eq0':
                        for x in subterms(t):
                            if x.op == 'field' and x.a[0].op == 'field' and x.a[0].a[0].op == 'elem' and x.a[0].a[2] in (Ls.frm, Ls.to):
                                if contains(t, lambda y: y is node or y is I.pf(node, 0, 0)):
                                    ends.add((x.a[0].a[2], g.op))
            if {Ls.frm, Ls.to} <= set(a for a, b in ends) and any(b in ('or', 'ite') or len(neg) for a, b in ends):
                # it must be a disjunction: either end suffices
                if not any(g.op == 'eq0' and contains(g, lambda y: y is node or y is I.pf(node, 0, 0)) for g in neg):
                    return True
    return False


def same_key_fact(I, N, e, i):
    return None

def exact_keys(prog, res, names, what, cover=None):
    """two keys are the same exactly if all their parts are, and the same keys are found under the same hash"""
    n = 0
    for k in names:
        es = [f for f in prog.trait_method('PartialEq', 'eq') if f.blocks and (f.selfty or '').split('<')[0].rsplit('::', 1)[-1] == k]
        hs = [f for f in prog.trait_method('Hash', 'hash') if f.blocks and (f.selfty or '').split('<')[0].rsplit('::', 1)[-1] == k]
        if len(es) != 1 or len(hs) > 1 or not hs and not n:
            if n and not es:
                continue            # nothing is looked up by it
            raise NoAnswer('how %s are compared cannot be resolved' % what)
        n += 1
        A = analyse(prog, es[0])
        vs = adt_of(prog, k)['variants']
        want = parts_equal(A, len(vs[0]['f']) if len(vs) == 1 else 0)
        got = A.ret
        if want is None:
            res.bad('keys', short_(es[0]), '%s are the same though a part of them is not' % what, es[0].where)
            continue
        same_ = set(got.a if got.op == 'and' else (got,)) == set(want) or same_in_each_case(A, got, want)
        if same_:
            res.ok('keys', short_(es[0]), '%s are the same exactly if all their parts are' % what)
        else:
            res.bad('keys', short_(es[0]), '%s are not the same exactly if all their parts are' % what, es[0].where)
        if not hs:
            continue
        H = analyse(prog, hs[0])
        own = mk('deref0', H.arg(1))
        bad = [e for e in H.events if e.kind not in ('assert', 'drop') and not (e.kind == 'call' and e.args and of_self(H, e, own))]
        if bad:
            res.bad('keys', short_(hs[0]), '%s that are the same may be looked up under different hashes' % what, bad[0].where)
        else:
            res.ok('keys', short_(hs[0]), 'the hash depends on the parts alone')
        if cover is not None:
            cover.update(f.key for f in es + hs)
    return n


def short_(f):
    return f.npath if f.npath.startswith('<') else '::'.join(f.npath.split('::')[-2:])


def of_self(H, e, own):
    """the hasher is given parts of the value and constants only"""
    if not any(a is H.arg(2) or a.op == 'ref' and a.a[0] == ('P', H.arg(2)) for a in e.args):
        return False
    for a in e.args:
        if a is H.arg(2) or a.op == 'ref' and a.a[0] == ('P', H.arg(2)):
            continue
        v = subst(H.at(e, a), {mk('deref0', H.arg(1)): ZERO})
        if a.op == 'ref' and a.a[0] == ('P', H.arg(1)):
            continue
        if any(t.op == 'sym' or t.op in ('ret', 'unk', 'bot', 'static') for t in subterms(v)):
            return False
    return True


def adt_of(prog, k):
    return next(a for p, a in sorted(prog.adts.items()) if p.rsplit('::', 1)[-1] == k and a['krate'] == 'rawdio')


def parts_equal(A, k):
    """that each part of one value is the same as that of the other, from the parts that are looked at; None if a field is not looked at"""
    x, y = mk('deref0', A.arg(1)), mk('deref0', A.arg(2))
    out, seen = [], set()

    def root(t):
        while t.op == 'field' and t.a[0] is not x:
            t = t.a[0]
        return t.a[2] if t.op == 'field' else -1 if t is x else None
    terms = list(subterms(A.ret))
    count = {}
    for t in terms:
        if t.op == 'discr':
            count[t.a[0]] = t.a[1]
    inner = {t.a[0] for t in terms if t.op in ('field', 'discr', 'is')}
    for t in terms:
        if t.op == 'is' and t.a[0] not in count:
            count[t.a[0]] = max([2] + [u.a[1] + 1 for u in terms if u.op == 'is' and u.a[0] in (t.a[0], subst(t.a[0], {A.arg(1): A.arg(2)}), subst(t.a[0], {A.arg(2): A.arg(1)}))])
    for t in terms:
        if t in inner and t not in count or t.op not in ('field', 'deref0'):
            continue
        r = root(t)
        if r is None or r == -1 and t not in count:
            continue
        seen.add(r)
        u = mk('discr', t, count[t]) if t in count else t
        out.append(eq(u, subst(u, {A.arg(1): A.arg(2)})))
    out = list(dict.fromkeys(out))
    if k == 0:
        return out if -1 in seen else None
    return out if set(range(k)) <= seen else None


def same_in_each_case(A, got, want):
    """by cases over the variants of the parts that are enumerations"""
    cases = [{}]
    for t in {u for w in want for u in subterms(w) if u.op == 'discr'}:
        cases = [{**c, t: v} for c in cases for v in range(t.a[1])]
        if len(cases) > 256:
            return False

    def put(x, c):
        m = {}
        for t in subterms(x):
            for d, v in c.items():
                if t is d:
                    m[t] = INT(v)
                elif t.op == 'is' and t.a[0] is d.a[0]:
                    m[t] = TRUE if t.a[1] == v else FALSE
        return A.I.simp(subst(x, m), ())
    for c in cases:
        g, w = put(got, c), [put(x, c) for x in want]
        if FALSE in w:
            if g is not FALSE:
                return False
            continue
        w = [x for x in w if x is not TRUE]
        if set(g.a if g.op == 'and' else () if g is TRUE else (g,)) != set(w):
            return False
    return True

RULES = {'R09': r09}


def vec_path(N, e):
    return N.path_of(e.args[0]) if e.args else None


def r08(prog, res, tier):
    N = Nodes(prog, res)
    A, I, E = N.A, N.I, N.E
    res.cov.update(functions=len(I.inlined), events=len(A.events), loops=len(I.loops), call_sites=len(A.events), roots=[A.fn.npath])
    who = name(N.render)
    w = N.render.where
    L = N.L
    # the order: the list the rendered ids come from
    sub_ = N.render.loops[0]
    flag = None
    idt = N.id
    if idt.op == 'ite' and idt.a[0].op == 'phi' and idt.a[0].a[1] == ('P', A.arg(1)):
        flag = idt.a[0]
        kept, sorted_ = (idt.a[2], idt.a[1])
    elif idt.op == 'ite' and idt.a[0].op == 'not':
        flag = idt.a[0].a[0]
        kept, sorted_ = (idt.a[1], idt.a[2])
    else:
        kept = sorted_ = idt
    if sorted_.op != 'select' or kept.op != 'select':
        raise NoAnswer('the nodes are not rendered from a list of ids')
    if sorted_.a[1] is not mk('k', L) or kept.a[1] is not mk('k', L):
        res.bad('run-order', who, 'the nodes are not rendered in the order of the sorted list', w)
        return
    opath = None
    if sorted_.a[0].op == 'phi' and sorted_.a[0].a[1] == ('P', A.arg(1)):
        opath = tuple(sorted_.a[0].a[2])
    if opath is None or flag is not None and not (kept.a[0].op == 'phi' and tuple(kept.a[0].a[2]) == opath):
        raise NoAnswer('the sorted list cannot be resolved')
    # whole list
    length = ite(flag, mk('len', sorted_.a[0]), mk('len', kept.a[0])) if flag is not None else mk('len', sorted_.a[0])
    bound = [g for g in N.render.pc if g.op == 'le0' and contains(g, lambda t: t is mk('k', L))]
    if any(same(I, g.a[0], add(sub(mk('k', L), length), ONE)) for g in bound):
        others = [g for g in N.render.gates if contains(g, lambda t: t is mk('k', L)) and g not in bound and g.op != 'has']
        if others:
            res.bad('run-order', who, 'a node in the sorted list is only rendered under a further condition: %s' % str(others[0])[:120], w)
        else:
            res.ok('run-order', who, 'every node of the sorted list is rendered, in its order, once per sub-block')
    else:
        res.bad('run-order', who, 'not every node of the sorted list is rendered', w)
    # when it is sorted
    vecs = [e for e in A.events if e.kind == 'vec' and vec_path(N, e) == opath]
    push = [e for e in vecs if last(e.name) == 'push']
    for e in vecs:
        if last(e.name) not in ('push', 'clear') or sub_ not in e.loops:
            res.bad('sorted-list', name(e), 'the sorted list is changed other than by sorting', e.where)
    if len(push) != 1:
        raise NoAnswer('expected one place where the sorted list grows, found %d' % len(push))
    ps = push[0]
    if ps.seq > N.render.seq:
        res.bad('sorted-first', name(ps), 'the graph is sorted after it is rendered', ps.where)
    else:
        res.ok('sorted-first', name(ps), 'sorting precedes rendering in every sub-block')
    if not any(last(e.name) == 'clear' for e in vecs) and init_of(A, mk('phi', ps.loops[-1], ('P', A.arg(1)), opath), ps.loops[-1]).op != 'empty':
        res.bad('sorted-list', name(ps), 'a new order is appended to the old one', ps.where)
    if flag is not None:
        fpath = tuple(flag.a[2])
        inf = I.loops[sub_]
        v = inf.phis.get(flag)
        if v is None:
            raise NoAnswer('the flag that asks for sorting is not carried round the sub-blocks')
        init, step = v[2], v[3]
        cmd_end = N.phi(E.cl, fpath)
        if init is not cmd_end:
            res.bad('resort', who, 'the request for sorting is changed between the commands and the sort', w)
        if deep(step, (notb(flag),)) is not FALSE:
            res.notes.append('flag is rewritten in the sub-block loop')
        extra = [g for g in ps.gates if g not in N.render.gates and g is not flag and not contains(g, lambda t: t.op in ('phi', 'k') and t.a[0] in ps.loops[1:] or t.op == 'exit')]
        if extra:
            res.bad('resort', name(ps), 'a request for sorting is only honoured when %s' % str(extra[0])[:150], ps.where)
        else:
            res.ok('resort', name(ps), 'whenever sorting is requested the graph is sorted before the next node is rendered')
        # every structural change asks for it
        k = 0
        for e in A.events:
            if e.kind in ('mapset', 'mapdel', 'mapclear') and N.path_of(e.args[0]) in N.mpaths:
                if E.cl not in e.loops:
                    res.bad('structure', name(e), 'the graph is changed outside the handling of commands', e.where)
                    continue
                vs = [g.a[1] for g in e.pc if g.op == 'is' and g.a[0] is E.msg]
                if not vs:
                    raise NoAnswer('cannot tell which command changes the graph at %s' % e.where)
                ph, st = N.step(fpath, vs[0])
                st = deep(st, tuple(g for g in e.gates if not contains(g, lambda t: t.op in ('k', 'phi') and t.a[0] in e.loops[1:])) ) if st is not None else FALSE
                k += 1
                if st is TRUE:
                    res.ok('request', name(e), 'command %d requests sorting' % vs[0])
                else:
                    res.bad('request', name(e), 'command %d changes the graph without requesting that it be sorted again' % vs[0], e.where)
        res.need('structural changes', k, 3)
        for v in range(E.nvar):
            ph, st = N.step(fpath, v)
            if st is not None and deep(st, (ph,)) is not TRUE:
                res.bad('request', 'command %d' % v, 'a waiting request for sorting can be dropped', A.fn.where)
    kahn(N, res, ps, opath)
    res.assumptions += ['connections form no cycle (a cycle is refused by an assertion when sorting)']
    res.notes.append('The list the rendered ids come from is filled by one loop; it takes an entry with count zero, appends it, and lowers the '
                     'counts of the nodes its outgoing edges lead to; counts start as numbers of incoming edges.')


def kahn(N, res, ps, opath):
    A, I, E = N.A, N.I, N.E
    prog = N.prog
    Ls = Lists(N, _Quiet())
    who = name(ps)
    w = ps.where
    X = ps.args[1]
    L = ps.loops[-1]
    dels = [e for e in A.events if e.kind == 'mapdel' and e.loops == ps.loops and same(I, e.args[1], X, e.pc)]
    if len(dels) != 1:
        raise NoAnswer('the order is not built by taking nodes out of a map of counts')
    cpath = N.path_of(dels[0].args[0])
    cm = dels[0].args[2].a[0] if dels[0].args[2].op == 'mapget' else None
    facts = list(ps.pc)
    for g in ps.pc:
        facts += EXITS.get(g, ())
    # the node taken has no dependencies left
    zero = False
    for f in facts:
        if f.op == 'eq0':
            t = f.a[0]
            if t.op == 'elem' and X.op == 'hkey' and t.a[1] is X.a[1] or t.op == 'mapget' and t.a[1] is X:
                zero = True
    if zero:
        res.ok('ready', who, 'a node is appended only when its count is zero')
    else:
        res.bad('ready', who, 'a node can be appended while nodes it depends on are not', w)
    # it ends only when no node is left with count zero
    ex = [f for k, fs in EXITS.items() if k.op == 'exit' and k.a[0] == L and k.a[2] == 1 for f in fs]
    if exhausted(I, ex, Ls, N):
        res.ok('complete', who, 'sorting ends only when no node is ready')
    else:
        res.bad('complete', who, 'sorting can end while nodes are ready', w)
    # counts start as the numbers of incoming edges, for every node
    sets = [e for e in A.events if e.kind == 'mapset' and N.path_of(e.args[0]) == cpath and e.seq < ps.seq]
    if len(sets) != 1:
        raise NoAnswer('the counts are not filled in one place')
    s = sets[0]
    key, cnt = s.args[1], s.args[2]
    allnodes = key.op == 'hkey' and key.a[0].op == 'ref' and N.path_of(key.a[0]) == N.npath and full_map_loop(I, s.loops[-1], N.npath)
    ce = ret_event(A, cnt) if cnt.op == 'ret' else None
    d = direction(I, ce.args[0], prog) if ce is not None and last(ce.name) == 'count' else None
    if d is None and ce is not None and last(ce.name) == 'count':
        v, partial = ce.args[0], None
        while v.op == 'ret' and ret_event(A, v) is not None and ret_event(A, v).args:
            fe = ret_event(A, v)
            nm = last(fe.name)
            if nm in ('filter', 'filter_map', 'take', 'skip', 'take_while', 'skip_while', 'step_by', 'map_while', 'flatten', 'flat_map'):
                partial = nm
            elif nm not in ('map', 'enumerate', 'inspect', 'by_ref', 'into_iter', 'copied', 'cloned', 'peekable', 'fuse', 'rev'):
                break
            v = fe.args[0]
        d = direction(I, v, prog)
        if d is not None and partial:
            res.bad('counts', name(s), 'the number a node starts with leaves out some of its incoming edges (%s)' % partial, s.where)
            return
    if d is None:
        raise NoAnswer('what the counts start at cannot be resolved')
    if allnodes and d[0] is key and d[1] == Ls.dir['dst']:
        res.ok('counts', name(s), 'every node starts with the number of its incoming edges')
    else:
        res.bad('counts', name(s), 'not every node starts with the number of its incoming edges', s.where)
    # each outgoing edge of the node taken lowers the count of the node it leads to, once
    inf = I.loops[L]
    fin = None
    for ph, (b, pp, init, step) in inf.phis.items():
        if b == ('P', A.arg(1)) and tuple(pp) == cpath:
            fin = step
            init0 = init
            cph = ph
    good = False
    if fin is not None and fin.op == 'phi' and tuple(fin.a[2]) == cpath:
        l2 = fin.a[0]
        v = I.loops[l2].phis.get(fin)
        init, step = v[2], v[3]
        start = init.op == 'mapdel' and init.a[0] is cph and same(I, init.a[1], X)
        cur = None
        for ph, (b, pp, i2, s2) in I.loops[l2].phis.items():
            if b[0] == 'L' and i2.op == 'adt' and prog.types[i2.a[0]]['path'].endswith('option::Option') and i2.a[1] == 0:
                cur = (ph, s2)
        if cur is not None:
            # follow the outgoing list from the head
            nph = mk('mapget', N.nodes_now(l2), X)
            eph = N.edges_now(l2)
            c0, s2 = cur
            head = mk('field', nph, 0, Ls.head['src'])
            nxt = mk('field', mk('mapget', eph, mk('field', c0, 1, 0)), 0, Ls.next['src'])
            some = (mk('is', c0, 1), notb(mk('is', c0, 0)))
            none = (mk('is', c0, 0), notb(mk('is', c0, 1)))
            base = (mk('has', N.nodes_now(l2), X), mk('has', eph, mk('field', c0, 1, 0)))
            # the node an edge leads to waits still: it is taken only when no edge is left that leads to it
            aim = lambda h: mk('field', mk('mapget', eph, mk('field', h, 1, 0)), 0, Ls.to)
            base0 = base + (mk('has', eph, mk('field', head, 1, 0)), mk('has', fin, aim(head)))
            base = base + (mk('has', eph, mk('field', nxt, 1, 0)), mk('has', fin, aim(nxt)))
            e1 = deep(step, some + base)
            e0 = deep(step, none + base0)
            walk = deep(s2, some + base) is nxt and deep(s2, none + base) is head
            low = all(x.op == 'mapset' and x.a[0] is fin and same(I, x.a[2], sub(mk('mapget', fin, x.a[1]), ONE)) and
                      x.a[1] is mk('field', mk('mapget', eph, mk('field', h, 1, 0)), 0, Ls.to)
                      for x, h in ((e1, nxt), (e0, head)))
            ends = [f for k, fs in EXITS.items() if k.op == 'exit' and k.a[0] == l2 for f in fs]
            if not start:
                res.bad('lower', who, 'the node taken stays among the nodes to sort', w)
                return
            only_end = len([k for k in EXITS if any(x.op == 'exit' and x.a[0] == l2 for x in subterms(k))]) == 1
            good = walk and low and only_end
    if good:
        res.ok('lower', who, 'each outgoing edge of the node taken lowers the count of the node it leads to by one')
    else:
        res.bad('lower', who, 'the nodes the outgoing edges of the node taken lead to are not each lowered by one', w)


class _Quiet:
    findings = ()

    def ok(self, *a):
        pass

    def bad(self, *a):
        raise NoAnswer('the edge lists are not consistent')


def _now(self, lid, path):
    """the value of a map, not changed in this loop, as terms of the loop see it"""
    inf = self.I.loops[lid]
    for ph, (b, pp, init, step) in inf.phis.items():
        if b == ('P', self.A.arg(1)) and tuple(pp) == tuple(path):
            return ph
    return self.phi(self.E.cl, path)


Nodes.nodes_now = lambda self, lid: _now(self, lid, self.npath)
Nodes.edges_now = lambda self, lid: _now(self, lid, self.epath)
RULES['R08'] = r08
