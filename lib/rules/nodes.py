"""R15, R16: the life of a node in the graph, and the requests that connect nodes."""
from q import *
from .engine import sent, name, ret_event, Engine
from .graph import Nodes, run_bulk, loop_chain, EXITS, exact_keys
from .params import adt, fidx, vidx, self_field, constructors, short, leafpaths_deep


def one_command(prog, res, f, rule):
    """(analysis, command) of a function that sends exactly one command in every call"""
    S = analyse(prog, f)
    s = sent(S)
    if len(s) != 1 or s[0][0].gates or s[0][0].loops or s[0][1].op != 'adt':
        res.bad(rule, short(f), 'does not send exactly one command in every call', f.where)
        return S, None, None
    return S, s[0][1], s[0][0]


def queue_of(S, e):
    """what the command is sent on, through boxes and references"""
    q = e.args[0]
    while q.op == 'transmute' or q.op == 'field' and q.a[1:] == (0, 0) and q.a[0].op != 'deref0' and (q.a[0].op != 'field' or q.a[0].a[0].op in ('field', 'deref0')):
        q = q.a[0]
    return q


def drop_of(prog, adt_name):
    fs = [f for f in prog.trait_method('Drop', 'drop') if f.blocks and (f.selfty or '').rsplit('::', 1)[-1].split('<')[0] == adt_name]
    return fs[0] if len(fs) == 1 else None


def makers(prog, adt_suffix):
    """functions of the crate whose code builds a value of the type"""
    ids = {i for i, t in prog.types.items() if t and t['k'] == 'adt' and (t['path'] == adt_suffix or t['path'].endswith('::' + adt_suffix))}
    out = []
    for f in prog.local():
        if not f.blocks:
            continue
        hit = False

        def walk(x):
            nonlocal hit
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'adt' and x[1] in ids:
                    hit = True
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                if x.get('ty') in ids and ('v' in x or 'fields' in x or 'bytes' in x or 'variant' in x or 'uneval' in x):
                    hit = True
                for y in x.values():
                    walk(y)
        walk(f.blocks)
        if hit:
            out.append(f)
    return out


def callers(prog, f):
    return [g for g in prog.local() if g.blocks and g is not f and f.key in str(g.blocks)]


def r15(prog, res, tier):
    # creation
    G = fn(prog, 'GraphNode::new')
    who = short(G)
    S, c, e = one_command(prog, res, G, 'added')
    if c is None:
        return
    if c.a[1] != vidx(prog, 'Command', 'AddDsp'):
        res.bad('added', who, 'sends another kind of command', e.where)
        return
    res.ok('added', who, 'sends exactly one request to add a node')
    d = S.I.pf(c, c.a[1], 0)
    n = 0
    while d.op == 'box' and n < 4:
        d = S.at(e, mk('ref', d.a[0], ()))
        n += 1
    if d.op != 'adt':
        raise NoAnswer('the node that is added cannot be resolved: %s' % str(d)[:100])
    for i, what in ((1, 'identity'), (3, 'number of inputs'), (4, 'number of outputs'), (5, 'processor'), (6, 'parameters')):
        at = [j for j, x in enumerate(d.a[2:]) if x is S.arg(i)]
        fs = adt(prog, 'Dsp')['variants'][0]['f']
        if len(at) == 1 and i in (3, 4) and at[0] < len(fs) and fs[at[0]] == {3: 'output_count', 4: 'input_count'}[i]:
            res.bad('added', who, 'the numbers of inputs and outputs of the node are exchanged', G.where)
        elif len(at) == 1:
            res.ok('added', who, 'the node has the %s it was given' % what)
        else:
            res.bad('added', who, 'the node does not have the %s it was given' % what, G.where)
    idf = [j for j, x in enumerate(d.a[2:]) if x is S.arg(1)]
    h = S.ret
    hid = [j for j, x in enumerate(h.a[2:]) if x is S.arg(1)] if h.op == 'adt' else []
    q = queue_of(S, e)
    hq = [j for j, x in enumerate(h.a[2:]) if x is q] if h.op == 'adt' else []
    qe = ret_event(S, q) if q.op == 'ret' else None
    if len(hid) == 1 and len(hq) == 1:
        res.ok('handle', who, 'the handle keeps the identity of the node and its queue')
    else:
        res.bad('handle', who, 'the handle does not keep the identity of the node and its queue', G.where)
        return
    if qe is not None and qe.name.endswith('get_command_queue') and qe.args[0] is S.arg(2):
        res.ok('handle', who, 'the queue is that of its context')
    else:
        res.bad('handle', who, 'the queue is not that of its context', G.where)
    # end
    D = drop_of(prog, 'GraphNode')
    if D is None:
        res.bad('removed', 'GraphNode', 'nothing is sent when a handle is dropped', G.where)
    else:
        T, c, e = one_command(prog, res, D, 'removed')
        if c is not None:
            x = T.I.pf(c, c.a[1], 0)
            if c.a[1] == vidx(prog, 'Command', 'RemoveDsp') and self_field(T, x) == ((0, hid[0]),) and self_field(T, queue_of(T, e)) == ((0, hq[0]),):
                res.ok('removed', short(D), 'asks for the removal of its own node, once')
            else:
                res.bad('removed', short(D), 'does not ask for the removal of its own node', D.where)
    # nobody else adds or removes nodes
    k = 0
    for f in prog.local():
        if not f.blocks:
            continue
        for v, ok in (('AddDsp', (G,)), ('RemoveDsp', (D,))):
            if builds_variant(prog, f, 'Command', vidx(prog, 'Command', v)):
                k += 1
                up = [f]
                seen = set()
                tops = []
                while up:
                    g = up.pop()
                    if g in seen:
                        continue
                    seen.add(g)
                    if g in ok:
                        tops.append(g)
                        continue
                    cs = callers(prog, g)
                    if not cs:
                        tops.append(g)
                    up += cs
                # what nothing calls cannot send anything, unless it is offered to users
                bad = [t for t in tops if t not in ok and t.npath.split('::')[-2] in ('GraphNode', 'Root') or t not in ok and t.trait]
                if bad:
                    res.bad('only', short(bad[0]), 'also sends requests to %s nodes' % ('add' if v == 'AddDsp' else 'remove'), bad[0].where)
                else:
                    res.ok('only', short(f), 'requests to %s nodes come from here only' % ('add' if v == 'AddDsp' else 'remove'))
    res.need('command makers', k, 2)
    # the callback
    N = Nodes(prog, res)
    A, I, E = N.A, N.I, N.E
    for v in range(E.nvar):
        old, new = N.step(N.npath, v)
        if v == vidx(prog, 'Command', 'AddDsp'):
            m = new
            val = I.pf(E.msg, v, 0)
            ok = False
            if m is not None and m.op == 'mapset' and m.a[0] is old:
                key = m.a[1]
                ok = (m.a[2] is val or m.a[2].op == 'adt' and any(x is val for x in m.a[2].a[2:])) and reads_field(key, val, idf)
            if ok:
                res.ok('callback', A.fn.npath, 'a new node is put into the graph under its own identity, in every case')
            else:
                res.bad('callback', A.fn.npath, 'a new node is not put into the graph under its own identity in every case', A.fn.where)
    dels = [e for e in A.events if e.kind == 'mapdel' and N.path_of(e.args[0]) == N.npath]
    vr = vidx(prog, 'Command', 'RemoveDsp')
    good = [e for e in dels if mk('is', E.msg, vr) in e.pc and e.args[1] is I.pf(E.msg, vr, 0)]
    if good:
        allowed = {mk('is', E.msg, vr), notb(mk('is', E.recv, 1)), mk('is', E.recv, 0)}
        extra = [g for g in good[0].gates if g not in allowed and not (g.op == 'has' and g.a[1] is good[0].args[1]) and
                 not any(t.op == 'exit' for t in subterms(g))]
        if extra:
            res.bad('callback', name(good[0]), 'a node is removed only if %s' % str(extra[0])[:100], good[0].where)
        else:
            res.ok('callback', name(good[0]), 'the node named by the request leaves the graph, in every case')
    else:
        res.bad('callback', A.fn.npath, 'the node named by the request does not leave the graph', A.fn.where)
    for e in dels:
        if e not in good:
            res.bad('callback', name(e), 'a node leaves the graph without a request for it', e.where)
    # identities
    g = fn(prog, 'Id::generate')
    Z = analyse(prog, g)
    rmw = [e for e in Z.events if e.kind == 'atomic' and last(e.name) in ('fetch_add', 'fetch_sub')]
    others = [e for e in Z.events if e.kind == 'atomic' and e not in rmw]
    r = Z.ret
    v = r.a[2] if r.op == 'adt' and len(r.a) == 3 else None
    if len(rmw) == 1 and not others and not rmw[0].gates and not rmw[0].loops and v is rmw[0].ret and rmw[0].args[1].op == 'int' and rmw[0].args[1].a[0] % 2 == 1 \
            and rmw[0].args[0].op == 'static':
        res.ok('unique', short(g), 'one atomic step of a counter gives the identity')
        cell = rmw[0].args[0].a[0]
        for f in prog.local():
            if f.blocks and f is not g and cell in str(f.blocks):
                res.bad('unique', short(f), 'also uses the counter of identities', f.where)
    else:
        res.bad('unique', short(g), 'two calls can give the same identity', g.where)
    for f in makers(prog, 'commands::id::Id'):
        if f is g:
            continue
        cs = [x for x in callers(prog, f) if x is not g]
        if cs and not f.npath.endswith('clone'):
            res.bad('unique', short(cs[0]), 'makes an identity other than by generating it', cs[0].where)
    exact_keys(prog, res, ('Id',), 'identities')
    # every handle owns its node
    k = 0
    for f, C, es in constructors(prog):
        own = [v for _, v in leafpaths_deep(C, C.ret) if v is es[0].ret]
        k += 1
        if len(own) == 1 and not es[0].gates or len(own) == 1 and all_cases(es[0].gates):
            res.ok('owned', short(f), 'the handle owns the node, so dropping it removes the node')
        else:
            res.bad('owned', short(f), 'the handle does not own the node', f.where)
    res.need('node types', k, 8)
    res.cov.update(functions=k + 4, roots=[G.npath, g.npath, A.fn.npath])
    res.notes.append('The life of a node is traced from the one command its creation sends to the map of the callback and back to the one command its drop sends.')


def all_cases(gates):
    """gates that hold in every case: an exhaustive disjunction over the variants of one value"""
    return all(g.op == 'or' and all(x.op == 'is' for x in g.a) and len({x.a[0] for x in g.a}) == 1 for g in gates)


def reads_field(key, box, idf):
    """the key is the field of what the box holds"""
    if not idf or key.op != 'field' or key.a[1:] != (0, idf[0]):
        return False
    t = key.a[0]
    while t is not box:
        if t.op in ('deref0', 'transmute') or t.op == 'field' and t.a[1:] == (0, 0):
            t = t.a[0]
        else:
            return False
    return True


def builds_variant(prog, f, adt_suffix, v):
    ids = {i for i, t in prog.types.items() if t and t['k'] == 'adt' and (t['path'] == adt_suffix or t['path'].endswith('::' + adt_suffix))}

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 3 and x[0] == 'adt' and x[1] in ids and x[2] == v:
                return True
            return any(walk(y) for y in x)
        if isinstance(x, dict):
            return any(walk(y) for y in x.values())
        return False
    return walk(f.blocks)


# -- R16 ---------------------------------------------------------------------------------------------
def r16(prog, res, tier):
    G = fn(prog, 'GraphNode::new')
    S = analyse(prog, G)
    h = S.ret

    def pos(i):
        p = [j for j, x in enumerate(h.a[2:]) if x is S.arg(i)]
        if len(p) != 1:
            raise NoAnswer('the handle of a node does not keep what it was made with')
        return p[0]
    idp, outp = pos(1), pos(4)
    ep = {f: fidx(prog, 'Endpoint', f) for f in ('endpoint_type', 'dsp_id')}
    cn = {f: fidx(prog, 'Connection', f) for f in ('source', 'source_output_channel', 'destination', 'destination_input_channel', 'channel_count')}
    qf = [j for j, x in enumerate(h.a[2:]) if x.op == 'ret']
    k = 0

    def endpoint(S, res, f, v, who, side, what):
        ok = self_of(S, S.I.pf(v, 0, ep['dsp_id']), who, idp)
        t = S.I.pf(v, 0, ep['endpoint_type'])
        if ok and t.op == 'adt' and t.a[1] == vidx(prog, 'EndpointType', side):
            res.ok('endpoint', short(f), 'names the %s of %s' % (side.lower(), what))
        else:
            res.bad('endpoint', short(f), 'does not name the %s of %s' % (side.lower(), what), f.where)

    for m, variant, side in (('connect_to_input', 'ConnectToInput', 'Input'), ('connect_to_output', 'ConnectToOutput', 'Output')):
        f = fn(prog, 'GraphNode::' + m)
        S, c, e = one_command(prog, res, f, 'one-command')
        k += 1
        if c is None:
            continue
        if c.a[1] != vidx(prog, 'Command', variant):
            res.bad('one-command', short(f), 'sends another kind of command', f.where)
            continue
        res.ok('one-command', short(f), 'sends exactly one command of its kind')
        endpoint(S, res, f, S.I.pf(c, c.a[1], 0), S.arg(1), side, 'the node itself')
        on_queue(S, res, f, e, qf)
    table = (('connect_to', 'AddConnection', ZERO, ZERO, None), ('connect_channels_to', 'AddConnection', 3, 4, 5),
             ('disconnect_from_node', 'RemoveConnection', None, None, -1))
    for m, variant, so, di, n in table:
        f = fn(prog, 'GraphNode::' + m)
        S, c, e = one_command(prog, res, f, 'one-command')
        k += 1
        if c is None:
            continue
        if c.a[1] != vidx(prog, 'Command', variant):
            res.bad('one-command', short(f), 'sends another kind of command', f.where)
            continue
        res.ok('one-command', short(f), 'sends exactly one command of its kind')
        v = S.I.pf(c, c.a[1], 0)
        endpoint(S, res, f, S.I.pf(v, 0, cn['source']), S.arg(1), 'Output', 'the node itself')
        endpoint(S, res, f, S.I.pf(v, 0, cn['destination']), S.arg(2), 'Input', 'the other node')
        on_queue(S, res, f, e, qf)
        if n == -1:
            continue
        for fld, want in (('source_output_channel', so), ('destination_input_channel', di)):
            x = S.I.pf(v, 0, cn[fld])
            w = S.arg(want) if isinstance(want, int) else want
            if x is w:
                res.ok('channels', short(f), '%s as asked for' % fld.replace('_', ' '))
            else:
                res.bad('channels', short(f), '%s is not what was asked for' % fld.replace('_', ' '), f.where)
        x = S.I.pf(v, 0, cn['channel_count'])
        if x is S.arg(n) if n else self_of(S, x, S.arg(1), outp):
            res.ok('channels', short(f), 'connects %s' % ('the channels asked for' if n else 'every output channel of the node'))
        else:
            res.bad('channels', short(f), 'does not connect %s' % ('the channels asked for' if n else 'every output channel of the node'), f.where)
    res.need('requests', k, 5)
    res.cov.update(functions=k + 1, roots=['GraphNode::' + m for m in ('connect_to_input', 'connect_to_output', 'connect_to', 'connect_channels_to', 'disconnect_from_node')])
    res.notes.append('Each public call was reduced to the one command it sends; every part of it is compared with the argument or field it must come from.')


def self_of(S, t, arg, i):
    return t is mk('field', mk('deref0', arg), 0, i)


def on_queue(S, res, f, e, qf):
    q = self_field(S, queue_of(S, e))
    if q is not None and len(q) == 1 and q[0][1] in qf:
        res.ok('queue', short(f), 'sends on the queue of its context')
    else:
        res.bad('queue', short(f), 'does not send on the queue of its context', f.where)


RULES = {'R15': r15, 'R16': r16}
