"""R32: the engine and every node are set up as they were asked to be."""
from q import *
from .engine import created, root_method, field_value, run_processor, sent, name, unbox, prog_fields
from .params import adt, fidx, constructors, opaque_calls, short, self_field
import interp
from interp import last

OPTIONS = ('sample_rate', 'maximum_channel_count', 'maximum_frame_count')

# what a node hears and gives: a number, the argument that says it, or the channels of the buffer in that argument; None where nothing is said
SHAPE = {
    'Adsr::new': (2, 2),
    'Biquad::new': (2, 2),
    'Compressor::new': (2, 2),
    'Convolution::new': (2, 'buffer 3'),
    'Envelope::new': (2, None),
    'Gain::new': (2, 2),
    'Mixer::new': (2, 3),
    'Mixer::mono_to_stereo_splitter': ('1', '2'),
    'Mixer::unity': (2, 2),
    'Oscillator::new': ('0', 3),
    'Oscillator::sine': ('0', 3),
    'Oscillator::with_harmonics': ('0', 3),
    'Pan::new': (2, '2'),
    'Recorder::new': (2, None),
    'Sampler::new': (None, 'buffer 2'),
    'Sampler::new_with_event_capacity': (None, 'buffer 2'),
    'Waveshaper::new': (2, 2),
    'Waveshaper::tanh': (2, 2),
    'Waveshaper::soft_saturator': (2, 2),
    'Waveshaper::hard_clip': (2, 2),
}


def within_loops(I, t):
    """the parts of a value, and of what loops make of them"""
    todo, seen = [t], {}
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen[x] = True
            if x.op == 'phi' and x.a[0] in I.loops and x in I.loops[x.a[0]].phis:
                todo += [y for y in I.loops[x.a[0]].phis[x][2:4] if y is not None]
    return list(seen)


def says(x):
    return 'no' if x == '0' else x if isinstance(x, str) and not x.startswith('buffer') else 'asked for' if isinstance(x, int) else 'those of the buffer'


def makers_of_nodes(prog):
    """every function that builds a node, itself or through another: (function, analysis, events)"""
    found = constructors(prog)
    b = opaque_calls('AudioParameter::new', 'GraphNode::new', 'Id::generate')
    keys = {f.key for f, A, es in found}
    new = set(keys)
    while new:
        last_, new = new, set()
        for g in prog.local():
            if not g.blocks or g.key in keys or '{closure' in g.npath:
                continue
            if any(k in str(g.blocks) for k in last_):
                A = analyse(prog, g, b, 'construct')
                es = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith('GraphNode::new')]
                if es:
                    keys.add(g.key)
                    new.add(g.key)
                    found.append((g, A, es))
    return found


def options(prog, res, cover):
    """which part of the options each of the three is, from the method that sets it"""
    n = len(adt(prog, 'EngineOptions')['variants'][0]['f'])
    at = {}
    for o in OPTIONS:
        g = fn(prog, 'EngineOptions::with_' + o)
        A = analyse(prog, g)
        cover.add(g.key)
        own, asked = A.arg(1), A.arg(2)
        parts = [A.I.pf(A.ret, 0, i) for i in range(n)]
        changed = [i for i in range(n) if parts[i] is not A.I.pf(own, 0, i) and parts[i] is not mk('field', own, 0, i)]
        if len(changed) == 1 and same(A.I, parts[changed[0]], asked):
            res.ok('option', short(g), 'sets what it names to what it is given, and nothing else')
            at[o] = changed[0]
        else:
            res.bad('option', short(g), 'does not set exactly what it names to what it is given', g.where)
            if len(changed) == 1:
                at[o] = changed[0]
    if len(set(at.values())) != len(at):
        res.bad('option', 'EngineOptions', 'two options set the same', '')
        return None
    return at if len(at) == 3 else None


def whole(prog, res, at, cover):
    A, pv, cv = created(prog)
    cover.add(A.fn.key)
    cover.update(A.I.inlined)
    opt = {o: mk('field', A.arg(1), 0, i) for o, i in at.items()}
    who = short(A.fn)
    for m, o, what in (('get_sample_rate', 'sample_rate', 'the sample rate'), ('maximum_frame_count', 'maximum_frame_count', 'the longest block')):
        g = root_method(prog, m)
        B = analyse(prog, g)
        cover.add(g.key)
        path = self_field(B, B.ret)
        v = None
        if path is not None:
            v = cv
            for p in path:
                v = A.I.pf(v, p[0], p[1])
        if v is not None and same(A.I, v, opt[o]):
            res.ok('context', short(g), 'tells %s the engine was asked for' % what)
        else:
            res.bad('context', short(g), 'does not tell %s the engine was asked for' % what, g.where)
    g = fn(prog, 'root::create_engine')
    B = analyse(prog, g, opaque_calls('root::create_engine_with_options', 'EngineOptions as std::default::Default>::default'), 'plain')
    cover.add(g.key)
    made = [e for e in B.events if e.kind == 'call' and e.name.endswith('create_engine_with_options')]
    dflt = [e for e in B.events if e.kind == 'call' and e.name.endswith('::default')]
    if len(made) == 1 and len(dflt) == 1 and not made[0].gates and made[0].args[0] is dflt[0].ret and \
            (B.ret is made[0].ret or B.ret.op == 'tuple' and all(x is mk('field', made[0].ret, 0, i) for i, x in enumerate(B.ret.a))):
        res.ok('default', short(g), 'without options the engine is made with the default ones')
    else:
        res.bad('default', short(g), 'without options the engine is not made with the default ones', g.where)
    bs = [t for t in within_loops(A.I, pv) if t.op == 'adt' and tname(prog, t.a[0]) == 'OwnedAudioBuffer']
    L = Lin((), interp.is_signed)
    n = 0
    for b in bs:
        n += 1
        p = {k: A.I.pf(b, 0, fidx(prog, 'OwnedAudioBuffer', k)) for k in ('channel_count', 'frame_count', 'sample_rate')}
        for k, o, what in (('channel_count', 'maximum_channel_count', 'channels'), ('frame_count', 'maximum_frame_count', 'frames')):
            if L.holds(le(opt[o], p[k])):
                res.ok('room', who, 'the buffers between nodes have room for as many %s as the engine was asked for' % what)
            else:
                res.bad('room', who, 'the buffers between nodes have not room for as many %s as the engine was asked for' % what, A.fn.where)
        if same(A.I, p['sample_rate'], opt['sample_rate']):
            res.ok('rate', who, 'the buffers between nodes are at the sample rate the engine was asked for')
        else:
            res.bad('rate', who, 'the buffers between nodes are not at the sample rate the engine was asked for', A.fn.where)
    res.need('buffers the engine is built with', n, 1)


def shapes(prog, res, cover):
    n = 0
    for g, A, es in makers_of_nodes(prog):
        cover.add(g.key)
        want = SHAPE.get(short(g))
        if want is None:
            res.notes.append('nothing is said about what %s hears and gives' % short(g))
            continue
        for e in es:
            n += 1
            for got, w, what in ((e.args[2], want[0], 'hears'), (e.args[3], want[1], 'gives')):
                if w is None:
                    continue
                if isinstance(w, int):
                    t = [A.arg(w)]
                elif w.startswith('buffer'):
                    b = A.arg(int(w.split()[1]))
                    t = [A.I.pf(b, 0, fidx(prog, 'OwnedAudioBuffer', 'channel_count')), mk('app', 'channel_count', mk('deref0', b)),
                         A.I.pf(mk('deref0', b), 0, fidx(prog, 'OwnedAudioBuffer', 'channel_count'))]
                else:
                    t = [INT(int(w))]
                L = Lin(tuple(e.pc), interp.is_signed)
                if any(same(A.I, got, x, e.pc) or L.holds(eq(got, x)) for x in t):
                    res.ok('shape', short(g), 'the node %s as many channels as it was asked to' % what)
                else:
                    res.bad('shape', short(g), 'the node %s not as many channels as it was asked to (%s)' % (what, says(w)), e.where)
    res.need('ways of making a node', n, 12)


def kept(prog, res, cover):
    """the counts a node is made with are those its processor is asked with, and those its connections have"""
    g = fn(prog, 'GraphNode::new')
    S = analyse(prog, g)
    cover.add(g.key)
    who = short(g)
    paths = {}
    for m in ('input_count', 'output_count'):
        h = fn(prog, 'Dsp::' + m)
        B = analyse(prog, h)
        cover.add(h.key)
        paths[m] = self_field(B, B.ret)
        if paths[m] is None:
            raise NoAnswer('what %s tells cannot be resolved' % short(h))
    s = sent(S)
    dsps = []
    for e, m in s:
        for t in subterms(m):
            if t.op == 'box':
                v = unbox(S, t)
                if v.op == 'adt' and tname(prog, v.a[0]) == 'Dsp':
                    dsps.append((e, v))
    if len(dsps) != 1:
        res.bad('counts', who, 'does not hand exactly one processor to the engine', g.where)
        return paths
    e, v = dsps[0]
    for m, i, what in (('input_count', 3, 'hears'), ('output_count', 4, 'gives')):
        x = v
        for p in paths[m]:
            x = S.I.pf(x, p[0], p[1])
        if same(S.I, x, S.arg(i)):
            res.ok('counts', who, 'the processor is kept with as many channels as the node %s' % what)
        else:
            res.bad('counts', who, 'the processor is not kept with as many channels as the node %s' % what, e.where)
    h = fn(prog, 'GraphNode::connect_to')
    B = analyse(prog, h)
    cover.add(h.key)
    ps = set()
    for e, m in sent(B):
        for t in subterms(m):
            if t.op == 'adt' and tname(prog, t.a[0]) == 'Connection':
                ps.add(B.I.pf(t, 0, fidx(prog, 'Connection', 'channel_count')))
    p = self_field(B, ps.pop()) if len(ps) == 1 else None
    x = S.ret
    for q in p or ():
        x = S.I.pf(x, q[0], q[1])
    if p is not None and same(S.I, x, S.arg(4)):
        res.ok('counts', short(h), 'connects as many channels as the node gives')
    else:
        res.bad('counts', short(h), 'does not connect as many channels as the node gives', h.where)
    return paths


def channels_of(A, b):
    if b.op != 'adt':
        return None
    t = A.prog.types[b.a[0]]
    a = A.prog.adts.get(t['path'])
    if a is None:
        return None
    fs = a['variants'][0]['f']
    if 'channel_count' in fs:
        return A.I.pf(b, 0, fs.index('channel_count'))
    for x in b.a[2:]:
        if x.op == 'adt':
            r = channels_of(A, x)
            if r is not None:
                return r
    return None


def given(prog, res, paths, cover):
    """the buffers a processor is asked with have the channels the node was made with"""
    A = run_processor(prog)
    cover.update(A.I.inlined)
    ctxf = prog_fields(prog, 'ProcessContext')
    rend = [e for e in A.events if e.kind == 'call' and e.name.endswith('DspProcessor::process_audio')]
    res.need('node renders in the callback', len(rend), 1)
    for e in rend:
        ctx = A.at(e, e.args[1])
        if ctx.op != 'adt':
            raise NoAnswer('the render context cannot be resolved')
        proc = set(subterms(e.args[0])) | {y for x in subterms(e.args[0]) if x.op == 'ref' and x.a[0][0] == 'P' for y in subterms(x.a[0][1])}
        for fld, m, what in (('input_buffer', 'input_count', 'hears'), ('output_buffer', 'output_count', 'gives')):
            b = A.at(e, A.pf(ctx, ctxf[fld]))
            n = channels_of(A, b)
            if n is None:
                raise NoAnswer('the %s of a node cannot be resolved' % fld)
            alts = [n]
            good = False
            for t in alts:
                d = t
                good = True
                for p in reversed(paths[m]):
                    if d.op != 'field' or d.a[1:] != p:
                        good = False
                        break
                    d = d.a[0]
                if good and d not in proc:
                    good = False
            if good:
                res.ok('given', name(e), 'a processor is asked with a buffer of as many channels as its node %s' % what)
            else:
                res.bad('given', name(e), 'a processor is asked with a buffer of another number of channels than its node %s' % what, e.where)


def r32(prog, res, tier):
    cover = set()
    at = options(prog, res, cover)
    if at is not None:
        whole(prog, res, at, cover)
    shapes(prog, res, cover)
    paths = kept(prog, res, cover)
    given(prog, res, paths, cover)
    res.cov['functions'] = len(cover)
    res.notes.append('Each option, constructor and the engine constructor is evaluated once for all arguments; what it stores is compared with what it was given.')


RULES = {'R32': r32}
