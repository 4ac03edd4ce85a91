"""R20, R21: what the sampler does with its events, and how its voices render."""
from q import *
from .params import vidx, short, constructors, processor_of
from .events import exits_of
from .mixing import window
from .sources import Node
from .engine import ret_event
from .mixing import prog_fields
import interp
from interp import EXITS


class Sampler(Node):
    def __init__(self, prog):
        Node.__init__(self, prog, 'SamplerDspProcess', 'SampleEventType')
        I, A = self.I, self.A
        ty = I.pointee_ty(self.fn.locals[1][0])
        self.who = short(self.fn)

        def one(what, pred):
            fs = [(0, i) for i, f in enumerate(prog.types[ty]['fields'][0]) if pred(f, prog.types[f])]
            if len(fs) > 1:
                fs = [f for f in fs if any(tuple(pa[:1]) == (f,) for pa in self.fields())]
            if len(fs) != 1:
                raise NoAnswer('the %s of the sampler cannot be resolved' % what)
            return fs[0]

        def opt(t, pred):
            return t['k'] == 'adt' and t['path'].endswith('option::Option') and pred(t['args'][0], prog.types[t['args'][0]])

        def istime(f, t):
            return tname(prog, f) == 'Timestamp'
        self.voices = one('voices', lambda f, t: t['k'] == 'adt' and t['path'].endswith('vec::Vec') and tname(prog, t['args'][0]) == 'Voice')
        self.active = one('active voice', lambda f, t: opt(t, lambda f, t: t['k'] == 'uint'))
        self.loop = one('loop points', lambda f, t: opt(t, lambda f, t: t['k'] == 'tuple'))
        self.buffer = one('sample', lambda f, t: tname(prog, f) == 'OwnedAudioBuffer')
        self.place = one('position', istime)
        self.rate = None
        vt = prog.types[prog.types[ty]['fields'][0][self.voices[1]]]['args'][0]
        fs = prog.types[vt]['fields'][0]
        ph = [i for i, f in enumerate(fs) if prog.types[f]['k'] == 'adt' and len(prog.adts.get(prog.types[f]['path'], {}).get('variants', ())) > 1]
        po = [i for i, f in enumerate(fs) if prog.types[f]['k'] == 'uint']
        if len(ph) != 1 or len(po) != 1:
            raise NoAnswer('the state of a voice cannot be resolved')
        self.ph, self.po = ph[0], po[0]
        vs = prog.adts[prog.types[fs[self.ph]]['path']]['variants']
        self.phases = {v['n']: i for i, v in enumerate(vs)}
        if set(self.phases) != {'Stopped', 'FadingIn', 'Playing', 'FadingOut'}:
            raise NoAnswer('the phases of a voice are not the four expected')

    def phase(self, v):
        return self.I.pf(v, 0, self.ph)

    def position(self, v):
        return self.I.pf(v, 0, self.po)

    def phlits(self, p, name):
        return tuple(mk('is', p, i) if n == name else notb(mk('is', p, i)) for n, i in self.phases.items())

    def inner(self, t):
        """the fixed-point number of a time"""
        for _ in range(2):
            if t.op in ('adt', 'fixed'):
                t = t.a[2] if t.op == 'adt' else t.a[0]
            else:
                t = self.I.pf(t, 0, 0)
        return t

    def bits(self, path, f):
        """the fixed-point number of the time at path"""
        v = f(path + ((0, 0),))
        return fixedbits(v)

    def stopped_all(self, v, old, lits=()):
        """are the voices v those of old, all asked to stop: the name of what is wrong, or None"""
        I = self.I
        for l, inf in I.loops.items():
            for p, (b, pa, i, s) in inf.phis.items():
                if p is v and i is old:
                    if inf.trips is None or not same(I, inf.trips, mk('len', old)):
                        return 'not every voice is asked to stop'
                    k = mk('k', l)
                    e = mk('select', p, k)
                    for n in self.phases:
                        x = deep(s, self.phlits(self.phase(e), n))
                        x = mk('select', x, k) if x.op != 'store' else x.a[2] if x.a[0] is p and x.a[1] is k else None
                        if x is None:
                            return 'something else happens to a voice'
                        if x is e or x.op == 'select' and x.a[0] is p:
                            if n in ('Playing', 'FadingIn'):
                                return 'a voice that plays is not faded out'
                            continue
                        q = self.phase(x)
                        if self.position(x) is not self.position(e):
                            return 'a voice that stops jumps to another place'
                        if n == 'Stopped' and not (q.op == 'adt' and q.a[1] == self.phases['Stopped'] or q is self.phase(e)):
                            return 'a stopped voice does not stay stopped'
                        if n == 'FadingOut' and q is not self.phase(e):
                            return 'a fade-out is started again'
                        if n in ('Playing', 'FadingIn') and not (q.op == 'adt' and q.a[1] == self.phases['FadingOut']):
                            return 'a voice that plays is not faded out'
                    return None
        return 'the voices are not all asked to stop'


def fixedbits(v):
    return v.a[0] if v.op == 'fixed' else mk('field', v, 0, 0) if v.op != 'int' else v


def none(v):
    return v.op == 'adt' and v.a[1] == 0 and len(v.a) == 2


def frames_of(t):
    """the fixed-point number a frame count was rounded from"""
    if t.op == 'f2i' and t.a[0].op == 'app' and t.a[0].a[0] in ('round', 'floor'):
        t = t.a[0].a[1]
        if t.op == 'fmul':
            for i in (0, 1):
                if t.a[i].op == 'app' and t.a[i].a[0] == 'fixed_to_num' and t.a[1 - i].op == 'i2f':
                    return t.a[i].a[1], t.a[1 - i].a[0]
    return None


def r20(prog, res, tier):
    S = Sampler(prog)
    I, A, who, w = S.I, S.A, S.who, S.fn.where
    # what a sampler starts with
    now = None
    for p, (b, pa, i, s) in S.inf.phis.items():
        if b != S.base and i.op == 'field' and contains(i, lambda t: t is A.arg(2)):
            now = (p, s)
    if now is None:
        raise NoAnswer('the current time of the sampler cannot be resolved')
    for v in S.variants:
        ev = v['n']
        lits = S.lits(ev)
        before = {k: S.seg((getattr(S, k),)) for k in ('voices', 'active', 'loop')}
        after = {k: S.after((getattr(S, k),), lits) for k in ('voices', 'active', 'loop')}
        pos0, pos1 = S.seg((S.place, (0, 0))), S.after((S.place, (0, 0)), lits)
        c = '%s (%s)' % (who, ev)

        def keep(k, what):
            if after[k] is before[k]:
                res.ok('untouched', c, '%s stay as they are' % what)
            else:
                res.bad('untouched', c, '%s do not stay as they are' % what, w)

        def place_kept():
            if pos1 is pos0:
                res.ok('untouched', c, 'the place in the sample stays as it is')
            else:
                res.bad('untouched', c, 'the place in the sample does not stay as it is', w)
        if ev in ('Stop', 'CancelAll'):
            why = S.stopped_all(after['voices'], before['voices'])
            if why is None:
                res.ok('stop', c, 'every voice that plays is faded out')
            else:
                res.bad('stop', c, why, w)
            if none(after['active']):
                res.ok('stop', c, 'no voice is the playing one')
            else:
                res.bad('stop', c, 'a voice stays the playing one', w)
            if ev == 'Stop':
                keep('loop', 'the loop points')
            place_kept()
        if ev in ('CancelLoop', 'CancelAll'):
            if none(after['loop']):
                res.ok('loop', c, 'there is no loop any more')
            else:
                res.bad('loop', c, 'the loop is not cancelled', w)
        if ev in ('CancelLoop', 'EnableLoop'):
            keep('voices', 'the voices')
            keep('active', 'the playing voice')
            place_kept()
        if ev == 'EnableLoop':
            a, b = S.payload(ev, 0), S.payload(ev, 1)
            n = after['loop']
            cond, t, e = (n.a[0], n.a[1], n.a[2]) if n.op == 'ite' else (None, n, n)
            if none(t):
                cond, t, e = notb(cond) if cond is not None else None, e, t
            pts = I.pf(t, 1, 0)
            if t.op == 'adt' and t.a[1] == 1 and I.pf(pts, 0, 0) is a and I.pf(pts, 0, 1) is b:
                res.ok('loop', c, 'the loop is the one that was asked for')
            else:
                res.bad('loop', c, 'the loop is not the one that was asked for', w)
            if cond is None or not none(e):
                res.bad('loop', c, 'a loop shorter than one frame is accepted: it never ends', w)
            elif at_least_one_frame(S, cond, a, b):
                res.ok('loop', c, 'a loop shorter than one frame is refused')
            else:
                res.bad('loop', c, 'what is refused is not exactly a loop shorter than one frame', w)
        if ev in ('Start', 'StartImmediate'):
            keep('loop', 'the loop points')
            starts(S, res, c, w, before, after, pos1, ev, lits, now)
    res.need('events', len(S.variants), 6)
    looped(S, res)
    made(S, prog, res)
    res.cov.update(functions=1, roots=[S.fn.npath])
    res.notes.append('The segment loop of the sampler was reduced to one segment and one event; each kind of event is a case of its own, as is reaching the end of a loop.')


def at_least_one_frame(S, cond, a, b):
    """is the condition exactly: from a to b is at least one frame?"""
    def length(x):
        if x.op == 'fmul':
            for i in (0, 1):
                if x.a[i].op == 'app' and x.a[i].a[0] == 'fixed_to_num' and x.a[1 - i].op == 'i2f':
                    return x.a[i].a[1] is sub(fixedbits(S.I.pf(b, 0, 0)), fixedbits(S.I.pf(a, 0, 0)))
        return False
    if cond.op == 'fle' and cond.a[0].op == 'fl' and float(cond.a[0].a[0]) == 1.0 and length(cond.a[1]):
        return True
    if cond.op == 'not' and cond.a[0].op == 'flt' and cond.a[0].a[1].op == 'fl' and float(cond.a[0].a[1].a[0]) == 1.0 and length(cond.a[0].a[0]):
        return True
    return False


def started(S, res, c, w, voices, active, old, old_active, at, what, resume=False):
    """the voices after one was asked to play from the fixed-point time at"""
    I = S.I
    # there always is a voice
    some = some_voices(voices, old) + tuple(notb(mk('le0', mk('len', t.a[0].a[0]))) for t in subterms(voices) if t.op == 'le0' and t.a[0].op == 'len')
    act = (mk('is', old_active, 1), notb(mk('is', old_active, 0)))
    idx = I.pf(old_active, 1, 0)
    known = act + (lt(idx, mk('len', old)),)
    cur = S.position(mk('select', old, idx))

    base = deep(voices, some)
    new = None
    # the place a voice is given
    for t in subterms(base):
        if t.op == 'store':
            f = frames_of(S.position(t.a[2])) if t.a[2].op == 'adt' else None
            if f is not None and f[0] is at or t.a[2].op == 'adt' and at is ZERO and S.position(t.a[2]) in (ZERO,) + tuple(zero_frames(t.a[2], S)):
                new = t
    if new is None:
        res.bad('start', c, 'no voice is %s' % what, w)
        return
    to = S.position(new.a[2])
    here = eq(cur, to)
    # the voice that plays is there already
    a = deep(deep(voices, some), known + (here,))
    ao = deep(deep(active, some), known + (here,))
    moved = (notb(act[0]),)
    away = known + (notb(here),)
    if resume:
        v, o = deep(deep(voices, some), moved), deep(deep(active, some), moved)
        if v is old and (o is old_active or none(o)):
            res.ok('start', c, 'nothing plays when nothing played before')
        else:
            res.bad('start', c, 'a sampler that was stopped plays again', w)
    for lab, ls2 in ((('another place plays', away),) if resume else (('no voice plays', moved), ('another place plays', away))):
        v, o = deep(deep(voices, some), ls2), deep(deep(active, some), ls2)
        if v.op != 'store' or v.a[2] is not deep(new.a[2], ls2) and S.position(v.a[2]) is not to:
            res.bad('start', c, 'no voice is %s (%s)' % (what, lab), w)
            continue
        why = S.stopped_all(v.a[0], old)
        if why is None:
            res.ok('start', c, 'what plays is faded out (%s)' % lab)
        else:
            res.bad('start', c, why + ' (%s)' % lab, w)
        q = S.phase(v.a[2])
        play = {x.a[1] if x.op == 'adt' else None for x in ite_leaves(q)}
        if play <= {S.phases['Playing'], S.phases['FadingIn']} and all(x.op != 'adt' or len(x.a) == 2 or x.a[2] is ZERO for x in ite_leaves(q)):
            res.ok('start', c, 'a voice is %s (%s)' % (what, lab))
        else:
            res.bad('start', c, 'the voice does not play from the beginning of its fade-in (%s)' % lab, w)
        for x, ls3 in leaves_with(q):
            at0 = eq(S.position(v.a[2]), ZERO)
            if x.op == 'adt' and x.a[1] == S.phases['Playing'] and at0 is not TRUE and at0 not in ls3:
                res.bad('start', c, 'a start in the middle of the sample is not faded in', w)
        if o.op == 'adt' and o.a[1] == 1 and o.a[2] is v.a[1]:
            res.ok('start', c, 'that voice is the playing one (%s)' % lab)
        else:
            res.bad('start', c, 'another voice is taken for the playing one (%s)' % lab, w)
        free = chosen_free(S, v.a[1], v.a[0])
        if free:
            res.ok('start', c, 'a voice that has stopped is preferred (%s)' % lab)
        else:
            res.bad('start', c, 'a voice that still sounds is taken although one has stopped (%s)' % lab, w)
    if a is old and ao is old_active:
        res.ok('start', c, 'a voice that is there already just goes on')
    elif a.op == 'store' and S.position(a.a[2]) is to and ao.op == 'adt' and ao.a[1] == 1 and ao.a[2] is a.a[1]:
        res.ok('start', c, 'a voice that is there already gives way to another at that place')
    else:
        res.bad('start', c, 'nothing plays from that place when a voice is there already', w)


def zero_frames(v, S):
    p = S.position(v)
    f = frames_of(p)
    return (p,) if f is not None and f[0] is ZERO else ()


def ite_leaves(t):
    return ite_leaves(t.a[1]) + ite_leaves(t.a[2]) if t.op == 'ite' else [t]


def leaves_with(t, ls=()):
    if t.op == 'ite':
        return leaves_with(t.a[1], ls + (t.a[0],)) + leaves_with(t.a[2], ls + (notb(t.a[0]),))
    return [(t, ls)]


def chosen_free(S, idx, voices):
    """is the chosen voice a stopped one whenever there is one?"""
    if idx.op == 'best':
        m, key, j = idx.a
        e = mk('select', voices, j)
        p = S.phase(e)
        top = deep(key, S.phlits(p, 'Stopped'))
        for n in S.phases:
            if n == 'Stopped':
                continue
            x = deep(key, S.phlits(p, n))
            d = (top, x) if m == 'max' else (x, top)
            if top.op == 'int' and top.a[0] == (2 ** 64 - 1 if m == 'max' else 0):
                continue
            if not Lin([], interp.is_signed).holds(lt(d[1], d[0])):
                return False
        return True
    return False


def starts(S, res, c, w, before, after, pos1, ev, lits, now):
    I = S.I
    got = fixedbits(pos1)
    if ev == 'StartImmediate':
        want = ZERO
    else:
        p = fixedbits(I.pf(S.payload(ev), 0, 0))
        et = [i for i, f in enumerate(S.prog.types[evt_type(S)]['fields'][0]) if tname(S.prog, f) == 'Timestamp']
        if len(et) != 1:
            raise NoAnswer('the time of an event cannot be resolved')
        t = fixedbits(I.pf(S.evt, (0), et[0]) if False else I.pf(I.pf(S.evt, 0, et[0]), 0, 0))
        n = now[1]
        want = sub(add(p, fixedbits(n)), t)
    if got is want or same(I, got, want):
        res.ok('start', c, 'the place in the sample is the one asked for, further by as much as the start is late' if ev == 'Start' else 'the place is the start of the sample')
    else:
        res.bad('start', c, 'the place in the sample is not the one asked for, further by as much as the start is late', w)
    started(S, res, c, w, after['voices'], after['active'], before['voices'], before['active'], want, 'started there')


def evt_type(S):
    for i, t in enumerate(S.prog.types.values() if isinstance(S.prog.types, dict) else S.prog.types):
        if t and t['k'] == 'adt' and t['path'].endswith('::SamplerEvent'):
            return t['id']
    raise NoAnswer('no SamplerEvent')


def span_loop(S):
    """the loop over the spans of a segment: what lies between two ends of the sample or its loop"""
    I = S.I
    out = []
    for l, inf in I.loops.items():
        if l != S.L:
            for p, (b, pa, i, s) in inf.phis.items():
                pp = tuple((x[1], x[2]) for x in pa) if all(len(x) == 3 for x in pa) else ()
                if b == S.base and pp[:1] == (S.place,) and contains(i, lambda t: t.op == 'phi' and t.a[0] == S.L):
                    out.append((l, p, s))
    if len(out) != 1:
        raise NoAnswer('the loop over the spans of a segment cannot be resolved')
    return out[0]


WRITES = ('AudioBuffer::set_sample', 'AudioBuffer::add_from', 'AudioBuffer::copy_from', 'AudioBuffer::clear', 'AudioBuffer::fill_with_value',
          'AudioBuffer::add_from_with_gain', 'AudioBuffer::apply_gain_value', 'AudioBuffer::get_channel_data_mut')


def writes(S):
    return [e for e in S.A.events if e.kind in ('call', 'write', 'store') and (e.name or '').endswith(WRITES)]


def spans(S):
    """(first frame in the block, frames, offset and count of the innermost window) of the windows that are written to"""
    A, I = S.A, S.I
    out = {}
    for e in writes(S):
        v = A.at(e, e.args[0])
        off, first, n = ZERO, None, None
        while True:
            wd = window(A, e, v)
            if wd is None:
                break
            ref, ch, fr, cc, fc = wd
            if first is None:
                first, n = fr, fc
            off = add(off, fr)
            if ch is not ZERO:
                return None
            v = A.at(e, ref) if ref.op == 'ref' else ref
            if v is ref or ref.op != 'ref':
                break
        out.setdefault((off, n), []).append(e)
    return out


def looped(S, res):
    I, A, who, w = S.I, S.A, S.who, S.fn.where
    l, pz, sz = span_loop(S)
    inf = I.loops[l]
    sp = spans(S)
    if not sp or len(sp) != 1:
        raise NoAnswer('what the voices render to cannot be resolved')
    (off, n), = sp
    fp = [(p, s) for p, (b, pa, i, s) in inf.phis.items() if i is ZERO and sub(off, p) is S.pos]
    if len(fp) != 1:
        res.bad('spans', who, 'a span is not rendered where the one before ended', w)
        return
    fp, fs = fp[0]
    own = {tuple((x[1], x[2]) for x in pa): (p, s) for p, (b, pa, i, s) in inf.phis.items() if b == S.base and all(len(x) == 3 for x in pa)}

    def pair(path):
        for pa, (p, s) in own.items():
            if pa[:1] == (path,):
                return p, s
        v = S.before((path,))
        return v, v
    voices, active, loop = pair(S.voices), pair(S.active), pair(S.loop)
    place = fixedbits(pz)
    looping = (mk('is', loop[0], 1), notb(mk('is', loop[0], 0)))
    once = (notb(mk('is', loop[0], 1)), mk('is', loop[0], 0))
    empty, full = (eq(n, ZERO), le(n, ZERO)), (notb(eq(n, ZERO)), notb(le(n, ZERO)))
    if loop[1] is loop[0] or all(deep(loop[1], x) is loop[0] for x in (looping, once)):
        res.ok('spans', who, 'rendering leaves the loop points alone')
    else:
        res.bad('spans', who, 'rendering changes the loop points', w)
    # the length of a span
    left = sub(sub(S.end, S.pos), fp)
    rs = [t for t in subterms(n) if frames_of(t)]
    if not (n.op == 'min' and left in n.a and len(rs) == 1 and len(n.a) == 2 and rs[0] in n.a):
        res.bad('spans', who, 'a span is not limited to the rest of the segment, or to what is left of the sample', w)
    else:
        x, rate = frames_of(rs[0])
        for lits, lab in ((looping, 'loop'), (once, 'sample')):
            y = add(deep(x, lits), place)
            if lab == 'loop':
                end = fixedbits(I.pf(I.pf(I.pf(loop[0], 1, 0), 0, 1), 0, 0))
            else:
                end = None
            ys = list(y.a) if y.op == 'min' else [y]
            good = any(t is end if end is not None else is_length(S, t) for t in ys) and \
                all(t is end or is_length(S, t) or mentions(t, left) for t in ys)
            if good:
                res.ok('spans', who, 'a span ends at the end of the %s' % lab)
            else:
                res.bad('spans', who, 'a span does not end at the end of the %s' % lab, w)
    # a span is rendered
    f1, p1 = deep(fs, full), fixedbits(deep(sz, full))
    if f1 is add(fp, n):
        res.ok('spans', who, 'the next span begins where this one ends')
    else:
        res.bad('spans', who, 'the next span does not begin where this one ends', w)
    adv = sub(p1, place)
    if adv.op == 'app' and adv.a[0] == 'fixed_from_num' and adv.a[1].op == 'fdiv' and adv.a[1].a[0] is mk('i2f', n) and adv.a[1].a[1].op == 'i2f' \
            and is_rate(S, adv.a[1].a[1].a[0]):
        res.ok('spans', who, 'the place in the sample moves on by what was rendered')
    else:
        res.bad('spans', who, 'the place in the sample does not move on by what was rendered', w)
    v1, a1 = deep(voices[1], full), deep(active[1], full)
    ren = [x for x, (p, (b, pa, i, s)) in ((x, y) for x in I.loops for y in I.loops[x].phis.items()) if p is v1 and i is voices[0]]
    if ren and I.loops[ren[0]].trips is not None and same(I, I.loops[ren[0]].trips, mk('len', voices[0])):
        res.ok('spans', who, 'every voice renders each span once')
    else:
        res.bad('spans', who, 'not every voice renders each span once', w)
    if a1 is active[0]:
        res.ok('spans', who, 'rendering leaves the playing voice what it is')
    else:
        res.bad('spans', who, 'rendering changes which voice is the playing one', w)
    # nothing is left of the loop
    lits = looping + empty
    lits += some_voices(fs, voices[0]) + some_voices(sz, voices[0]) + some_voices(voices[1], voices[0])
    start, end = [fixedbits(I.pf(I.pf(I.pf(loop[0], 1, 0), 0, i), 0, 0)) for i in (0, 1)]
    f2 = deep(fs, lits)
    if f2 is fp:
        res.ok('loop', who, 'nothing is skipped at the end of a loop')
    else:
        res.bad('loop', who, 'frames are skipped at the end of a loop', w)
    p2 = deep(sz, lits)
    wrapped = sub(add(place, start), end)
    leaves_ = {fixedbits(x) for x in ite_leaves(cases_of(S, p2))}
    little = True
    for x in subterms(p2):
        if x.op == 'ite' and fixedbits(x.a[1]) is wrapped and x.a[0].op in ('flt', 'fle') and x.a[0].a[1].op == 'fl':
            little = little and float(x.a[0].a[1].a[0]) >= 0.5
    if wrapped in leaves_ and leaves_ <= {wrapped, start} and little:
        res.ok('loop', who, 'the place goes back to the start of the loop with what was past its end')
    else:
        res.bad('loop', who, 'the place does not go back to the start of the loop with what was past its end', w)
    started(S, res, who + ' (end of the loop)', w, deep(voices[1], lits), deep(active[1], lits), voices[0], active[0], start,
            'started at the start of the loop', True)
    # the end
    ok = False
    for fs_ in exits_of(l):
        ok = True
        for f in fs_:
            if not f.op == 'or':
                f = mk('or', f)
        done = orb(*[andb(*(x if isinstance(x, tuple) else (x,))) for x in [tuple(fs_)]])
        want = orb(le(left, ZERO), andb(once[0], eq(n, ZERO)))
        if not (done is want or covers(done, want)):
            ok = False
    if ok:
        res.ok('spans', who, 'a segment ends when it is full, or when nothing is left of the sample and there is no loop')
    else:
        res.bad('spans', who, 'a segment ends early, or goes on past its end', w)


def covers(done, want):
    """are both the same condition, or does the first one entail the second?"""
    if done is want:
        return True
    parts = done.a if done.op == 'or' else (done,)
    for p in parts:
        l = Lin(p.a if p.op == 'and' else (p,), interp.is_signed)
        if not any(l.holds(x) for x in (want.a if want.op == 'or' else (want,))):
            return False
    return True


def some_voices(t, old):
    """there always is a voice, and the one chosen among them is one of them"""
    out = []
    for x in subterms(t):
        if x.op == 'le0' and x.a[0].op == 'len':
            out.append(notb(x))
        elif x.op == 'best':
            for y in subterms(x.a[1]):
                if y.op == 'select' and y.a[1] is x.a[2]:
                    out.append(lt(x, mk('len', y.a[0])))
    return tuple(dict.fromkeys(out)) + (notb(mk('le0', mk('len', old))),)


def cases_of(S, t):
    """drop decisions that only repeat other ones"""
    from .mixing import leaves_of
    out = None
    for ls, x in leaves_of(t):
        out = x if out is None else mk('ite', fresh('case'), x, out)
    return out


def is_rate(S, t):
    return t.op == 'field' and (t.a[0] is mk('deref0', S.A.arg(1)) or contains(t, lambda x: x is S.A.arg(2))) or t.op == 'app' and t.a[0] == 'sample_rate'


def is_length(S, t):
    """the length of the sample as a fixed-point number"""
    if t.op == 'app' and t.a[0] == 'fixed_from_num' and t.a[1].op == 'fdiv' and t.a[1].a[0].op == 'i2f' and t.a[1].a[1].op == 'i2f' and is_rate(S, t.a[1].a[1].a[0]):
        x = t.a[1].a[0].a[0]
        return x.op == 'field' and x.a[0].op == 'field' and x.a[0].a[0] is mk('deref0', S.A.arg(1)) and (0, x.a[0].a[2]) == S.buffer
    return False


def made(S, prog, res):
    """a sampler that was just made plays nothing"""
    n = 0
    for f, C, es in constructors(prog):
        for e in es:
            for box in e.args:
                if C.I.tk(e.argtys[e.args.index(box)])['k'] != 'adt' or 'Box' not in C.I.tk(e.argtys[e.args.index(box)])['path']:
                    continue
                fn, v = processor_of(prog, C, box)
                if fn is not S.fn:
                    continue
                n += 1
                who, w = short(f), f.where
                vs = C.pf(v, S.voices[1])
                st = deep(C.pf(vs.a[2] if vs.op == 'gen' else mk('select', vs, fresh('i')), S.ph), ())
                if st.op == 'adt' and st.a[1] == S.phases['Stopped']:
                    res.ok('made', who, 'every voice of a new sampler has stopped')
                else:
                    res.bad('made', who, 'a voice of a new sampler may play', w)
                if Lin([], interp.is_signed).holds(le(ONE, mk('len', vs))) or vs.op == 'gen' and vs.a[0].op == 'int' and vs.a[0].a[0] > 0:
                    res.ok('made', who, 'a sampler has a voice')
                else:
                    res.bad('made', who, 'a sampler may have no voice', w)
                if none(C.pf(v, S.active[1])) and none(C.pf(v, S.loop[1])):
                    res.ok('made', who, 'a new sampler plays nothing and has no loop')
                else:
                    res.bad('made', who, 'a new sampler plays or has a loop', w)
                b = C.pf(v, S.buffer[1])
                if any(b is C.arg(i + 1) for i in range(f.argc)):
                    res.ok('made', who, 'the sample is the one given')
                else:
                    res.bad('made', who, 'the sample is not the one given', w)
    res.need('constructors of a sampler', n, 1)


def r21(prog, res, tier):
    S = Sampler(prog)
    I, A, who, w = S.I, S.A, S.who, S.fn.where
    ws = writes(S)
    sp = spans(S)
    if not ws or not sp or len(sp) != 1:
        raise NoAnswer('what the voices render to cannot be resolved')
    (off, N), = sp
    common = []
    for ls in zip(*[e.loops for e in ws]):
        if len(set(ls)) != 1:
            break
        common.append(ls[0])
    # the loop over the parts of a span that a voice renders in one phase
    R = None
    for l in common:
        for p, (b, pa, i, s) in I.loops[l].phis.items():
            if b == S.base and tuple((x[1], x[2]) for x in pa if len(x) == 3)[:1] == (S.voices,):
                R, vp, vs = l, p, s
    if R is None:
        raise NoAnswer('the loop in which a voice renders cannot be resolved')
    ds = [(p, s) for p, (b, pa, i, s) in I.loops[R].phis.items() if i is ZERO]
    ds = [(p, s) for p, s in ds if any(mentions(t, p) for e in ws for a in e.args for t in (a,))]
    V = common[common.index(R) - 1] if common.index(R) else None
    if len(ds) != 1 or V is None:
        raise NoAnswer('how far a voice has rendered cannot be resolved')
    d, dstep = ds[0]
    kv = mk('k', V)
    old = mk('select', vp, kv)
    pos, ph = S.position(old), S.phase(old)
    fr, cc = 2, 1
    bf = prog_fields(prog, 'OwnedAudioBuffer')
    sb = S.before((S.buffer,))
    src = I.pf(sb, 0, bf['frame_count'])
    chans = I.pf(sb, 0, bf['channel_count'])
    res.cov.update(functions=len(I.inlined), events=len(ws), roots=[S.fn.npath])
    fade = fade_of(S, prog)
    for e in ws:
        if not any(e in x for x in sp.values()):
            res.bad('write', who, 'something else than the span of the output is written', e.where)
    nwr = {n: 0 for n in S.phases}
    for n in S.phases:
        c = '%s (%s)' % (who, n)
        lits = S.phlits(ph, n)
        if n == 'Stopped':
            for e in ws:
                if any(deep(g, lits) is FALSE for g in e.pc) or Lin(e.pc, interp.is_signed).holds(notb(lits[0])):
                    continue
                res.bad('stopped', c, 'a voice that has stopped still renders', e.where)
            res.ok('stopped', c, 'a voice that has stopped renders nothing')
            continue
        d1 = deep(dstep, lits)
        step = sub(d1, d)
        v1 = [(deep(x, ls), ls) for x, ls in leaves_with(deep(vs, lits))]
        f = I.pf(ph, S.phases[n], 0) if n != 'Playing' else None
        rest = sub(N, d)
        if n == 'Playing':
            want = rest
        else:
            want = interp.imin(sub(mk('len', fade), f), rest)
        if step is want or same(I, step, want):
            res.ok('step', c, 'a voice renders up to the end of the span' if f is None else 'a voice renders up to the end of the span or of its fade')
        else:
            res.bad('step', c, 'a voice does not render as many frames as are left of the span and of its fade', w)
        for x, ls in v1:
            q = mk('select', x, kv) if x.op != 'store' else x.a[2] if x.a[0] is vp and x.a[1] is kv else None
            if q is None:
                res.bad('step', c, 'something else happens to a voice than to render', w)
                continue
            p1 = S.position(q)
            if sub(p1, pos) is step:
                res.ok('step', c, 'the place in the sample moves on by what was rendered')
            else:
                res.bad('step', c, 'the place in the sample does not move on by what was rendered', w)
            for ph1, ls1 in leaves_with(S.phase(q)):
                if n == 'Playing':
                    good = ph1 is ph or ph1.op == 'adt' and ph1.a[1] == S.phases['Playing']
                    what = 'a voice that plays goes on playing'
                else:
                    more = lt(add(f, step), mk('len', fade))
                    L = Lin(tuple(ls) + tuple(ls1), interp.is_signed)
                    on, off_ = L.holds(more), L.holds(notb(more))
                    if on and off_:
                        continue
                    if on:
                        good = ph1.op == 'adt' and ph1.a[1] == S.phases[n] and ph1.a[2] is add(f, step)
                        what = 'a fade goes on where it was left'
                    else:
                        then = 'Playing' if n == 'FadingIn' else 'Stopped'
                        good = off_ and ph1.op == 'adt' and ph1.a[1] == S.phases[then]
                        what = 'a fade that is over is followed by %s' % then
                if good:
                    res.ok('phase', c, what)
                else:
                    res.bad('phase', c, 'not the case: ' + what, w)
        # what is written
        for e in ws:
            pc = e.pc + lits
            if any(deep(g, lits) is FALSE for g in e.pc) or Lin(e.pc, interp.is_signed).holds(notb(mk('is', ph, S.phases[n]))):
                continue
            if any(mk('is', ph, i) in e.pc for m, i in S.phases.items() if m != n):
                continue
            nwr[n] += 1
            wrote(S, res, c, e, n, d, pos, f, rest, want, src, chans, fade, pc, lits, R)
        if nwr[n] != 1:
            res.bad('write', c, 'a voice does not render each frame of the sample once', w)
    res.need('phases that render', sum(1 for n in nwr if nwr[n]), 3)
    # when a voice is done
    done = [tuple(fs_) for fs_ in exits_of(R)]
    want = orb(mk('is', ph, S.phases['Stopped']), le(sub(N, d), ZERO))
    if done and all(len(x) == 1 and (x[0] is want or covers(x[0], want)) for x in done):
        res.ok('done', who, 'a voice is done when the span is full or it has stopped')
    else:
        res.bad('done', who, 'a voice is done before the span is full', w)
    vstep = None
    for p, (b, pa, i, s) in I.loops[V].phis.items():
        if b == S.base and tuple((x[1], x[2]) for x in pa if len(x) == 3)[:1] == (S.voices,):
            vstep = (p, s)
            o = mk('select', p, kv)
            for n in S.phases:
                x = deep(s, S.phlits(S.phase(o), n))
                if x is vp or n == 'Stopped' and x is p:
                    res.ok('every', '%s (%s)' % (who, n), 'the voice renders')
                else:
                    res.bad('every', '%s (%s)' % (who, n), 'a voice does not render', w)
    if vstep is None:
        res.bad('every', who, 'the voices do not render one after the other', w)
    res.notes.append('What a voice writes was reduced to one frame and one channel of one pass of its loop, in each of its phases.')


def fade_of(S, prog):
    """the values of the fade"""
    ty = S.I.pointee_ty(S.fn.locals[1][0])
    fs = [i for i, f in enumerate(prog.types[ty]['fields'][0]) if tname(prog, f) == 'Fade']
    if len(fs) != 1:
        raise NoAnswer('the fade of the sampler cannot be resolved')
    v = S.before(((0, fs[0]),))
    ft = prog.types[ty]['fields'][0][fs[0]]
    vec = [i for i, f in enumerate(prog.types[ft]['fields'][0]) if prog.types[f]['k'] == 'adt' and prog.types[f]['path'].endswith('vec::Vec')]
    if len(vec) != 1:
        raise NoAnswer('the values of the fade cannot be resolved')
    return S.I.pf(v, 0, vec[0])


def follows(facts, g):
    """does the condition hold, the shortest of some lengths being each of them in turn?"""
    if Lin(facts, interp.is_signed).holds(g):
        return True
    for t in subterms(g):
        if t.op == 'min':
            return all(follows(tuple(facts) + tuple(le(x, y) for y in t.a if y is not x), subst(g, {t: x})) for x in t.a)
    if g.op == 'not' and g.a[0].op == 'eq0':
        z = g.a[0].a[0]
        L = Lin(facts, interp.is_signed)
        return L.holds(lt(ZERO, z)) or L.holds(lt(z, ZERO))
    return False


def wrote(S, res, c, e, n, d, pos, f, rest, want, src, chans, fade, pc, lits, R):
    """one write of a voice in phase n: is it the frame of the sample that belongs there, at its gain?"""
    I, A = S.I, S.A
    lf = prog_fields(S.prog, 'SampleLocation')
    out = A.at(e, e.args[0])
    cc = window(A, e, out)[3]
    m = short_name(e)
    inner = e.loops[e.loops.index(R) + 1:]
    if m == 'add_from':
        loc0, loc1, ch, num = e.args[2:6]
        if not is_sample(S, e, e.args[1]):
            res.bad('write', c, 'what is rendered is not the sample', e.where)
        if n != 'Playing':
            res.bad('gain', c, 'a fade is rendered without its gain', e.where)
            return
        good = loc0_is(I, lf, loc0, ZERO, pos) and loc0_is(I, lf, loc1, ZERO, d)
        where_it_belongs(res, c, e, good)
        lim = interp.imin(rest, sub(src, pos))
        num = within_sample(num, src, pos)
        if (num is lim or same(I, num, lim, pc)) and not inner:
            res.ok('cover', c, 'every frame up to the end of the span or of the sample is rendered')
        else:
            res.bad('cover', c, 'not every frame up to the end of the span or of the sample is rendered', e.where)
        if ch is interp.imin(chans, cc) or ch is interp.imin(cc, chans):
            res.ok('cover', c, 'every channel is rendered')
        else:
            res.bad('cover', c, 'not every channel is rendered', e.where)
        res.ok('gain', c, 'a voice that plays is added as it is')
        skip = [g for g in e.pc if mentions(g, src) and mentions(g, pos)]
        if all(follows((lt(pos, src), lt(d, add(rest, d))) + lits, x) for g in skip for x in split(within_sample(g, src, pos))):
            res.ok('cover', c, 'it is only left out when nothing is left of the sample')
        else:
            res.bad('cover', c, 'it is left out although something is left of the sample', e.where)
        return
    if m != 'set_sample' or len(inner) != 2:
        res.bad('write', c, 'a voice writes in a way that is not known: %s' % m, e.where)
        return
    js = {l: mk('k', l) for l in inner}
    loc, val = e.args[1], e.args[2]
    fr, chn = I.pf(loc, 0, lf['frame']), I.pf(loc, 0, lf['channel'])
    kc = [l for l in inner if chn is js[l]]
    kf = [l for l in inner if sub(fr, d) is js[l]]
    if len(kc) != 1 or len(kf) != 1 or kc == kf:
        res.bad('place', c, 'the frames are not written where they belong', e.where)
        return
    kc, kf = kc[0], kf[0]
    j = js[kf]
    reads, gain = [], None
    if val.op == 'fadd':
        for i in (0, 1):
            r = ret_event(A, val.a[i]) if val.a[i].op == 'ret' else None
            if r is not None and r.args[0] is e.args[0] and r.args[1] is loc:
                reads.append(val.a[1 - i])
    if len(reads) != 1:
        res.bad('write', c, 'the voice is not added to what is there', e.where)
        return
    x = reads[0]
    facs = list(x.a) if x.op == 'fmul' else [x]
    g = []
    smp = None
    for y in facs:
        r = ret_event(A, y) if y.op == 'ret' else None
        if r is not None and short_name(r) == 'get_sample' and is_sample(S, r, r.args[0]):
            smp = r
        else:
            g.append(y)
    if smp is None or len(g) > 1:
        res.bad('write', c, 'what is rendered is not the sample', e.where)
        return
    where_it_belongs(res, c, e, I.pf(smp.args[1], 0, lf['channel']) is chn and sub(I.pf(smp.args[1], 0, lf['frame']), pos) is j)
    # the gain
    g = g[0] if g else mk('fl', '1.0')
    if n == 'Playing':
        ok = g.op == 'fl' and float(g.a[0]) == 1.0
    else:
        at = add(f, j)
        if n == 'FadingOut':
            at = sub(mk('len', fade), at)
        ok = True
        for y, ls in leaves_with(deep(g, pc)):
            L = Lin(tuple(pc) + tuple(ls) + (le(ZERO, j), le(ZERO, f)), interp.is_signed)
            if y.op == 'select':
                ok = ok and y.a[0] is fade and y.a[1] is at
            else:
                ok = ok and y.op == 'fl' and float(y.a[0]) == 1.0 and L.holds(le(mk('len', fade), at))
    if ok:
        res.ok('gain', c, 'each frame is rendered at its gain')
    else:
        res.bad('gain', c, 'a frame is not rendered at its gain', e.where)
    # every frame, every channel
    t = I.loops[kc].trips
    if t is not None and (t is interp.imin(chans, cc) or t is interp.imin(cc, chans)):
        res.ok('cover', c, 'every channel is rendered')
    else:
        res.bad('cover', c, 'not every channel is rendered', e.where)
    full = orb(le(want, j), le(src, add(pos, j)))
    t = I.loops[kf].trips
    ends = [orb(*x) if len(x) > 1 else x[0] for x in (tuple(y) for y in exits_of(kf))]
    if t is not None:
        t = within_sample(t, src, pos)
        ends = [le(t, j)]
        if same(I, t, interp.imin(want, sub(src, pos))) or same(I, t, want):
            ends = [full]
    guards = [g for g in e.pc if mentions(g, j) and not contains(g, lambda y: y is js[kc])]
    L = Lin((notb(le(want, j)), notb(le(src, add(pos, j)))) + lits, interp.is_signed)
    if ends and all(covers(x, full) for x in ends) and all(L.holds(x) for g in guards for x in split(within_sample(g, src, pos))):
        res.ok('cover', c, 'every frame up to the end of the span, of the fade or of the sample is rendered')
    else:
        res.bad('cover', c, 'not every frame up to the end of the span, of the fade or of the sample is rendered', e.where)


def within_sample(t, src, pos):
    """t where something is left of the sample (nothing is rendered otherwise, as a count limited by what is left is 0)"""
    x = mk('ssub', src, pos)
    return subst(t, {x: sub(src, pos)}) if mentions(t, x) else t


def split(g):
    """what a condition demands, one by one"""
    if g.op == 'and':
        return [y for x in g.a for y in split(x)]
    if g.op == 'le0':
        for t in subterms(g):
            if t.op == 'min':
                x = [subst(g.a[0], {t: y}) for y in t.a]
                if all(sub(g.a[0], y) is sub(z, t) for y, z in zip(x, t.a)):
                    return [y for z in x for y in split(mk('le0', z) if z.op != 'int' else le(z, ZERO))]
    return [g]


def short_name(e):
    return (e.name or '').rsplit('::', 1)[-1]


def is_sample(S, e, ref):
    """is this a reference to the sample of the sampler?"""
    for _, b, p in S.I.deref(ref, None):
        if b != S.base or tuple((x[1], x[2]) for x in p if len(x) == 3) != (S.buffer,):
            return False
    return True


def loc0_is(I, lf, loc, ch, fr):
    return I.pf(loc, 0, lf['channel']) is ch and I.pf(loc, 0, lf['frame']) is fr


def where_it_belongs(res, c, e, good):
    if good:
        res.ok('place', c, 'each frame of the sample is written where it belongs')
    else:
        res.bad('place', c, 'the frames of the sample are not written where they belong', e.where)


RULES = {'R20': r20, 'R21': r21}
