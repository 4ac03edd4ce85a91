"""R19-R21: what the adsr, the sampler and the recorder do with their events and their frames."""
from q import *
from .engine import name, ret_event
from .params import adt, fidx, vidx, self_field, opaque_calls, short, raw, refsubst, clamped, constructors, processor_of
from .events import EDGE, Ep, event_types, evname, variants_of, exits_of, terms_exit, upward, handle_value, mentions_any
import interp
from interp import EXITS


class Node:
    """a processor that takes events, with the loop over its segments"""
    def __init__(self, prog, owner, enum):
        self.prog = prog
        fs = [f for f in prog.trait_method('DspProcessor', 'process_audio') if f.blocks and (f.selfty or '').rsplit('::', 1)[-1] == owner]
        if len(fs) != 1:
            raise NoAnswer('no processor %s' % owner)
        self.fn = fs[0]
        A = self.A = analyse(prog, fs[0], opaque_calls(*EDGE), 'events')
        I = self.I = A.I
        nx = [e for e in A.events if e.kind == 'call' and (e.name or '').endswith(EDGE[0])]
        if len(nx) != 1 or len(nx[0].loops) != 1:
            raise NoAnswer('%s does not take its events in one loop' % owner)
        self.n = n = nx[0]
        self.L = n.loops[0]
        self.inf = I.loops[self.L]
        self.base = ('P', A.arg(1))
        self.opt, self.end = I.pf(n.ret, 0, 1), I.pf(n.ret, 0, 0)
        self.evt = I.pf(self.opt, 1, 0)
        pos = [p for p, (b, pa, i, s) in self.inf.phis.items() if i is ZERO and s is self.end]
        if len(pos) != 1:
            raise NoAnswer('the segments of %s cannot be resolved' % owner)
        self.pos = pos[0]
        self.some = (mk('is', self.opt, 1), notb(mk('is', self.opt, 0)))
        self.none = (mk('is', self.opt, 0), notb(mk('is', self.opt, 1)))
        kinds = {t.a[0] for p, (b, pa, i, s) in self.inf.phis.items() for t in subterms(s)
                 if t.op == 'is' and t.a[0].op == 'field' and t.a[0].a[0] is self.evt}
        if len(kinds) != 1:
            raise NoAnswer('the kinds of events of %s cannot be resolved' % owner)
        self.kind = next(iter(kinds))
        self.variants = adt(prog, enum)['variants']
        self.enum = enum

    def lits(self, v):
        """an event of this kind was taken"""
        vi = vidx(self.prog, self.enum, v)
        return self.some + tuple(mk('is', self.kind, j) if j == vi else notb(mk('is', self.kind, j)) for j in range(len(self.variants)))

    def payload(self, v, i=0):
        return self.I.pf(self.kind, vidx(self.prog, self.enum, v), i)

    def fields(self):
        """{path: (value at the start of a segment, value after it and its event)} of the state the loop changes"""
        return {tuple((x[1], x[2]) for x in pa): (p, s) for p, (b, pa, i, s) in self.inf.phis.items()
                if b == self.base and all(len(x) == 3 and x[0] == 'f' for x in pa)}

    def before(self, path):
        """a part of the state when a segment starts"""
        for p, (b, pa, i, s) in self.inf.phis.items():
            if b == self.base:
                pp = tuple((x[1], x[2]) for x in pa)
                if tuple(path[:len(pp)]) == pp:
                    v = p
                    for var, j in path[len(pp):]:
                        v = self.I.pf(v, var, j)
                    return v
        v = mk('deref0', self.A.arg(1))
        for var, j in path:
            v = self.I.pf(v, var, j)
        return v

    def after(self, path, lits):
        """the same after the segment and its event"""
        for p, (b, pa, i, s) in self.inf.phis.items():
            if b == self.base:
                pp = tuple((x[1], x[2]) for x in pa)
                if tuple(path[:len(pp)]) == pp:
                    v = s
                    for var, j in path[len(pp):]:
                        v = self.I.pf(v, var, j)
                    return deep(v, lits)
        return self.before(path)

    def seg(self, path):
        """the same after the segment, before its event"""
        return self.after(path, self.none)


# -- R19 ---------------------------------------------------------------------------------------------
SETTINGS = {'SetAttack': 2, 'SetDecay': 3, 'SetSustain': 4, 'SetRelease': 5}


def r19(prog, res, tier):
    N = Node(prog, 'AdsrProcessor', 'AdsrEventType')
    A, I = N.A, N.I
    who = short(N.fn)
    w = N.fn.where
    ty = I.pointee_ty(N.fn.locals[1][0])
    ei = [i for i, f in enumerate(prog.types[ty]['fields'][0]) if tname(prog, f) == 'AdsrEnvelope']
    if len(ei) != 1:
        raise NoAnswer('the envelope of the adsr cannot be resolved')
    env = (0, ei[0])
    M = analyse(prog, fn(prog, 'AdsrEnvelope::new'))
    if M.ret.op != 'adt':
        raise NoAnswer('AdsrEnvelope::new does not build an envelope in the open')
    F = {(0, i): x for i, x in enumerate(M.ret.a[2:])}
    enumty = [i for i, x in F.items() if x.op == 'adt' and prog.types[x.a[0]]['path'].endswith('::Phase')]
    if len(enumty) != 1:
        raise NoAnswer('the phase of an envelope cannot be resolved')
    phase = enumty[0]
    ph = {v['n']: i for i, v in enumerate(prog.adts[prog.types[F[phase].a[0]]['path']]['variants'])}
    need = {'Idle', 'Attack', 'Decay', 'Sustain', 'Release'}
    if not need <= set(ph):
        raise NoAnswer('the phases of an envelope are not the five expected')
    if F[phase].a[1] == ph['Idle']:
        res.ok('phases', short(M.fn), 'an envelope starts idle')
    else:
        res.bad('phases', short(M.fn), 'an envelope does not start idle', M.fn.where)
    # settings
    stored = {k: i for i, x in F.items() for k in range(1, 6) if x is M.arg(k)}
    coefs = {i: {k for k in range(1, 6) if contains(x, lambda t: t is M.arg(k))} for i, x in F.items()
             if i not in stored.values() and any(contains(x, lambda t: t is M.arg(k)) for k in range(2, 6))}
    if len(coefs) < 3 or 1 not in stored:
        raise NoAnswer('the coefficients of an envelope cannot be resolved')
    for ev in [v['n'] for v in N.variants]:
        lits = N.lits(ev)
        for i, x in F.items():
            if i == phase:
                continue
            old, new = N.seg((env, i)), N.after((env, i), lits)
            k = SETTINGS.get(ev)
            if k is not None and stored.get(k) == i:
                if new is N.payload(ev):
                    res.ok('settings', '%s (%s)' % (who, ev), 'the setting becomes the one that was sent')
                else:
                    res.bad('settings', '%s (%s)' % (who, ev), 'the setting does not become the one that was sent', w)
            elif k is not None and i in coefs and k in coefs[i]:
                m = {}
                for j in coefs[i]:
                    if j == k:
                        m[M.arg(j)] = N.payload(ev)
                    elif j in stored:
                        m[M.arg(j)] = N.seg((env, stored[j]))
                    else:
                        m = None
                        break
                want = subst(x, m) if m is not None else None
                if want is not None and (new is want or same_float(new, want)):
                    res.ok('settings', '%s (%s)' % (who, ev), 'field %d is computed from the settings as they now are' % i[1])
                else:
                    res.bad('settings', '%s (%s)' % (who, ev), 'a coefficient is not that of the settings as they now are', w)
            elif new is old:
                res.ok('settings', '%s (%s)' % (who, ev), 'field %d is left alone' % i[1])
            else:
                res.bad('settings', '%s (%s)' % (who, ev), 'changes something else (field %d)' % i[1], w)
        new, old = N.after((env, phase), lits), N.seg((env, phase))
        for p, j in ph.items():
            now = tuple(mk('is', old, x) if x == j else notb(mk('is', old, x)) for x in ph.values())
            v = deep(new, now)
            want = 'Attack' if ev == 'NoteOn' else ('Idle' if p == 'Idle' else 'Release') if ev == 'NoteOff' else p
            got = v.a[1] if v.op == 'adt' else j if v is old else None
            if got == ph[want]:
                res.ok('notes', '%s (%s)' % (who, ev), '%s becomes %s' % (p, want))
            else:
                res.bad('notes', '%s (%s)' % (who, ev), '%s does not become %s' % (p, want), w)
    # frames
    fr = [l for l in I.loops if l != N.L and any(b == N.base and s.op == 'store' and s.a[0] is p and contains(s.a[1], lambda t: t is N.pos)
                                                 for p, (b, pa, i, s) in I.loops[l].phis.items())]
    if len(fr) != 1:
        raise NoAnswer('the loop over the frames of a segment cannot be resolved')
    l = fr[0]
    inf = I.loops[l]
    k = mk('k', l)
    sp = [(p, pa, s) for p, (b, pa, i, s) in inf.phis.items() if b == N.base and s.op == 'store' and s.a[0] is p][0]
    if sp[2].a[1] is add(k, N.pos) and inf.trips is not None and same(I, inf.trips, sub(N.end, N.pos)):
        res.ok('frames', who, 'each frame of a segment gets the next level of the envelope')
    else:
        res.bad('frames', who, 'not every frame of a segment gets the next level of the envelope', w)
    val = strip(sp[2].a[2])
    own = {tuple((x[1], x[2]) for x in pa): (p, s) for p, (b, pa, i, s) in inf.phis.items() if b == N.base}
    lev = [(pa, p) for pa, (p, s) in own.items() if s is val]
    pz = own.get((env, phase))
    if len(lev) != 1 or pz is None:
        res.bad('frames', who, 'the envelope does not go on from the level of the frame before', w)
        return
    res.ok('frames', who, 'the envelope goes on from the level of the frame before')
    level = lev[0][1]
    pnow, pnext = pz

    def part(i):
        return N.before((env, i))
    coef_of = {}
    for ev, name_ in (('SetAttack', 'Attack'), ('SetDecay', 'Decay'), ('SetRelease', 'Release')):
        coef_of[name_] = [part(i) for i, ks in coefs.items() if SETTINGS[ev] in ks]
    sus = leaf_number(M, stored, part)
    one, zero = mk('fl', '1.0'), mk('fl', '0.0')
    for p, j in ph.items():
        lits = tuple(mk('is', pnow, x) if x == j else notb(mk('is', pnow, x)) for x in ph.values())
        v, q = deep(val, lits), deep(pnext, lits)
        c = '%s (%s)' % (who, p)

        def goes(q, want):
            return q.op == 'adt' and q.a[1] == ph[want] or q is pnow and want == p
        if p == 'Idle':
            good = isf(v, 0.0)
            (res.ok if good else res.bad)(*(('levels', c, 'silent') if good else ('levels', c, 'an idle envelope is not silent', w)))
            if not goes(q, 'Idle'):
                res.bad('phases', c, 'leaves the phase by itself', w)
            continue
        if p == 'Sustain':
            if v in sus:
                res.ok('levels', c, 'stays at the sustain level')
            else:
                res.bad('levels', c, 'does not stay at the sustain level', w)
            if not goes(q, 'Sustain'):
                res.bad('phases', c, 'leaves the phase by itself', w)
            continue
        lim = one if p == 'Attack' else zero if p == 'Release' else None
        kind = 'min' if p == 'Attack' else 'max'
        x = None
        lims = [lim] if lim is not None else sus
        for lm in lims:
            y = limited(v, kind, lm)
            if y is not None:
                x, lim = y, lm
        if x is None:
            res.bad('levels', c, 'the level can pass the end of the phase', w)
            continue
        res.ok('levels', c, 'the level never passes the end of the phase')
        # towards a target beyond the end
        t = target_of(x, level, coef_of[p])
        if t is None:
            res.bad('levels', c, 'the level does not approach the end of the phase by its own coefficient', w)
        elif (p == 'Attack' and t > 1.0) or (p != 'Attack' and t < 0.0):
            res.ok('levels', c, 'the level approaches a target beyond the end of the phase')
        else:
            res.bad('levels', c, 'the level never reaches the end of the phase', w)
        nxt = {'Attack': 'Decay', 'Decay': 'Sustain', 'Release': 'Idle'}[p]
        there, not_there = [a + b for a, b in zip(reached(v, lim, kind, True), reached(x, lim, kind, False))]
        a, b = deep(q, there), deep(q, not_there)
        if goes(a, nxt):
            res.ok('phases', c, 'moves on to %s when the level gets to the end' % nxt)
        else:
            res.bad('phases', c, 'does not move on to %s when the level gets to the end' % nxt, w)
        if goes(b, p):
            res.ok('phases', c, 'does not move on before that')
        else:
            res.bad('phases', c, 'moves on before the level gets to the end', w)
    res.need('phases', len(ph), 5)
    res.cov.update(functions=2, roots=[N.fn.npath, M.fn.npath])
    res.notes.append('The segment loop of the adsr was reduced to one frame and one event; each phase and each kind of event is a case of its own.')


def strip(t):
    while t.op == 'f2f':
        t = t.a[0]
    return t


def isf(t, x):
    return t.op == 'fl' and float(t.a[0]) == x


def limited(v, kind, lim):
    if v.op == 'app' and v.a[0] == 'clamp' and len(v.a) == 4 and isf(v.a[2], 0.0) and isf(v.a[3], 1.0):
        v = mk('app', 'max', v.a[1], v.a[2]) if isf(lim, 0.0) else mk('app', 'min', v.a[1], v.a[3])
    if v.op == 'app' and v.a[0] == kind and len(v.a) == 3:
        for i in (1, 2):
            if v.a[i] is lim or v.a[i].op == 'fl' and lim.op == 'fl' and float(v.a[i].a[0]) == float(lim.a[0]):
                return v.a[3 - i]
    if v.op == 'ite':
        for a, b in ((1, 2), (2, 1)):
            l, x = v.a[a], v.a[b]
            if l is lim or l.op == 'fl' and lim.op == 'fl' and float(l.a[0]) == float(lim.a[0]):
                c = v.a[0] if a == 1 else notb(v.a[0])
                lo, hi = (l, x) if kind == 'min' else (x, l)
                if c in (mk('fle', lo, hi), mk('flt', lo, hi), notb(mk('fle', hi, lo)), notb(mk('flt', hi, lo))):
                    return x
    return None


def reached(v, lim, kind, stops):
    """literals for: the level is at the end of its phase / is not (it stops there, or may be past it)"""
    if kind == 'min':
        there = (mk('fle', lim, v), notb(mk('flt', v, lim)))
        past = mk('flt', lim, v)
    else:
        there = (mk('fle', v, lim), notb(mk('flt', lim, v)))
        past = mk('flt', v, lim)
    same_ = mk('feq', *sorted((v, lim), key=lambda t: t.id))
    return there + ((same_,) if stops else ()), tuple(notb(t) for t in there) + (notb(same_), notb(past))


def target_of(x, level, coefs):
    """T where x = T + C*(level - T) for one of the coefficients"""
    for c in coefs:
        p = fpoly(x)
        want = {m for m in p}
        lin = tuple(sorted((level, c), key=id))
        t = p.get((), Fraction(0))
        if p.get(lin) == 1 and abs(p.get((c,), 0) + t) < Fraction(1, 10**6) and want <= {lin, (c,), ()}:
            return float(t)
    return None


def leaf_number(M, stored, part):
    """the terms for the sustain level as a number"""
    s = part(stored[4])
    out = [s]
    for _ in range(2):
        out.append(mk('field', out[-1], 0, 0))
    return out


def same_float(a, b):
    return real_equal(a, b)


RULES = {'R19': r19}
