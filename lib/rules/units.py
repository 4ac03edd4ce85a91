"""R30: times and levels mean the same in every unit they are given or asked for in"""
from .fx import *

STAMP, LEVEL = 'timestamp::Timestamp', 'level::Level'
ROUND = ('fixed_from_num', 'fixed_saturating_from_num')


def plain(t):
    """a time on its grid, as the number it was made from"""
    m = {x: x.a[1] for x in subterms(t) if x.op == 'app' and (x.a[0] in ROUND or x.a[0] in ('fixed_to_num',))}
    while m:
        t2 = subst(t, m)
        if t2 is t:
            break
        t = t2
        m = {x: x.a[1] for x in subterms(t) if x.op == 'app' and (x.a[0] in ROUND or x.a[0] in ('fixed_to_num',))}
    return t


class Units:
    def __init__(self, prog, res, ty, cover):
        self.prog, self.res, self.ty, self.cover = prog, res, ty, cover
        self.fns = {}
        for g in prog.local():
            if not g.blocks or '{closure' in g.npath:
                continue
            if g.npath.endswith(ty + '::' + g.name) and g.trait is None:
                self.fns[g.name] = g
            elif g.trait and (g.selfty or '').endswith(ty):
                self.fns[g.trait.rsplit('::', 1)[-1] + '::' + g.name] = g

    def get(self, name):
        g = self.fns.get(name)
        if g is None:
            raise NoAnswer('no %s::%s' % (self.ty, name))
        self.cover.add(g.key)
        A = analyse(self.prog, g, arrays.effects, 'fx')
        return g, A

    def value(self, A, t):
        """the number a time or level is kept as"""
        I = A.I
        n = 0
        while t is not None and n < 4:
            if t.op == 'fixed':
                return t.a[0]
            if t.op in ('adt',) and len(t.a) > 2:
                t = I.pf(t, 0, 0)
                n += 1
                continue
            break
        return t

    def ret(self, name, *args):
        """what it gives for these arguments; those of the type itself stand for what they are kept as"""
        g, A = self.get(name)
        t = A.ret
        v = self.value(A, t) if self.is_self(g.locals[0][0]) else t
        m = {}
        for i, x in enumerate(args):
            a = A.arg(i + 1)
            ty = g.locals[i + 1][0]
            if self.is_self(ty):
                for w in (a, mk('deref0', a)):
                    m[self.held(w)] = x
            else:
                m[a] = x
        return subst(v, m)

    def held(self, w):
        return mk('field', mk('field', w, 0, 0), 0, 0) if self.ty == STAMP else mk('field', w, 0, 0)

    def is_self(self, ty):
        t = self.prog.types[ty]
        if t['k'] == 'ref':
            t = self.prog.types[t['e']]
        return t['k'] == 'adt' and t['path'].endswith(self.ty)

    def same(self, rule, name, got, want, what):
        g = self.fns[name.split('+')[0]]
        if got is want or real_equal(got, want):
            self.res.ok(rule, short(g), what)
        else:
            self.res.bad(rule, short(g), 'not the case: ' + what, g.where)


def times(prog, res, cover):
    U = Units(prog, res, STAMP, cover)
    x, p, s, o = (mk('sym', n) for n in ('x', 'p', 's', 'o'))
    r = mk('sym', 'r')
    rf = mk('i2f', r)
    T = lambda name, *a: plain(U.ret(name, *a))
    for name, args, want, what in (
            ('from_seconds', (x,), x, 'a time from seconds is that many seconds'),
            ('from_samples', (x, r), mk('fdiv', x, rf), 'a time from samples is as long as they take at the sample rate'),
            ('from_beats', (x, p), mk('fdiv', x, mk('fdiv', p, flt(60))), 'a time from beats is as long as they take at the tempo, in beats a minute'),
            ('from_duration', (x,), mk('app', 'as_secs_f64', x), 'a time from a duration is as long'),
            ('zero', (), ZERO, 'the time zero is zero'),
            ('Default::default', (), FL0, 'a default time is zero'),
            ('as_seconds', (s,), s, 'the seconds of a time are those'),
            ('as_samples', (s, r), M_(s, rf), 'the samples of a time are those at the sample rate'),
            ('as_beats', (s, p), M_(s, mk('fdiv', p, flt(60))), 'the beats of a time are those at the tempo')):
        got = T(name, *args)
        if name == 'zero' and got is FL0:
            got = ZERO
        if name == 'Default::default' and got is ZERO:
            got = FL0
        U.same('units', name, got, want, what)
    precise(U)
    for name, args, by in (('incremented_by_samples', (s, x, r), T('from_samples', mk('i2f', x), r)),
                           ('incremented_by_seconds', (s, x), T('from_seconds', x)),
                           ('incremented_by_beats', (s, x, p), T('from_beats', x, p))):
        U.same('sums', name, fsum(T(name, *args), s), by, 'the time is later by what is asked for')
    U.same('sums', 'Add::add', T('Add::add', s, o), add(s, o), 'the sum of two times is their sum')
    U.same('sums', 'Sub::sub', T('Sub::sub', s, o), sub(s, o), 'the difference of two times is their difference')
    U.same('raw', 'from_raw_i64', U.ret('from_raw_i64', x), x, 'a time handed over between threads is the same after')
    U.same('raw', 'as_raw_i64', U.ret('as_raw_i64', s), s, 'a time handed over between threads is the same before')
    order(U, 'PartialEq::eq', 'Ord::cmp', 'PartialOrd::partial_cmp', s, o, lt, eq)


def fsum(t, s):
    """what is added to s"""
    return sub(t, s)


def casts(x):
    """the types values are made into"""
    if isinstance(x, (list, tuple)):
        if len(x) == 4 and x[0] == 'cast' and isinstance(x[3], int):
            yield x[3]
        for y in x:
            yield from casts(y)
    elif isinstance(x, dict):
        if x.get('k') == 'item':
            yield from (t for t in x.get('args') or () if isinstance(t, int))
        for y in x.values():
            yield from casts(y)


def precise(U):
    """no value on the way is held in fewer digits than a time has"""
    for name, g in sorted(U.fns.items()):
        if g.trait is not None and 'fmt' in name:
            continue
        if any(U.prog.types[t]['s'] == 'f32' for t in casts(g.blocks)):
            U.res.bad('digits', short(g), 'a value on the way is held in single precision, which has fewer digits than a time', g.where)
        else:
            U.res.ok('digits', short(g), 'no value on the way is held in single precision')


def order(U, eq_, cmp_, part, s, o, less, same):
    import itertools
    res = U.res
    cases = {'less': (less(s, o), notb(same(s, o)), notb(less(o, s))), 'equal': (same(s, o), notb(less(s, o)), notb(less(o, s))), 'greater': (less(o, s), notb(same(s, o)), notb(less(s, o)))}
    extra = () if U.ty == STAMP else (notb(mk('app', 'unordered', s, o)), notb(mk('app', 'unordered', o, s)))
    for name in (eq_, cmp_, part):
        if name is None:
            continue
        got = U.ret(name, s, o)
        if U.ty == STAMP:
            got = plain(got)
        ok = True
        for i, (c_, lits) in enumerate(cases.items()):
            v = deep(got, lits + extra)
            if name == eq_:
                ok = ok and v is (TRUE if c_ == 'equal' else FALSE)
                continue
            if name == part and v.op == 'adt' and len(v.a) == 3:
                v = deep(v.a[2], lits + extra)
            ok = ok and v.op == 'adt' and v.a[1] == i
        U.res.ok('order', short(U.fns[name]), 'times and levels compare as what they are') if ok else \
            U.res.bad('order', short(U.fns[name]), 'they do not compare as what they are', U.fns[name].where)


def lengths(prog, res, cover):
    """how long the audio of a buffer lasts"""
    n = 0
    for m in ('length_in_seconds', 'duration'):
        for g in fns(prog, 'AudioBuffer::' + m):
            A = analyse(prog, g)
            t = A.ret
            if m == 'duration':
                if t.op != 'app' or t.a[0] not in ('from_secs_f64', 'from_secs_f32'):
                    raise NoAnswer('the duration of a buffer cannot be resolved')
                t = t.a[1] if t.a[0] == 'from_secs_f64' else BOT
            fc, sr = ({x for h in prog.trait_method('AudioBuffer', k) if h.blocks for x in [analyse(prog, h).ret]} | {mk('app', k, mk('deref0', A.arg(1)))} for k in ('frame_count', 'sample_rate'))
            cover.add(g.key)
            n += 1
            if t.op == 'fdiv' and all(x.op == 'i2f' for x in t.a) and t.a[0].a[0] in fc and t.a[1].a[0] in sr:
                res.ok('units', short(g), 'the audio of a buffer lasts as long as its frames at its sample rate')
            else:
                res.bad('units', short(g), 'the audio of a buffer does not last as long as its frames at its sample rate', g.where)
    res.notes.append('%d forms of the length of a buffer' % n)


def levels(prog, res, cover):
    U = Units(prog, res, LEVEL, cover)
    x, s, lo, hi = (mk('sym', n) for n in ('x', 's', 'lo', 'hi'))
    lin = lambda db: ite(mk('fle', db, flt(-128)), FL0, mk('app', 'powf', flt(10), mk('fdiv', db, flt(20))))
    for name, args, want, what in (
            ('from_linear', (x,), x, 'a level from a gain is that gain'),
            ('from_db', (x,), lin(x), 'a level from decibels is 10 to the power of a twentieth of them, and silence from -128 dB down'),
            ('from_db_f32', (x,), lin(mk('f2f', x)), 'a level from decibels is 10 to the power of a twentieth of them, and silence from -128 dB down'),
            ('as_linear', (s,), s, 'the gain of a level is that'),
            ('as_linear_f32', (s,), mk('f2f', s), 'the gain of a level is that'),
            ('unity', (), flt(1), 'unity is a gain of one'),
            ('zero', (), FL0, 'zero is a gain of zero'),
            ('Default::default', (), FL0, 'a level is zero by default')):
        U.same('units', name, U.ret(name, *args), want, what)
    # decibels: those of the level, where they mean anything
    got = U.ret('as_db', s)
    db = M_(flt(20), mk('app', 'log10', s))
    ok = False
    for t in {t for t in subterms(got) if t.op in ('fle', 'flt')}:
        a, b = t.a
        low, high = ((deep(got, (t,)), deep(got, (notb(t),))) if a is s else (deep(got, (notb(t),)), deep(got, (t,))))
        lim = b if a is s else a
        if lim.op == 'fl' and 0 <= float(lim.a[0]) <= 10 ** -6.4 and low is flt(-128) and real_equal(high, db):
            ok = True
    g = U.fns['as_db']
    if ok:
        res.ok('units', short(g), 'the decibels of a level are 20 times its logarithm, and -128 for silence')
    else:
        res.bad('units', short(g), 'the decibels of a level are not 20 times its logarithm, and -128 for silence', g.where)
    got = U.ret('clamp', s, lo, hi)
    a, b = mk('app', 'max', s, lo), mk('app', 'max', lo, s)
    good = {mk('app', 'clamp', s, lo, hi)} | {mk('app', 'min', *z) for y in (a, b) for z in ((y, hi), (hi, y))}
    g = U.fns['clamp']
    if got in good:
        res.ok('units', short(g), 'a clamped level is between the two, and the level itself if that is')
    else:
        res.bad('units', short(g), 'a clamped level is not between the two, or not the level itself if that is', g.where)
    for name, v in (('is_zero', FL0), ('is_unity', flt(1))):
        got, g = U.ret(name, s), U.fns[name]
        forms = {mk(op, *z) for op in ('feq',) for z in ((s, v), (v, s))} | {mk('app', 'approx', *z) for z in ((s, v), (v, s))}
        if got in forms:
            res.ok('units', short(g), 'holds for that level, and for those that can hardly be told from it')
        else:
            res.bad('units', short(g), 'does not hold for that level exactly', g.where)
    order(U, 'PartialEq::eq', None, 'PartialOrd::partial_cmp', s, lo, lambda a, b: mk('flt', a, b), lambda a, b: mk('feq', a, b))


def r30(prog, res, tier):
    cover = set()
    times(prog, res, cover)
    levels(prog, res, cover)
    lengths(prog, res, cover)
    res.cov['functions'] = len(cover)


RULES = {'R30': r30}
