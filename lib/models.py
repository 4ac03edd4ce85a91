"""What calls mean to the value analysis: the std functions the crate uses, iterators as (sequence, index)
pairs, closures, dynamic dispatch, and everything else as an opaque event."""
import re
from terms import *
from interp import (Frame, Fail, site_intern, UNSIGNED, SIGNED, last, last2, is_signed, State)
from prog import strip_generics

NONE_I, SOME_I = 0, 1


class Call:
    __slots__ = ('I', 'fr', 'st', 'callee', 'args', 'argtys', 'dty', 'site', 'line', 'name', 'tgt', 'base')

    def __init__(self, I, fr, st, callee, args, argtys, dty, site, line):
        self.I = I
        self.fr = fr
        self.st = st
        self.callee = callee
        self.args = list(args)
        self.argtys = list(argtys or [])
        self.dty = dty
        self.site = site
        self.line = line
        self.base = strip_generics(callee.get('path') or '') if callee.get('path') else callee['k']
        t = I.p.fns.get(callee.get('inst')) if callee.get('inst') else None
        self.tgt = t
        self.name = t.npath if t is not None and callee['k'] != 'virtual' else self.base

    @property
    def trait(self):
        t = self.callee.get('trait')
        return t.rsplit('::', 1)[-1] if t else None

    @property
    def meth(self):
        return self.base.rsplit('::', 1)[-1]

    def ks(self):
        return tuple(mk('k', l) for l in self.I.loopstack)

    def ret(self, v):
        return [(self.st, v)]

    def arg_pointee(self, i):
        return self.I.pointee_ty(self.argtys[i]) if i < len(self.argtys) and self.argtys[i] is not None else None


# ------------------------------------------------------------------ helpers
def opt_ty(c):
    return c.dty


def some(c, ty, v):
    return mk('adt', ty, SOME_I, v)


def none(c, ty):
    return mk('adt', ty, NONE_I)


def load(c, ptr, ty=None):
    """value behind a pointer term"""
    ps = c.I.deref(c.I.simp(ptr, c.st.pc), ty)
    r = None
    for g, b, p in reversed(ps):
        v = c.I.read(c.st, b, p)
        r = v if r is None else ite(g, v, r)
    return r if r is not None else BOT


def store_to(c, ptr, v, ty=None, st=None):
    st = st or c.st
    ps = c.I.deref(c.I.simp(ptr, st.pc), ty)
    if len(ps) == 1:
        c.I.write(st, ps[0][1], ps[0][2], v)
    else:
        for g, b, p in ps:
            c.I.write(st, b, p, ite(g, v, c.I.read(st, b, p)))


def adt_of(I, ty):
    if ty is None:
        return None
    t = I.tk(ty)
    return t['path'] if t['k'] == 'adt' else None


def is_slice_ty(I, ty):
    return ty is not None and I.tk(ty)['k'] in ('slice', 'array')


def elem_ref(c, ref, i, ety=None):
    """reference to element i of the sequence a reference denotes"""
    I = c.I
    if ref.op == 'ite':
        return ite(ref.a[0], elem_ref(c, ref.a[1], i, ety), elem_ref(c, ref.a[2], i, ety))
    if ref.op == 'slice':
        return mk('ref', ref.a[0], ref.a[1] + (('i', add(ref.a[2], i)),))
    if ref.op == 'ref':
        return mk('ref', ref.a[0], I.pidx(ref.a[1], i))
    if ref.op == 'box':
        return mk('ref', ref.a[0], (('i', i),))
    if ref is BOT:
        return BOT
    b = ('P', ref)
    return mk('ref', b, (('i', i),))


def seq_len_of_ref(c, ref, ty):
    I = c.I
    if ref.op == 'slice':
        return ref.a[3]
    if ref.op == 'ite':
        return ite(ref.a[0], seq_len_of_ref(c, ref.a[1], ty), seq_len_of_ref(c, ref.a[2], ty))
    if ref.op == 'str':
        return INT(len(ref.a[0].encode()))
    ps = I.deref(ref, ty)
    if not ps:
        return BOT
    t = I.tk(ty) if ty is not None else None
    if t is not None and t['k'] == 'array':
        return INT(t['n'])
    return I.length(I.read(c.st, ps[0][1], ps[0][2]))


def subslice(c, ref, ty, start, end):
    """&seq[start..end]"""
    I = c.I
    if ref.op == 'ite':
        return ite(ref.a[0], subslice(c, ref.a[1], ty, start, end), subslice(c, ref.a[2], ty, start, end))
    n = sub(end, start)
    if ref.op == 'slice':
        return mk('slice', ref.a[0], ref.a[1], add(ref.a[2], start), n)
    if ref.op == 'ref':
        b, p = ref.a
        if p and p[-1][0] == 'sub':
            return mk('slice', b, p[:-1], add(p[-1][1], start), n)
        return mk('slice', b, p, start, n)
    if ref.op == 'box':
        return mk('slice', ref.a[0], (), start, n)
    if ref is BOT:
        return BOT
    b = ('P', ref)
    if ty is not None:
        I.basety.setdefault(b, ty)
    return mk('slice', b, (), start, n)


def whole(c, ref, ty):
    """a reference to a vector or array as a slice over all of it"""
    if ref.op == 'slice':
        return ref
    if ref.op == 'ite':
        return ite(ref.a[0], whole(c, ref.a[1], ty), whole(c, ref.a[2], ty))
    if ref is BOT:
        return BOT
    if ref.op not in ('ref', 'box') and ty is not None and c.I.tk(ty)['k'] == 'slice':
        return ref
    return subslice(c, ref, ty, ZERO, seq_len_of_ref(c, ref, ty))


# ------------------------------------------------------------------ sequences
def is_range(I, v):
    return v.op == 'adt' and I.tk(v.a[0]).get('path', '').endswith('ops::Range')


def as_seq(c, v, ty=None):
    """a value that is (or becomes) an iterator, as seq(desc, idx), or None"""
    I = c.I
    if v.op == 'seq':
        return v
    if v.op == 'ite':
        a, b = as_seq(c, v.a[1], ty), as_seq(c, v.a[2], ty)
        if a is not None and b is not None and a.a[1] is b.a[1]:
            return mk('seq', mk('d_ite', v.a[0], a.a[0], b.a[0]), a.a[1])
        return None
    if v.op == 'adt':
        p = I.tk(v.a[0]).get('path', '')
        if p.endswith('ops::Range') or p.endswith('range::Range'):
            return mk('seq', mk('d_range', v.a[2], v.a[3]), ZERO)
        if p.endswith('RangeFrom'):
            return mk('seq', mk('d_from', v.a[2]), ZERO)
        if p.endswith('::RepeatWith'):
            return mk('seq', mk('d_with', v.a[2]), ZERO)
        if p.endswith('repeat::Repeat'):
            return mk('seq', mk('d_repeat', v.a[2]), ZERO)
    if v.op == 'rincl':
        return mk('seq', mk('d_range', v.a[0], add(v.a[1], ONE)), ZERO)
    if v.op in ('array', 'from_elem', 'gen', 'push', 'store', 'select', 'filtered', 'collect'):
        return mk('seq', mk('d_vals', v), ZERO)
    if ty is not None:
        t = I.tk(ty)
        if t['k'] == 'adt':
            p = t['path']
            if p.endswith('vec::Vec'):
                return mk('seq', mk('d_vals', v), ZERO)
            if p.endswith('ops::Range'):
                return mk('seq', mk('d_range', I.pf(v, 0, 0), I.pf(v, 0, 1)), ZERO)
            if p.endswith('Option'):
                return mk('seq', mk('d_opt', v, ty), ZERO)
        if t['k'] == 'array':
            return mk('seq', mk('d_vals', v), ZERO)
        if t['k'] == 'ref':
            e = I.tk(t['e'])
            if e['k'] in ('slice', 'array') or e['k'] == 'adt' and e['path'].endswith('vec::Vec'):
                return mk('seq', mk('d_slice', whole(c, v, t['e'])), ZERO)
            if e['k'] == 'adt' and e['path'].endswith('HashMap'):
                return mk('seq', mk('d_hash', v, 'kv'), ZERO)
    return None


def dlen(c, d):
    """number of items, None when unknown"""
    o = d.op
    if o == 'd_range':
        return sub(d.a[1], d.a[0])
    if o in ('d_from', 'd_repeat', 'd_with'):
        return None
    if o == 'd_slice':
        return seq_len_of_ref(c, d.a[0], None)
    if o == 'd_vals':
        return c.I.length(d.a[0])
    if o in ('d_enum', 'd_rev', 'd_map', 'd_cloned', 'd_inspect'):
        return dlen(c, d.a[0])
    if o == 'd_zip':
        a, b = dlen(c, d.a[0]), dlen(c, d.a[1])
        if a is None:
            return b
        if b is None:
            return a
        return imin(a, b)
    if o == 'd_take':
        a = dlen(c, d.a[0])
        return d.a[1] if a is None else imin(a, d.a[1])
    if o == 'd_skip':
        return sub(dlen(c, d.a[0]), d.a[1])
    if o == 'd_step':
        a = dlen(c, d.a[0])
        return div(add(a, sub(d.a[1], ONE)), d.a[1])
    if o == 'd_chunks':
        a = seq_len_of_ref(c, d.a[0], None)
        if d.a[2] == 'exact':
            return div(a, d.a[1])
        return div(add(a, sub(d.a[1], ONE)), d.a[1])
    if o == 'd_windows':
        return add(sub(seq_len_of_ref(c, d.a[0], None), d.a[1]), ONE)
    if o == 'd_opt':
        return ite(c.I.is_variant(d.a[0], d.a[1], SOME_I), ONE, ZERO)
    if o == 'd_ite':
        return ite(d.a[0], dlen(c, d.a[1]), dlen(c, d.a[2]))
    if o == 'd_chain':
        return add(dlen(c, d.a[0]), dlen(c, d.a[1]))
    return mk('dlen', d)


def dconds(c, d, i):
    """literals whose conjunction says that item i exists"""
    o = d.op
    if o == 'd_zip':
        return dconds(c, d.a[0], i) + dconds(c, d.a[1], i)
    if o in ('d_enum', 'd_map', 'd_cloned', 'd_rev', 'd_inspect'):
        return dconds(c, d.a[0], i)
    if o in ('d_from', 'd_repeat', 'd_with'):
        return []
    if o == 'd_take':
        return dconds(c, d.a[0], i) + [lt(i, d.a[1])]
    if o == 'd_skip':
        return dconds(c, d.a[0], add(i, d.a[1]))
    n = dlen(c, d)
    return [lt(i, n)]


def ditem(c, st, d, i, depth=0):
    """item i of a sequence: list of (state, value); closures in map() are run"""
    I = c.I
    o = d.op
    if o == 'd_range':
        return [(st, add(d.a[0], i))]
    if o == 'd_from':
        return [(st, add(d.a[0], i))]
    if o == 'd_repeat':
        return [(st, d.a[0])]
    if o == 'd_with':
        return call_fn(c, st, d.a[0], [], 'map%d' % depth)
    if o == 'd_slice':
        return [(st, elem_ref(c, d.a[0], i))]
    if o == 'd_vals':
        return [(st, I.select(d.a[0], i))]
    if o == 'd_rev':
        n = dlen(c, d.a[0])
        return ditem(c, st, d.a[0], sub(sub(n, ONE), i), depth)
    if o == 'd_enum':
        return [(s, mk('tuple', i, v)) for s, v in ditem(c, st, d.a[0], i, depth)]
    if o == 'd_zip':
        r = []
        for s, v in ditem(c, st, d.a[0], i, depth):
            for s2, w in ditem(c, s, d.a[1], i, depth):
                r.append((s2, mk('tuple', v, w)))
        return r
    if o == 'd_map':
        r = []
        for s, v in ditem(c, st, d.a[0], i, depth):
            r += call_fn(c, s, d.a[1], [v], 'map%d' % depth)
        return r
    if o == 'd_cloned':
        r = []
        for s, v in ditem(c, st, d.a[0], i, depth):
            r.append((s, load2(c, s, v)))
        return r
    if o == 'd_take' or o == 'd_inspect':
        return ditem(c, st, d.a[0], i, depth)
    if o == 'd_skip':
        return ditem(c, st, d.a[0], add(i, d.a[1]), depth)
    if o == 'd_step':
        return ditem(c, st, d.a[0], mul(i, d.a[1]), depth)
    if o == 'd_chunks':
        n = seq_len_of_ref(c, d.a[0], None)
        s0 = mul(i, d.a[1])
        e = add(s0, d.a[1])
        if d.a[2] != 'exact':
            e = imin(e, n)
        return [(st, subslice(c, d.a[0], None, s0, e))]
    if o == 'd_windows':
        return [(st, subslice(c, d.a[0], None, i, add(i, d.a[1])))]
    if o == 'd_hash':
        m, kind = d.a
        b, p = place_of(c, m)
        key = mk('ref', ('C', mk('hkey', m, i)), ())
        val = mk('ref', b, p + (('e', i),)) if b is not None else mk('hval', m, i)
        if kind == 'k':
            return [(st, key)]
        if kind == 'v':
            return [(st, val)]
        return [(st, mk('tuple', key, val))]
    if o == 'd_opt':
        return [(st, I.pf(d.a[0], 1, 0))]
    if o == 'd_ite':
        a = ditem(c, st.copy(), d.a[1], i, depth)
        b = ditem(c, st.copy(), d.a[2], i, depth)
        if len(a) == len(b) == 1:
            return [(st, ite(d.a[0], a[0][1], b[0][1]))]
    return [(st, mk('item', d, i))]


def place_of(c, ref):
    if ref.op == 'ref':
        return ref.a[0], ref.a[1]
    if ref.op == 'box':
        return ref.a[0], ()
    if ref.op in ('ite', 'slice') or ref is BOT:
        return None, None
    return ('P', ref), ()


def load2(c, st, ptr, ty=None):
    ps = c.I.deref(c.I.simp(ptr, st.pc), ty)
    r = None
    for g, b, p in reversed(ps):
        v = c.I.read(st, b, p)
        r = v if r is None else ite(g, v, r)
    return r if r is not None else BOT


# ------------------------------------------------------------------ closures
def closure_fn(I, f):
    t = I.tk(f.a[0])
    return I.p.fns.get(t.get('inst'))


def call_fn(c, st, f, args, tag):
    """call a closure or function item on argument terms"""
    I = c.I
    f = I.simp(f, st.pc)
    if f.op == 'ite':
        a, b = st.copy(), st
        r = []
        if I.assume(a, f.a[0]):
            r += call_fn(c, a, f.a[1], args, tag + 't')
        if I.assume(b, notb(f.a[0])):
            r += call_fn(c, b, f.a[2], args, tag + 'e')
        return r
    if f.op in ('ref', 'box'):
        g = load2(c, st, f)
        if g.op in ('closure', 'fndef', 'ref', 'box', 'zst'):
            if g.op == 'closure':
                fn = closure_fn(I, g)
                if fn is not None and fn.blocks:
                    return run_closure(c, st, fn, g, f, args, tag)
            return call_fn(c, st, g, args, tag)
    if f.op == 'closure':
        fn = closure_fn(I, f)
        if fn is None or not fn.blocks:
            raise Fail('closure without body')
        base = ('A', ('clo', c.site, tag, tuple(I.loopstack)))
        I.basety[base] = f.a[0]
        st.mem[base] = f
        return run_closure(c, st, fn, f, mk('ref', base, ()), args, tag)
    if f.op == 'fndef' or f.op == 'zst':
        t = I.tk(f.a[0])
        fn = I.p.fns.get(t.get('inst'))
        callee = dict(k='item', path=t.get('path', ''), trait=t.get('trait'), inst=t.get('inst'), args=t.get('args', []))
        fr = c.fr
        # constructors of enum variants and tuple structs
        argtys = []
        if fn is not None and fn.blocks and fn.argc:
            argtys = [l[0] for l in fn.locals[1:fn.argc + 1]]
        c2 = Call(I, fr, st, callee, args, argtys, fn.locals[0][0] if fn is not None and fn.locals else None,
                  site_intern((c.site, tag)), c.line)
        return dispatch(c2)
    # an unknown function value
    return opaque(Call(I, c.fr, st, dict(k='ptr', path='<indirect>'), [f] + list(args), [None] * (len(args) + 1), None,
                       site_intern((c.site, tag)), c.line))


def run_closure(c, st, fn, cl, ref, args, tag):
    I = c.I
    selfty = fn.locals[1][0]
    byref = I.tk(selfty)['k'] in ('ref', 'ptr')
    a0 = ref if byref else cl
    a = list(args)
    if fn.argc == 2 and len(a) != 1:
        a = [mk('tuple', *a)]
    elif fn.argc - 1 != len(a) and len(a) == 1 and a[0].op == 'tuple':
        a = list(a[0].a)
    return inline(c, st, fn, [a0] + a, ('clo', c.site, tag))


def inline(c, st, fn, args, site=None):
    I = c.I
    if I.depth > I.maxdepth:
        raise Fail('inlining too deep at %s' % fn.npath)
    key = (fn.key,)
    n = sum(1 for x in I.callstack if x == fn.key)
    if n >= 2:
        # recursion: opaque
        return opaque(c)
    I.callstack.append(fn.key)
    I.depth += 1
    try:
        s, v = I.run_fn(fn, args, st, site_intern((site or c.site, fn.key)), c.fr.depth + 1, c.fr.stack + (fn.npath,))
    finally:
        I.depth -= 1
        I.callstack.pop()
    if s is None:
        return []
    return [(s, v)]


# ------------------------------------------------------------------ opaque calls
def opaque(c, name=None, havoc=True, kind='call'):
    """an event whose effects are not known: what it may write through is forgotten"""
    I = c.I
    st = c.st
    nm = name or (c.name if c.callee['k'] not in ('virtual', 'unresolved') else c.base)
    rid = mk('ret', c.site, *c.ks())
    vals = []
    for i, a in enumerate(c.args):
        vals.append(a)
    e = I.event(kind, nm, c.fr, st, c.line, c.args, ret=rid, inst=c.callee.get('inst'), argtys=c.argtys,
                targs=c.callee.get('args'), trait=c.trait)
    e.name = nm
    if havoc:
        for i, a in enumerate(c.args):
            ty = c.argtys[i] if i < len(c.argtys) else None
            if ty is None:
                continue
            havoc_arg(c, a, ty, (i,))
    if c.dty is not None:
        note_sign(I, rid, c.dty)
        t = I.tk(c.dty)
        if t['s'] == '()':
            return [(st, UNIT)]
        if t['s'] == '!':
            return []
        if t['k'] == 'tuple':
            return [(st, mk('tuple', *[note_sign(I, mk('field', rid, 0, j), ty) for j, ty in enumerate(t['es'])]))]
    return [(st, rid)]


def note_sign(I, v, ty):
    if ty is not None and v not in SIGNED and v not in UNSIGNED:
        if I.tk(ty)['k'] == 'int':
            SIGNED.add(v)
        else:
            UNSIGNED.add(v)
    return v


def havoc_arg(c, a, ty, tag, d=0):
    I = c.I
    t = I.tk(ty)
    if d > 3:
        return
    if t['k'] in ('ref', 'ptr') and t.get('mut'):
        for g, b, p in I.deref(I.simp(a, c.st.pc), t['e']):
            old = I.read(c.st, b, p)
            keep = 'keeplen' if I.tk(t['e'])['k'] in ('slice', 'array') else ''
            new = mk('mut', old, mk('ev', c.site, tag, *c.ks()), keep)
            if p and p[-1][0] == 'sub':
                I.write(c.st, b, p, new if g is TRUE else ite(g, new, old))
            else:
                I.write(c.st, b, p, new if g is TRUE else ite(g, new, old))
            # what it points to in turn
            et = I.tk(t['e'])
            if et['k'] == 'adt' and old.op == 'adt':
                for j, fty in enumerate(et.get('fields', [[]])[0] if len(et.get('fields', [])) == 1 else []):
                    if 2 + j < len(old.a) and isinstance(old.a[2 + j], T):
                        havoc_arg(c, old.a[2 + j], fty, tag + (j,), d + 1)
    elif t['k'] == 'adt' and a.op == 'adt' and len(t.get('fields', [])) == 1:
        for j, fty in enumerate(t['fields'][0]):
            if 2 + j < len(a.a):
                havoc_arg(c, a.a[2 + j], fty, tag + (j,), d + 1)
    elif t['k'] in ('tuple',) and a.op == 'tuple':
        for j, fty in enumerate(t['es']):
            havoc_arg(c, a.a[j], fty, tag + (j,), d + 1)
    elif t['k'] == 'closure' and a.op == 'closure':
        for j, fty in enumerate(I.tk(t['up'])['es']):
            havoc_arg(c, a.a[1 + j], fty, tag + (j,), d + 1)


def app(c, nm, *args):
    v = mk('app', nm, *args)
    return c.ret(note_sign(c.I, v, c.dty) if c.dty is not None else v)


# ------------------------------------------------------------------ loops over sequences
def run_seq(c, seq, bodyf, exits=('end',), init=None, label='seq'):
    """evaluate  for item in seq { bodyf }.  bodyf(state, item, idx) -> list of ('next'|exitname, state, value).
    returns [(exitname, state, value)]"""
    I = c.I
    desc, i0 = seq.a
    base = ('A', ('it', c.site, label, tuple(I.loopstack)))
    vb = ('A', ('itv', c.site, label, tuple(I.loopstack)))
    I.basety[base] = None
    I.basety[vb] = None
    st0 = c.st
    st0.mem[base] = i0

    def bodyfn(st):
        outs = {}
        backs = []
        i = I.val(st, base)
        conds = dconds(c, desc, i)
        cnd = andb(*conds)
        se = st.copy()
        if I.assume(se, notb(cnd)):
            outs.setdefault('end', []).append(se)
        si = st.copy()
        ok = all(I.assume(si, x) for x in conds)
        if ok:
            for s, item in ditem(c, si, desc, i):
                for kind, s2, v in bodyf(s, item, i):
                    if s2 is None:
                        continue
                    if kind == 'next':
                        s2.mem[base] = add(i, ONE)
                        backs.append(s2)
                    else:
                        s2.mem[vb] = v if v is not None else UNIT
                        outs.setdefault(kind, []).append(s2)
        return outs, backs, []

    outs, _ = I.generic_loop(('seq', c.site, label), st0, bodyfn, c.fr.fn, c.line)
    res = []
    for k, ss in outs.items():
        s = I.merge(ss)
        v = s.mem.pop(vb, UNIT)
        s.mem.pop(base, None)
        res.append((k, s, v))
    return res


def seq_arg(c, i=0):
    v = c.args[i]
    ty = c.argtys[i] if i < len(c.argtys) else None
    if ty is not None and c.I.tk(ty)['k'] == 'ref':
        inner = load(c, v, c.I.tk(ty)['e'])
        s = as_seq(c, inner, c.I.tk(ty)['e'])
        if s is not None and inner.op in ('seq',) or is_range(c.I, inner):
            return s, v
    return as_seq(c, v, ty), None


ITER_TRAITS = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator', 'FusedIterator')


def received(c, st, rx):
    """one attempt to receive from a channel"""
    I = c.I
    r = mk('ret', c.site, *c.ks())
    I.event('chan', 'channel::try_recv', c.fr, st, c.line, [rx], ret=r, argtys=[None]).name = 'channel::try_recv'
    return r


def receive_all(c, st, rx, bodyf):
    """all that waits in a channel, one after the other: bodyf(state, item) -> [state]"""
    def bodyfn(s):
        outs, backs = {}, []
        r = received(c, s, rx)
        s0 = s.copy()
        if c.I.assume(s0, mk('is', r, 1)):
            outs['end'] = [s0]
        if c.I.assume(s, notb(mk('is', r, 1))):
            backs += bodyf(s, mk('field', r, 0, 0))
        return outs, backs, []
    outs, _ = c.I.generic_loop(('recv', c.site), st, bodyfn, c.fr.fn, c.line)
    return c.I.merge(outs['end']) if outs.get('end') else None


def iterator(c):
    """methods of iterators; None when the receiver is not a known sequence"""
    I = c.I
    m = c.meth
    st = c.st
    if c.args and m in ('into_iter', 'next', 'for_each', 'by_ref', 'try_for_each'):
        v = c.args[0]
        if m == 'next' and v.op == 'ref':
            v = I.simp(load(c, v, c.arg_pointee(0)), st.pc)
        if v.op == 'rxiter' and m in ('into_iter', 'by_ref'):
            return c.ret(c.args[0])
        if v.op == 'rxiter' and m == 'next':
            r = received(c, st, v.a[0])
            return c.ret(ite(mk('is', r, 1), none(c, c.dty), some(c, c.dty, mk('field', r, 0, 0))))
        if v.op == 'rxiter' and m == 'for_each':
            f = c.args[1]
            s1 = receive_all(c, st, v.a[0], lambda s, it: [s2 for s2, _ in call_fn(c, s, f, [it], 'fe')])
            return [(s1, UNIT)] if s1 is not None else []
    if m == 'into_iter' or m == 'iter' or m == 'by_ref' and False:
        v = c.args[0]
        if is_range(I, v) or v.op == 'seq':
            return c.ret(v)
        s = as_seq(c, v, c.argtys[0] if c.argtys else None)
        if s is not None:
            return c.ret(s)
        if c.tgt is not None and c.tgt.krate == 'core' and '<I as' in c.name:
            return c.ret(v)
        return None
    if m == 'next':
        p = c.args[0]
        ety = c.arg_pointee(0)
        v = load(c, p, ety)
        v = I.simp(v, st.pc)
        if v.op == 'ref':
            # &mut I
            p = v
            v = load(c, p)
        if is_range(I, v):
            cnd = lt(v.a[2], v.a[3])
            item = v.a[2]
            store_to(c, p, mk('adt', v.a[0], 0, add(v.a[2], ONE), v.a[3]), ety)
            return [(st, ite(cnd, some(c, c.dty, item), none(c, c.dty)))]
        s = as_seq(c, v, ety) if v.op in ('seq', 'adt', 'rincl') else None
        if s is None:
            return None
        desc, i = s.a
        if desc.op == 'd_filter':
            # the next item that satisfies the predicate
            rid = mk('app', 'nextmatch', desc, i)
            UNSIGNED.add(rid)
            store_to(c, p, mk('seq', desc, add(rid, ONE)), ety)
            ex = mk('app', 'hasmatch', desc, i)
            s1 = st.copy()
            r = []
            if I.assume(s1, ex):
                for s2, it in ditem(c, s1, desc.a[0], rid):
                    for s3, g in call_fn(c, s2, desc.a[1], [mk('ref', ('C', it), ())], 'flt'):
                        I.assume(s3, g)
                        r.append((s3, some(c, c.dty, it)))
            s0 = st
            if I.assume(s0, notb(ex)):
                r.append((s0, none(c, c.dty)))
            return r
        conds = dconds(c, desc, i)
        store_to(c, p, mk('seq', desc, add(i, ONE)), ety)
        cnd = andb(*conds)
        s1 = st.copy()
        r = []
        if all(I.assume(s1, x) for x in conds):
            for s2, it in ditem(c, s1, desc, i):
                r.append((s2, some(c, c.dty, it)))
        if I.assume(st, notb(cnd)):
            r.append((st, none(c, c.dty)))
        return r
    s, byref = seq_arg(c)
    if s is None:
        return None
    desc, i0 = s.a

    def wrap(d):
        return c.ret(mk('seq', d, i0 if d.op not in ('d_rev', 'd_step', 'd_skip', 'd_chunks') else ZERO))

    def based():
        return desc if i0 is ZERO else mk('d_skip', desc, i0)
    if m == 'map':
        return c.ret(mk('seq', mk('d_map', desc, c.args[1]), i0))
    if m == 'enumerate':
        return c.ret(mk('seq', mk('d_enum', based()), ZERO))
    if m == 'zip':
        s2, _ = seq_arg(c, 1)
        if s2 is None:
            return None
        b2 = s2.a[0] if s2.a[1] is ZERO else mk('d_skip', s2.a[0], s2.a[1])
        return c.ret(mk('seq', mk('d_zip', based(), b2), ZERO))
    if m == 'rev':
        return c.ret(mk('seq', mk('d_rev', based()), ZERO))
    if m == 'take':
        return c.ret(mk('seq', mk('d_take', based(), c.args[1]), ZERO))
    if m == 'skip':
        return c.ret(mk('seq', mk('d_skip', desc, add(i0, c.args[1])), ZERO))
    if m == 'step_by':
        return c.ret(mk('seq', mk('d_step', based(), c.args[1]), ZERO))
    if m in ('cloned', 'copied'):
        return c.ret(mk('seq', mk('d_cloned', based()), ZERO))
    if m in ('filter',):
        return c.ret(mk('seq', mk('d_filter', based(), c.args[1]), ZERO))
    if m == 'chain':
        s2, _ = seq_arg(c, 1)
        if s2 is None:
            return None
        return c.ret(mk('seq', mk('d_chain', based(), s2.a[0]), ZERO))
    if m in ('fuse', 'by_ref', 'peekable'):
        return c.ret(c.args[0])
    if m == 'inspect':
        return None
    if m in ('len', 'count') and desc.op not in ('d_filter', 'd_hash'):
        n = dlen(c, desc)
        if n is not None:
            return c.ret(sub(n, i0))
    if m == 'for_each':
        f = c.args[1]
        base = ('A', ('clo', c.site, 'fe', tuple(I.loopstack)))
        fref = f
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            st.mem[base] = f
            fref = mk('ref', base, ())
        if desc.op == 'd_filter':
            return filtered_for_each(c, s, fref)
        out = run_seq(c, s, lambda s1, it, i: [('next', s2, None) for s2, v in call_fn(c, s1, fref, [it], 'fe')])
        return [(s1, UNIT) for k, s1, v in out]
    if m in ('sum', 'product') and c.dty is not None and I.tk(c.dty)['k'] in ('float', 'int', 'uint'):
        acc = ('A', ('acc', c.site, tuple(I.loopstack)))
        I.basety[acc] = c.dty
        fl = I.isfloat(c.dty)
        st.mem[acc] = mk('fl', repr(float(m == 'product'))) if fl else (ONE if m == 'product' else ZERO)

        def more(s1, it, i):
            x = load2(c, s1, it, c.dty) if it.op in ('ref', 'pi') else it
            s1.mem[acc] = I.binop('Add' if m == 'sum' else 'Mul', I.val(s1, acc), x, c.dty)
            return [('next', s1, None)]
        out = run_seq(c, s, more)
        return [(s1, s1.mem.pop(acc)) for k, s1, v in out]
    if m == 'fold':
        acc = ('A', ('acc', c.site, tuple(I.loopstack)))
        I.basety[acc] = c.dty
        st.mem[acc] = c.args[1]
        f = c.args[2]
        base = ('A', ('clo', c.site, 'fo', tuple(I.loopstack)))
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            st.mem[base] = f
            f = mk('ref', base, ())

        def body(s1, it, i):
            r = []
            for s2, v in call_fn(c, s1, f, [I.val(s1, acc), it], 'fo'):
                s2.mem[acc] = v
                r.append(('next', s2, None))
            return r
        out = run_seq(c, s, body)
        return [(s1, s1.mem.pop(acc)) for k, s1, v in out]
    if m in ('any', 'all', 'position', 'find', 'find_map'):
        f = c.args[1]
        base = ('A', ('clo', c.site, 'an', tuple(I.loopstack)))
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            st.mem[base] = f
            f = mk('ref', base, ())

        def body(s1, it, i):
            r = []
            a = mk('ref', ('C', it), ()) if m == 'find' else it
            for s2, g in call_fn(c, s1, f, [a], 'an'):
                if m == 'find_map':
                    g0 = I.is_variant(g, c.dty, SOME_I)
                    stop = s2.copy()
                    if I.assume(stop, g0):
                        r.append(('hit', stop, I.simp(g, stop.pc)))
                    if I.assume(s2, notb(g0)):
                        r.append(('next', s2, None))
                    continue
                hit = g if m != 'all' else notb(g)
                stop = s2.copy()
                if I.assume(stop, hit):
                    r.append(('hit', stop, it if m == 'find' else i))
                if I.assume(s2, notb(hit)):
                    r.append(('next', s2, None))
            return r
        out = run_seq(c, s, body)
        r = []
        for k, s1, v in out:
            if m in ('any', 'all'):
                r.append((s1, BOOL((k == 'hit') == (m == 'any'))))
            elif k == 'hit':
                r.append((s1, v if m == 'find_map' else some(c, c.dty, v)))
            else:
                r.append((s1, none(c, c.dty)))
        return r
    if m in ('max_by_key', 'min_by_key') and i0 is ZERO:
        return arg_best(c, st, desc, m)
    if m in ('collect', 'extend'):
        return collect(c, s)
    if m in ('sum', 'product', 'max', 'min', 'last', 'count', 'nth', 'max_by', 'min_by', 'reduce', 'partition', 'unzip'):
        if m == 'nth':
            conds = dconds(c, desc, add(i0, c.args[1]))
            s1 = st.copy()
            r = []
            if all(I.assume(s1, x) for x in conds):
                for s2, it in ditem(c, s1, desc, add(i0, c.args[1])):
                    r.append((s2, some(c, c.dty, it)))
            if I.assume(st, notb(andb(*conds))):
                r.append((st, none(c, c.dty)))
            return r
        return app(c, 'iter_' + m, s, *c.args[1:])
    return None


def arg_best(c, st, desc, m):
    """the item with the largest or smallest key: the key is a term over a free index"""
    I = c.I
    f = c.args[1]
    base = ('A', ('clo', c.site, 'ab', tuple(I.loopstack)))
    kb = ('A', ('key', c.site, tuple(I.loopstack)))
    j = mk('sym', 'any', c.site)
    s0 = st.copy()
    if f.op == 'closure':
        I.basety[base] = f.a[0]
        s0.mem[base] = f
        f = mk('ref', base, ())
    I.basety[kb] = None
    ends = []
    if all(I.assume(s0, x) for x in dconds(c, desc, j)):
        for s1, it in ditem(c, s0, desc, j):
            for s2, v in call_fn(c, s1, f, [mk('ref', ('C', it), ())], 'ab'):
                s2.mem[kb] = v
                ends.append(s2)
    if not ends:
        return None
    key = I.merge(ends).mem[kb]
    best = mk('best', m[:3], key, j)
    r = []
    conds = dconds(c, desc, best)
    s1 = st.copy()
    if all(I.assume(s1, x) for x in conds):
        for s2, it in ditem(c, s1, desc, best):
            r.append((s2, some(c, c.dty, it)))
    if I.assume(st, notb(andb(*dconds(c, desc, ZERO)))):
        r.append((st, none(c, c.dty)))
    return r


def filtered_for_each(c, s, f):
    I = c.I
    d = s.a[0]

    def body(s1, it, i):
        r = []
        for s2, g in call_fn(c, s1, d.a[1], [mk('ref', ('C', it), ())], 'ff'):
            no = s2.copy()
            if I.assume(no, notb(g)):
                r.append(('next', no, None))
            if I.assume(s2, g):
                for s3, v in call_fn(c, s2, f, [it], 'fe'):
                    r.append(('next', s3, None))
        return r
    out = run_seq(c, mk('seq', d.a[0], s.a[1]), body)
    return [(s1, UNIT) for k, s1, v in out]


def collect(c, s):
    I = c.I
    desc, i0 = s.a
    if desc.op == 'd_vals' and i0 is ZERO:
        return c.ret(desc.a[0])
    if desc.op == 'd_filter':
        f = desc.a[1]
        kept = {}
        base = ('A', ('clo', c.site, 'fi', tuple(I.loopstack)))
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            c.st.mem[base] = f
            f = mk('ref', base, ())

        def pred(s1, it, i):
            r = []
            got = call_fn(c, s1, f, [mk('ref', ('C', it), ())], 'fi')
            for s2, g in got:
                kept['keep'] = g if len(got) == 1 else BOT
                kept['i'] = i
                r.append(('next', s2, None))
            return r
        out = run_seq(c, mk('seq', desc.a[0], i0), pred, label='filter')
        v = mk('filtered', s)
        if desc.a[0].op == 'd_vals' and i0 is ZERO and kept.get('keep', BOT) is not BOT:
            v = mk('filtered', desc.a[0].a[0], kept['i'], kept['keep'])
        return [(s1, v) for k, s1, _ in out]
    got = {}

    def body(s1, it, i):
        got['item'] = it
        got['i'] = i
        return [('next', s1, None)]
    out = run_seq(c, s, body, label='collect')
    n = dlen(c, desc)
    if n is None or 'item' not in got or i0 is not ZERO:
        v = mk('collected', s)
    else:
        i = got['i']
        if i.op in ('k',):
            v = mk('gen', n, i, got['item'])
        else:
            v = mk('collected', s)
    # a map collected from pairs
    if c.dty is not None and adt_of(I, c.dty) and 'HashMap' in adt_of(I, c.dty):
        v = mk('mapof', v)
    return [(s1, v) for k, s1, _ in out]


# ------------------------------------------------------------------ the table
def fl1(nm):
    def f(c):
        a = c.args[0]
        if a.op == 'fl':
            import math
            x = float(a.a[0])
            try:
                if nm == 'floor':
                    return c.ret(mk('fl', repr(float(math.floor(x)))))
                if nm == 'ceil':
                    return c.ret(mk('fl', repr(float(math.ceil(x)))))
                if nm == 'abs':
                    return c.ret(mk('fl', repr(abs(x))))
            except (ValueError, OverflowError):
                pass
        if nm == 'sin_cos':
            return c.ret(mk('tuple', mk('app', 'sin', a), mk('app', 'cos', a)))
        return app(c, nm, *c.args)
    return f


FLOATFN = {'abs', 'max', 'min', 'clamp', 'floor', 'ceil', 'round', 'trunc', 'fract', 'sin', 'cos', 'tan', 'tanh', 'exp', 'exp2', 'ln', 'log10',
           'log2', 'log', 'powf', 'powi', 'sqrt', 'mul_add', 'signum', 'copysign', 'is_nan', 'is_finite', 'is_infinite', 'to_bits',
           'from_bits', 'recip', 'cbrt', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'atan2', 'hypot', 'rem_euclid', 'to_radians',
           'to_degrees', 'is_sign_negative', 'is_sign_positive', 'total_cmp', 'is_normal', 'exp_m1', 'ln_1p', 'sin_cos', 'next_up', 'next_down'}


def index_range(c, ref, sty, idx):
    """(start, end, problem) for an index operand value of a range type"""
    I = c.I
    n = seq_len_of_ref(c, ref, sty)
    if idx.op == 'adt':
        p = I.tk(idx.a[0])['path'].rsplit('::', 1)[-1]
        if p == 'Range':
            return idx.a[2], idx.a[3], n
        if p == 'RangeTo':
            return ZERO, idx.a[2], n
        if p == 'RangeFrom':
            return idx.a[2], n, n
        if p == 'RangeFull':
            return ZERO, n, n
        if p == 'RangeToInclusive':
            return ZERO, add(idx.a[2], ONE), n
    if idx.op == 'rincl':
        return idx.a[0], add(idx.a[1], ONE), n
    if idx.op == 'zst':
        return ZERO, n, n
    return None, None, n


def do_index(c, mut):
    I = c.I
    ref, idx = c.args[0], c.args[1]
    sty = c.arg_pointee(0)
    it = c.argtys[1]
    path = adt_of(I, sty) or ''
    if path.endswith('HashMap'):
        b, p = place_of(c, ref)
        return c.ret(mk('ref', b, p + (('k', keyval(c, idx)),)))
    if path.endswith('VecDeque'):
        pass
    if it is not None and I.tk(it)['k'] == 'uint':
        n = seq_len_of_ref(c, ref, sty)
        ok = lt(idx, n)
        I.event('assert', 'bounds', c.fr, c.st, c.line, [ok, n, idx])
        if not I.assume(c.st, ok, False):
            return []
        return c.ret(elem_ref(c, ref, idx))
    idx = I.simp(idx, c.st.pc)
    if idx.op == 'field' or idx.op in ('ret', 'sym', 'phi', 'deref0') and it is not None:
        t = I.tk(it)
        if t['k'] == 'adt' and t['path'].endswith('ops::Range'):
            idx = mk('adt', it, 0, I.pf(idx, 0, 0), I.pf(idx, 0, 1))
    a, b, n = index_range(c, ref, sty, idx)
    if a is None:
        return None
    c1, c2 = le(a, b), le(b, n)
    ok = andb(c1, c2)
    I.event('assert', 'slice', c.fr, c.st, c.line, [ok, n, a, b])
    if not I.assume(c.st, c1, False) or not I.assume(c.st, c2, False):
        return []
    return c.ret(subslice(c, ref, sty, a, b))


def keyval(c, k, ty=None):
    """the value of a key given by reference"""
    if k.op in ('ref', 'box'):
        v = load(c, k)
        return v
    if k.op == 'str':
        return k
    return load(c, k, ty)


def hash_call(c):
    I = c.I
    m = c.meth
    st = c.st
    ref = c.args[0] if c.args else None
    if m in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
        return c.ret(mk('empty', 'map'))
    b, p = place_of(c, ref)
    if b is None:
        return None
    mv = I.read(st, b, p)
    if m in ('get', 'get_mut', 'contains_key', 'remove', 'remove_entry', 'get_key_value'):
        kt = c.arg_pointee(1)
        k = keyval(c, c.args[1], kt)
        has = map_has(mv, k)
        if m == 'contains_key':
            return c.ret(has)
        if m in ('get', 'get_mut'):
            return c.ret(ite(has, some(c, c.dty, mk('ref', b, p + (('k', k),))), none(c, c.dty)))
        old = I.mapget(mv, k)
        I.write(st, b, p, mk('mapdel', mv, k))
        I.event('mapdel', m, c.fr, st, c.line, [ref, k, old], argtys=c.argtys)
        if m == 'remove':
            return c.ret(ite(has, some(c, c.dty, old), none(c, c.dty)))
        return c.ret(ite(has, some(c, c.dty, mk('tuple', k, old)), none(c, c.dty)))
    if m == 'insert':
        k = c.args[1]
        has = map_has(mv, k)
        old = I.mapget(mv, k)
        I.write(st, b, p, mk('mapset', mv, k, c.args[2]))
        I.event('mapset', m, c.fr, st, c.line, [ref, k, c.args[2]], argtys=c.argtys)
        return c.ret(ite(has, some(c, c.dty, old), none(c, c.dty)))
    if m == 'clear':
        I.write(st, b, p, mk('empty', 'map'))
        I.event('mapclear', m, c.fr, st, c.line, [ref], argtys=c.argtys)
        return c.ret(UNIT)
    if m == 'len':
        return c.ret(I.length(mv))
    if m == 'is_empty':
        return c.ret(eq(I.length(mv), ZERO))
    if m in ('iter', 'iter_mut'):
        return c.ret(mk('seq', mk('d_hash', ref, 'kv'), ZERO))
    if m == 'keys':
        return c.ret(mk('seq', mk('d_hash', ref, 'k'), ZERO))
    if m in ('values', 'values_mut'):
        return c.ret(mk('seq', mk('d_hash', ref, 'v'), ZERO))
    return None


def map_has(mv, k):
    if mv.op == 'mapset':
        if mv.a[1] is k:
            return TRUE
        if distinct(mv.a[1], k):
            return map_has(mv.a[0], k)
    if mv.op == 'mapdel':
        if mv.a[1] is k:
            return FALSE
        if distinct(mv.a[1], k):
            return map_has(mv.a[0], k)
    if mv.op == 'empty':
        return FALSE
    if mv.op == 'ite':
        return ite(mv.a[0], map_has(mv.a[1], k), map_has(mv.a[2], k))
    return mk('has', mv, k)


def distinct(a, b):
    """two key terms that cannot be equal"""
    if a is b:
        return False
    if a.op == b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return True
        return any(distinct(x, y) for x, y in zip(a.a[2:], b.a[2:]))
    if a.op == b.op == 'tuple':
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    if a.op == b.op and a.op in ('int', 'str', 'fl'):
        return True
    d = sub(a, b) if a.op in ('poly', 'int') or b.op in ('poly', 'int') else None
    return d is not None and d.op == 'int' and d.a[0] != 0


def vec_call(c):
    I = c.I
    m = c.meth
    st = c.st
    if m in ('new', 'with_capacity'):
        return c.ret(mk('empty', 'vec'))
    if m == 'from_elem':
        return c.ret(mk('from_elem', c.args[0], c.args[1]))
    if not c.args:
        return None
    ref = c.args[0]
    sty = c.arg_pointee(0)
    b, p = place_of(c, ref)
    if m in ('len', 'is_empty'):
        n = seq_len_of_ref(c, ref, sty)
        return c.ret(n if m == 'len' else eq(n, ZERO))
    if m in ('as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut'):
        return c.ret(whole(c, ref, sty))
    if b is None:
        return None
    v = I.read(st, b, p)
    n = I.length(v)

    def ev(*xs):
        I.event('vec', m, c.fr, st, c.line, [ref] + list(c.args[1:]) + list(xs), argtys=c.argtys)
    if m == 'push':
        ev(v)
        I.write(st, b, p, mk('push', v, c.args[1]))
        return c.ret(UNIT)
    if m == 'pop':
        ev(v)
        has = lt(ZERO, n)
        if v.op == 'push':
            I.write(st, b, p, v.a[0])
            return c.ret(some(c, c.dty, v.a[1]))
        lastv = I.select(v, sub(n, ONE))
        I.write(st, b, p, ite(has, mk('popped', v), v))
        return c.ret(ite(has, some(c, c.dty, lastv), none(c, c.dty)))
    if m == 'clear':
        ev(v)
        I.write(st, b, p, mk('empty', 'vec'))
        return c.ret(UNIT)
    if m == 'insert':
        ev(v)
        I.write(st, b, p, mk('inserted', v, c.args[1], c.args[2]))
        return c.ret(UNIT)
    if m in ('remove', 'swap_remove'):
        ev(v)
        ok = lt(c.args[1], n)
        I.event('assert', 'bounds', c.fr, st, c.line, [ok, n, c.args[1]])
        I.assume(st, ok, False)
        x = I.select(v, c.args[1])
        I.write(st, b, p, mk('removed', v, c.args[1], m))
        return c.ret(x)
    if m == 'resize':
        ev(v)
        I.write(st, b, p, mk('resized', v, c.args[1], c.args[2]))
        return c.ret(UNIT)
    if m == 'truncate':
        ev(v)
        I.write(st, b, p, mk('truncated', v, c.args[1]))
        return c.ret(UNIT)
    if m in ('retain', 'retain_mut'):
        # the predicate, evaluated on a generic element
        seq = mk('seq', mk('d_slice', whole(c, ref, sty)), ZERO)
        f = c.args[1]
        got = {}
        base = ('A', ('clo', c.site, 're', tuple(I.loopstack)))
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            st.mem[base] = f
            f = mk('ref', base, ())

        def body(s1, it, i):
            r = []
            for s2, g in call_fn(c, s1, f, [it], 're'):
                got['keep'] = g
                got['i'] = i
                r.append(('next', s2, None))
            return r
        out = run_seq(c, seq, body, label='retain')
        r = []
        for k, s1, _ in out:
            i = got.get('i')
            keep = got.get('keep')
            vv = I.read(s1, b, p)
            if not I.scratch:
                e = I.event('vec', m, c.fr, s1, c.line, [ref, keep if keep is not None else BOT, i if i is not None else BOT, v], argtys=c.argtys)
            I.write(s1, b, p, mk('filtered', vv, i, keep) if i is not None else mk('filtered', vv))
            r.append((s1, UNIT))
        return r
    if m == 'extend' and c.args[1].op == 'rxiter':
        def push(s, it):
            w = I.read(s, b, p)
            if not I.scratch:
                I.event('vec', 'push', c.fr, s, c.line, [ref, it, w], argtys=c.argtys)
            I.write(s, b, p, mk('push', w, it))
            return [s]
        s1 = receive_all(c, st, c.args[1].a[0], push)
        return [(s1, UNIT)] if s1 is not None else []
    if m in ('extend_from_slice',):
        ev(v)
        I.write(st, b, p, mk('extended', v, c.args[1]))
        return c.ret(UNIT)
    if m in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return c.ret(UNIT)
    if m == 'capacity':
        return app(c, 'capacity', v)
    if m == 'drain':
        ev(v)
        r = c.args[1] if len(c.args) > 1 else None
        ty = c.argtys[1] if len(c.args) > 1 and c.argtys else None
        if ty is not None and I.tk(ty).get('path', '').endswith('RangeFull'):
            I.write(st, b, p, mk('empty', 'vec'))
            return c.ret(mk('seq', mk('d_vals', v), ZERO))
        return None
    if m in ('sort_unstable_by', 'sort_by', 'sort', 'sort_unstable', 'sort_by_key', 'sort_unstable_by_key'):
        return sort_call(c, ref, sty)
    return None


def sort_call(c, ref, sty):
    I = c.I
    st = c.st
    w = whole(c, ref, sty)
    ps = I.deref(w, None)
    got = []
    f = c.args[1] if len(c.args) > 1 else None
    if len(ps) != 1:
        return None
    g, b, p = ps[0]
    key = None
    if f is not None:
        # the comparison, evaluated on two generic elements
        x, y = mk('sym', 'elemA'), mk('sym', 'elemB')
        sc = st.copy()
        ety = None
        bx, by = ('P', x), ('P', y)
        if c.tgt is not None:
            tt = c.callee.get('args') or []
            if tt and isinstance(tt[0], int):
                ety = tt[0]
        if ety is not None:
            I.basety.setdefault(bx, ety)
            I.basety.setdefault(by, ety)
        I.scratch += 1
        try:
            args = [x, y] if not c.meth.endswith('_key') else [x]
            rs = call_fn(c, sc, f, args, 'cmp')
            r = None
            for s, v in rs:
                r = v if r is None else ite(andb(*s.gates), v, r)
            key = r
        finally:
            I.scratch -= 1
    v = I.read(st, b, p)
    I.event('sort', c.meth, c.fr, st, c.line, [ref, key if key is not None else BOT, v], argtys=c.argtys)
    if p and p[-1][0] == 'sub':
        off, n = p[-1][1], p[-1][2]
        full = I.read(st, b, p[:-1])
        if off is ZERO and n is I.length(full):
            I.write(st, b, p[:-1], mk('sorted', full, key if key is not None else BOT))
            return c.ret(UNIT)
    I.write(st, b, p, mk('sorted', v, key if key is not None else BOT))
    return c.ret(UNIT)


def slice_call(c):
    I = c.I
    m = c.meth
    st = c.st
    ref = c.args[0] if c.args else None
    if ref is None:
        return None
    sty = c.arg_pointee(0)
    if m in ('iter', 'iter_mut'):
        return c.ret(mk('seq', mk('d_slice', whole(c, ref, sty)), ZERO))
    if m in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut'):
        return c.ret(mk('seq', mk('d_chunks', whole(c, ref, sty), c.args[1], 'exact' if 'exact' in m else ''), ZERO))
    if m == 'windows':
        return c.ret(mk('seq', mk('d_windows', whole(c, ref, sty), c.args[1]), ZERO))
    if m == 'len':
        return c.ret(seq_len_of_ref(c, ref, sty))
    if m == 'is_empty':
        return c.ret(eq(seq_len_of_ref(c, ref, sty), ZERO))
    if m in ('first', 'first_mut', 'last', 'last_mut'):
        n = seq_len_of_ref(c, ref, sty)
        i = ZERO if m.startswith('first') else sub(n, ONE)
        return c.ret(ite(lt(ZERO, n), some(c, c.dty, elem_ref(c, ref, i)), none(c, c.dty)))
    if m in ('get', 'get_mut'):
        it = c.argtys[1]
        n = seq_len_of_ref(c, ref, sty)
        if I.tk(it)['k'] == 'uint':
            return c.ret(ite(lt(c.args[1], n), some(c, c.dty, elem_ref(c, ref, c.args[1])), none(c, c.dty)))
        a, b, n = index_range(c, ref, sty, c.args[1])
        if a is not None:
            ok = andb(le(a, b), le(b, n))
            return c.ret(ite(ok, some(c, c.dty, subslice(c, ref, sty, a, b)), none(c, c.dty)))
        return None
    if m in ('split_at', 'split_at_mut'):
        n = seq_len_of_ref(c, ref, sty)
        # a difference below zero wraps around and is past any end
        ok = andb(le(ZERO, c.args[1]), le(c.args[1], n))
        I.event('assert', 'slice', c.fr, st, c.line, [ok, n, ZERO, c.args[1]])
        if not I.assume(st, ok, False):
            return []
        return c.ret(mk('tuple', subslice(c, ref, sty, ZERO, c.args[1]), subslice(c, ref, sty, c.args[1], n)))
    if m in ('as_simd', 'as_simd_mut'):
        # three parts; the lanes of the vectors of the middle one are taken for its items, as every operation
        # on vectors that is known here works on each lane alone
        n = seq_len_of_ref(c, ref, sty)
        w = whole(c, ref, sty)
        lanes = tuple(a for a in (c.callee.get('args') or []))
        pre = mk('app', 'simdpre', w, lanes)
        mid = mk('app', 'simdmid', n, pre, lanes)
        UNSIGNED.add(pre)
        UNSIGNED.add(mid)
        I.assume(st, le(add(pre, mid), n), False)
        a, b = pre, add(pre, mid)
        return c.ret(mk('tuple', subslice(c, ref, sty, ZERO, a), subslice(c, ref, sty, a, b), subslice(c, ref, sty, b, n)))
    if m == 'fill':
        w = whole(c, ref, sty)
        n = seq_len_of_ref(c, ref, sty)
        I.event('fill', 'fill', c.fr, st, c.line, [w, c.args[1], n], argtys=c.argtys)
        for g, b, p in I.deref(w, sty):
            new = mk('from_elem', c.args[1], n)
            I.write(st, b, p, new if g is TRUE else ite(g, new, I.read(st, b, p)))
        return c.ret(UNIT)
    if m in ('copy_from_slice', 'clone_from_slice'):
        w = whole(c, ref, sty)
        n = seq_len_of_ref(c, ref, sty)
        s = whole(c, c.args[1], c.arg_pointee(1))
        n2 = seq_len_of_ref(c, c.args[1], c.arg_pointee(1))
        ok = eq(n, n2)
        I.event('copy', m, c.fr, st, c.line, [w, s, n, n2], argtys=c.argtys)
        I.event('assert', 'copylen', c.fr, st, c.line, [ok, n, n2])
        I.assume(st, ok, False)
        src = load(c, s, c.arg_pointee(1))
        for g, b, p in I.deref(w, sty):
            I.write(st, b, p, src if g is TRUE else ite(g, src, I.read(st, b, p)))
        return c.ret(UNIT)
    if m == 'copy_within':
        w = whole(c, ref, sty)
        n = seq_len_of_ref(c, ref, sty)
        a, b, _ = index_range(c, ref, sty, c.args[1])
        if a is None:
            return None
        ok = andb(le(a, b), le(b, n), le(add(c.args[2], sub(b, a)), n))
        I.event('assert', 'copywithin', c.fr, st, c.line, [ok, n, a, b, c.args[2]])
        I.event('copywithin', m, c.fr, st, c.line, [w, a, b, c.args[2]], argtys=c.argtys)
        for g, bb, p in I.deref(w, sty):
            old = I.read(st, bb, p)
            new = mk('moved', old, a, b, c.args[2])
            I.write(st, bb, p, new)
        return c.ret(UNIT)
    if m in ('rotate_left', 'rotate_right'):
        # the part that moves to the other end, and the rest
        w = whole(c, ref, sty)
        n = seq_len_of_ref(c, ref, sty)
        k = c.args[1] if m == 'rotate_left' else sub(n, c.args[1])
        ok = le(c.args[1], n)
        I.event('assert', 'rotate', c.fr, st, c.line, [ok, n, c.args[1]])
        I.assume(st, ok, False)
        I.event('rotate', m, c.fr, st, c.line, [w, k], argtys=c.argtys)
        for g, bb, p in I.deref(w, sty):
            old = I.read(st, bb, p)
            new = mk('substore', mk('moved', old, k, n, ZERO), sub(n, k), k, mk('subarr', old, ZERO, k))
            I.write(st, bb, p, new)
        return c.ret(UNIT)
    if m in ('sort_unstable_by', 'sort_by', 'sort', 'sort_unstable', 'sort_by_key', 'sort_unstable_by_key'):
        return sort_call(c, ref, sty)
    if m == 'contains':
        return app(c, 'contains', load(c, ref, sty), keyval(c, c.args[1]))
    if m == 'partition_point':
        w = whole(c, ref, sty)
        x = mk('sym', 'elemA')
        sc = st.copy()
        I.scratch += 1
        try:
            r = None
            for s, v in call_fn(c, sc, c.args[1], [x], 'pp'):
                r = v if r is None else ite(andb(*s.gates), v, r)
        finally:
            I.scratch -= 1
        v = load(c, ref, sty)
        t = mk('app', 'partition_point', v, r if r is not None else BOT)
        UNSIGNED.add(t)
        I.assume(st, le(t, seq_len_of_ref(c, ref, sty)), False)
        return c.ret(t)
    if m in ('swap',):
        n = seq_len_of_ref(c, ref, sty)
        ok = andb(lt(c.args[1], n), lt(c.args[2], n))
        I.event('assert', 'bounds', c.fr, st, c.line, [ok, n, c.args[1], c.args[2]])
        r1, r2 = elem_ref(c, ref, c.args[1]), elem_ref(c, ref, c.args[2])
        v1, v2 = load(c, r1), load(c, r2)
        store_to(c, r1, v2)
        store_to(c, r2, v1)
        return c.ret(UNIT)
    if m in ('fill_with',):
        w = whole(c, ref, sty)
        seq = mk('seq', mk('d_slice', w), ZERO)
        f = c.args[1]
        base = ('A', ('clo', c.site, 'fw', tuple(I.loopstack)))
        if f.op == 'closure':
            I.basety[base] = f.a[0]
            st.mem[base] = f
            f = mk('ref', base, ())

        def body(s1, it, i):
            r = []
            for s2, v in call_fn(c, s1, f, [], 'fw'):
                store_to(c, it, v, st=s2)
                r.append(('next', s2, None))
            return r
        return [(s1, UNIT) for k, s1, v in run_seq(c, seq, body)]
    if m in ('to_vec', 'to_owned', 'into_vec'):
        return c.ret(load(c, ref, sty))
    if m in ('as_ptr', 'as_mut_ptr'):
        return c.ret(ref)
    return None


ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}


def num_binop(c, op):
    """Add::add and friends on references or values of primitive numbers"""
    I = c.I
    vals = []
    ty = None
    for i in (0, 1):
        t = c.argtys[i]
        v = c.args[i]
        if t is None:
            return None
        if I.tk(t)['k'] == 'ref':
            t = I.tk(t)['e']
            v = load(c, v, t)
        if I.tk(t)['k'] not in ('int', 'uint', 'float'):
            return None
        ty = ty if ty is not None else t
        vals.append(v)
    return c.ret(I.binop(op, vals[0], vals[1], ty))


def deep(c, v, ty):
    """value behind any number of references"""
    I = c.I
    n = 0
    while ty is not None and I.tk(ty)['k'] == 'ref' and n < 4:
        ty = I.tk(ty)['e']
        v = load(c, v, ty)
        n += 1
    return v, ty


def compare(c, op):
    I = c.I
    a, ta = deep(c, c.args[0], c.argtys[0])
    b, tb = deep(c, c.args[1], c.argtys[1])
    if ta is None:
        return None
    k = I.tk(ta)['k']
    if k in ('int', 'uint', 'float', 'char', 'bool') or I.tk(ta)['s'] in ('bool', 'char'):
        return c.ret(I.binop({'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op], a, b, ta))
    if k == 'str' or I.tk(ta)['s'] == 'str':
        if op in ('eq', 'ne'):
            r = TRUE if a is b else FALSE if a.op == b.op == 'str' else mk('app', 'streq', *sorted((a, b), key=lambda t: t.id))
            return c.ret(r if op == 'eq' else notb(r))
    if k == 'adt' and 'fixed' in I.tk(ta)['path']:
        x, y = bits(I, a), bits(I, b)
        r = {'eq': eq, 'ne': lambda p, q: notb(eq(p, q)), 'lt': lt, 'le': le, 'gt': lambda p, q: lt(q, p), 'ge': lambda p, q: le(q, p)}[op](x, y)
        return c.ret(r)
    return None


def bits(I, v):
    """integer value of a fixed-point number"""
    if v.op == 'ite':
        return ite(v.a[0], bits(I, v.a[1]), bits(I, v.a[2]))
    if v.op == 'adt':
        return v.a[2]
    if v.op == 'fixed':
        return v.a[0]
    if v.op == 'int':
        return v
    r = mk('field', v, 0, 0)
    SIGNED.add(r)
    return r


def fixed_call(c):
    I = c.I
    m = c.meth
    if m in ('from_bits',):
        return c.ret(mk('fixed', c.args[0]))
    if m in ('to_bits',):
        return c.ret(bits(I, deep(c, c.args[0], c.argtys[0])[0]))
    if m in ('from_num', 'saturating_from_num', 'wrapping_from_num', 'lossy_from', 'checked_from_num'):
        r = mk('app', 'fixed_' + m, c.args[0])
        SIGNED.add(r)
        return c.ret(mk('fixed', r))
    if m in ('to_num', 'lossy_into'):
        return app(c, 'fixed_to_num', bits(I, c.args[0]))
    if m in ('add', 'sub', 'saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub'):
        a, b = (bits(I, deep(c, c.args[i], c.argtys[i])[0]) for i in (0, 1))
        f = add if m.endswith('add') else sub
        return c.ret(mk('fixed', f(a, b)))
    if m in ('add_assign', 'sub_assign'):
        a = bits(I, load(c, c.args[0]))
        b = bits(I, deep(c, c.args[1], c.argtys[1])[0])
        store_to(c, c.args[0], mk('fixed', (add if m.startswith('add') else sub)(a, b)), c.arg_pointee(0))
        return c.ret(UNIT)
    if m in ('cmp',):
        a, b = (bits(I, deep(c, c.args[i], c.argtys[i])[0]) for i in (0, 1))
        return c.ret(ordering(c, a, b, c.dty))
    if m == 'partial_cmp':
        a, b = (bits(I, deep(c, c.args[i], c.argtys[i])[0]) for i in (0, 1))
        oty = I.tk(c.dty)['args'][0]
        return c.ret(some(c, c.dty, ordering(c, a, b, oty)))
    if m in ('max', 'min'):
        a, b = (bits(I, c.args[i]) for i in (0, 1))
        return c.ret(mk('fixed', (imax if m == 'max' else imin)(a, b)))
    return None


def ordering(c, a, b, ty):
    L, E, G = (mk('adt', ty, i) for i in (0, 1, 2))
    if c.I.tk(ty)['path'].endswith('Ordering'):
        return ite(lt(a, b), L, ite(eq(a, b), E, G))
    return mk('cmp3', a, b)


def memory(c, st, v, ty, tag='box'):
    base = ('A', (tag, c.site, tuple(c.I.loopstack)))
    c.I.basety[base] = ty
    st.mem[base] = v
    return mk('box', base)


SHAPE = ('channel_count', 'frame_count', 'sample_rate')


def root_value(v):
    """what the identity-preserving writes were applied to"""
    while True:
        if v.op in ('mut', 'store', 'substore', 'estore'):
            v = v.a[0]
        elif v.op == 'phi' and v.a[1][0] == 'P' and not v.a[2]:
            v = mk('deref0', v.a[1][1])
        elif v.op == 'ite':
            a, b = root_value(v.a[1]), root_value(v.a[2])
            return a if a is b else v
        else:
            return v


def concrete_ty(I, ref):
    """type of what a reference to a dyn value points to, when it is known"""
    if ref.op in ('ref', 'box'):
        t = I.place_ty(ref.a[0], ref.a[1] if ref.op == 'ref' else ())
        if t is not None and I.tk(t)['k'] not in ('dyn', 'param'):
            return t
    return None


def devirtualise(c):
    I = c.I
    ref = I.simp(c.args[0], c.st.pc)
    t = concrete_ty(I, ref)
    tr = c.callee.get('trait')
    if t is None or tr is None:
        return None
    m = c.meth
    # &Box<dyn T> auto-derefs have been made explicit by the compiler; a Box<dyn T> pointee is dyn
    for v in I.p.vt.get(tr, []):
        if v['ty'] == t:
            for mm, key in v['methods']:
                if mm == m:
                    return I.p.fns.get(key)
    return None


SIMD_OPS = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}


def simd(c):
    """operations on vectors of numbers, lane by lane"""
    I, m, st = c.I, c.meth, c.st

    def lane(t):
        t = I.tk(t)
        return t['k'] == 'adt' and t['path'].endswith('Simd')
    if not c.args:
        return None
    if lane(c.dty) and m == 'splat':
        return c.ret(c.args[0])
    if lane(c.dty) and m == 'from_array':
        a = c.args[0]
        if a.op == 'from_elem':
            return c.ret(a.a[0])
        if a.op in ('array', 'arr') and len(set(a.a)) == 1:
            return c.ret(a.a[0])
        return None
    ty = I.pointee_ty(c.argtys[0])
    if m.endswith('_assign') and m[:-7] in SIMD_OPS and ty is not None and lane(ty) and I.tk(c.argtys[1])['k'] == 'adt':
        v = load(c, c.args[0], ty)
        for g, b, p in I.deref(c.args[0], ty):
            new = mk(SIMD_OPS[m[:-7]], v, c.args[1])
            I.write(st, b, p, new if g is TRUE else ite(g, new, I.read(st, b, p)))
        return c.ret(UNIT)
    if m in SIMD_OPS and lane(c.dty) and all(lane(t) for t in c.argtys):
        return c.ret(mk(SIMD_OPS[m], c.args[0], c.args[1]))
    return None


def simple(c):
    """functions of std that need one line each; None when unknown"""
    I = c.I
    n = c.base
    m = c.meth
    st = c.st
    full = c.name
    r = simd(c)
    if r is not None:
        return r
    if n.endswith('boxed::Box::new') or n.endswith('Box::from'):
        return c.ret(memory(c, st, c.args[0], c.argtys[0]))
    if n.endswith(('sync::Arc::new', 'rc::Rc::new', 'cell::RefCell::new', 'cell::Cell::new')):
        if n.endswith('Cell::new'):
            return c.ret(mk('cell', c.args[0]))
        return c.ret(memory(c, st, c.args[0], c.argtys[0], 'rc'))
    if n.endswith(('Rc::downgrade', 'Arc::downgrade')):
        return c.ret(mk('weak', load(c, c.args[0], c.arg_pointee(0))))
    if n.endswith('Weak::upgrade'):
        w = load(c, c.args[0], c.arg_pointee(0))
        e = mk('is', mk('app', 'upgrade', w), 1)
        return c.ret(ite(e, some(c, c.dty, mk('app', 'upgraded', w)), none(c, c.dty)))
    if re.search(r'^<std::(sync::Arc|rc::Rc|sync::Weak|rc::Weak) as std::clone::Clone>::clone$', full):
        return c.ret(load(c, c.args[0], c.arg_pointee(0)))
    if m in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut') and re.search(r'^<?(std|alloc)::(sync::Arc|rc::Rc|boxed::Box)', full):
        return c.ret(load(c, c.args[0], c.arg_pointee(0)))
    if m == 'borrow_mut' and 'RefCell' in full or m == 'borrow' and 'RefCell' in full:
        return c.ret(mk('refmut', c.args[0]))
    if 'RefMut as' in full or 'cell::Ref as' in full:
        g = load(c, c.args[0], c.arg_pointee(0))
        if g.op == 'refmut':
            r = g.a[0]
            b, p = place_of(c, r)
            return c.ret(mk('ref', b, p + (('f', 0, 0),)))
        return c.ret(mk('cellref', g))
    if n.endswith('mem::swap'):
        a, b = load(c, c.args[0]), load(c, c.args[1])
        store_to(c, c.args[0], b)
        store_to(c, c.args[1], a)
        return c.ret(UNIT)
    if n.endswith('mem::replace'):
        a = load(c, c.args[0], c.arg_pointee(0))
        store_to(c, c.args[0], c.args[1], c.arg_pointee(0))
        return c.ret(a)
    if n.endswith('mem::take'):
        a = load(c, c.args[0], c.arg_pointee(0))
        store_to(c, c.args[0], default_value(c, c.arg_pointee(0)), c.arg_pointee(0))
        return c.ret(a)
    if n.endswith(('mem::drop', 'mem::forget')):
        if n.endswith('drop'):
            I.event('drop', 'drop', c.fr, st, c.line, [c.args[0]], argtys=c.argtys)
        return c.ret(UNIT)
    if n.endswith(('Option::take',)):
        a = load(c, c.args[0], c.arg_pointee(0))
        store_to(c, c.args[0], none(c, c.arg_pointee(0)), c.arg_pointee(0))
        return c.ret(a)
    if n.endswith(('cmp::min', 'Ord::min', 'cmp::max', 'Ord::max')):
        t = c.argtys[0]
        if I.tk(t)['k'] in ('int', 'uint'):
            f = imin if n.endswith('min') else imax
            r = f(c.args[0], c.args[1])
            if I.tk(t)['k'] == 'int':
                SIGNED.add(r)
            return c.ret(r)
        if I.tk(t)['k'] == 'adt':
            a, b = c.args
            r = fixed_call(c) if 'fixed' in I.tk(t)['path'] else None
            if r:
                return r
            if c.tgt is None or not c.tgt.blocks:
                return app(c, 'ord_' + m, *c.args)
    if n.endswith('Ord::clamp') and I.tk(c.argtys[0])['k'] in ('int', 'uint'):
        return c.ret(imin(imax(c.args[0], c.args[1]), c.args[2]))
    if re.search(r'^(core|std)::f(32|64)::', n) or re.search(r'^(core|std)::f(32|64)::', full) or re.match(r'^std::(f32|f64)::', n):
        if m in FLOATFN:
            return fl1(m)(c)
    if re.search(r'(core|std)::num::', full) or re.match(r'^<?u(size|64|32|8)|^<?i(size|64|32)', n) or '::num::' in n:
        a = c.args
        if m == 'saturating_sub':
            d = sub(a[0], a[1])
            r = mk('ssub', a[0], a[1])
            if d.op == 'int':
                return c.ret(INT(max(0, d.a[0])))
            if Lin_holds(I, st, le(a[1], a[0])):
                return c.ret(d)
            return c.ret(note_sign(I, r, c.dty))
        if m in ('wrapping_add', 'saturating_add'):
            return c.ret(add(a[0], a[1]))
        if m in ('wrapping_sub',):
            return c.ret(sub(a[0], a[1]))
        if m in ('wrapping_mul', 'saturating_mul'):
            return c.ret(mul(a[0], a[1]))
        if m == 'abs_diff':
            return c.ret(ite(le(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1])))
        if m == 'div_ceil':
            return c.ret(div(add(a[0], sub(a[1], ONE)), a[1]))
        if m in ('checked_sub',):
            return c.ret(ite(le(a[1], a[0]), some(c, c.dty, sub(a[0], a[1])), none(c, c.dty)))
        if m in ('checked_add',):
            return c.ret(some(c, c.dty, add(a[0], a[1])))
        if m in ('checked_div', 'checked_rem'):
            return c.ret(ite(eq(a[1], ZERO), none(c, c.dty), some(c, c.dty, (div if m.endswith('div') else rem)(a[0], a[1]))))
        if m == 'is_multiple_of':
            return c.ret(eq(rem(a[0], a[1]), ZERO))
        if m in ('next_power_of_two', 'pow', 'isqrt', 'leading_zeros', 'trailing_zeros', 'count_ones', 'ilog2', 'rotate_left', 'abs', 'signum', 'next_multiple_of'):
            return app(c, m, *a)
    if n.endswith('RangeInclusive::new'):
        return c.ret(mk('rincl', c.args[0], c.args[1]))
    if n.endswith('RangeInclusive::contains') or n.endswith('Range::contains'):
        r = load(c, c.args[0], c.arg_pointee(0))
        x = load(c, c.args[1], c.arg_pointee(1))
        xt = c.arg_pointee(1)
        if r.op == 'rincl':
            return c.ret(andb(I.binop('Le', r.a[0], x, xt), I.binop('Le', x, r.a[1], xt)))
        return c.ret(andb(I.binop('Le', I.pf(r, 0, 0), x, xt), I.binop('Lt', x, I.pf(r, 0, 1), xt)))
    if n.endswith(('RangeInclusive::start', 'RangeInclusive::end')):
        r = load(c, c.args[0], c.arg_pointee(0))
        i = 0 if m == 'start' else 1
        v = r.a[i] if r.op == 'rincl' else mk('field', r, 0, i)
        return c.ret(mk('ref', ('C', v), ()))
    if c.trait in ('PartialEq', 'PartialOrd') and m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        if c.tgt is None or c.tgt.krate in ('core', 'fixed', 'std'):
            r = compare(c, m)
            if r:
                return r
    if c.trait in ('Ord', 'PartialOrd') and m in ('cmp', 'partial_cmp'):
        a, ta = deep(c, c.args[0], c.argtys[0])
        b, tb = deep(c, c.args[1], c.argtys[1])
        if ta is not None and I.tk(ta)['k'] in ('int', 'uint'):
            oty = c.dty if m == 'cmp' else I.tk(c.dty)['args'][0]
            o = ordering(c, a, b, oty)
            return c.ret(o if m == 'cmp' else some(c, c.dty, o))
        if ta is not None and I.tk(ta)['k'] == 'float' and m == 'partial_cmp':
            oty = I.tk(c.dty)['args'][0]
            L, E, G = (mk('adt', oty, i) for i in (0, 1, 2))
            o = ite(mk('flt', a, b), L, ite(mk('flt', b, a), G, E))
            return c.ret(ite(mk('app', 'unordered', a, b), none(c, c.dty), some(c, c.dty, o)))
        if ta is not None and I.tk(ta)['k'] == 'adt' and 'fixed' in I.tk(ta)['path']:
            return fixed_call(c)
    if c.trait in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and m in ARITH:
        r = num_binop(c, ARITH[m])
        if r:
            return r
    if c.trait in ('AddAssign', 'SubAssign', 'MulAssign', 'DivAssign') and c.argtys[0] is not None:
        t = c.arg_pointee(0)
        if t is not None and I.tk(t)['k'] in ('int', 'uint', 'float'):
            v = load(c, c.args[0], t)
            b, tb = deep(c, c.args[1], c.argtys[1])
            store_to(c, c.args[0], I.binop(ARITH[m.split('_')[0]], v, b, t), t)
            return c.ret(UNIT)
    if c.trait == 'Neg' and I.tk(c.argtys[0])['k'] == 'float':
        a = c.args[0]
        return c.ret(mk('fl', repr(-float(a.a[0]))) if a.op == 'fl' else mk('fneg', a))
    if c.trait == 'Clone' and m == 'clone':
        t = c.arg_pointee(0)
        if t is not None:
            k = I.tk(t)
            if k['k'] in ('int', 'uint', 'float', 'ref', 'fndef', 'closure') or k['s'] in ('bool', 'char'):
                return c.ret(load(c, c.args[0], t))
            if k['k'] == 'adt' and k['path'].endswith(('vec::Vec', 'string::String')):
                return c.ret(load(c, c.args[0], t))
            if k['k'] in ('array', 'tuple') or k['k'] == 'adt' and ('fixed' in k['path'] or 'crossbeam' in k['path'] or k['path'].endswith('Option')):
                return c.ret(load(c, c.args[0], t))
    if c.trait == 'Default' and m == 'default':
        if c.dty is not None:
            v = default_value(c, c.dty)
            if v.op != 'app':
                return c.ret(v)
            t = I.tk(c.dty)
            if t['k'] == 'adt' and t['path'].endswith(('sync::Arc', 'rc::Rc', 'boxed::Box')) and t.get('args'):
                v = default_value(c, t['args'][0])
                if v.op != 'app':
                    return c.ret(memory(c, st, v, t['args'][0], 'box' if t['path'].endswith('Box') else 'rc'))
    if c.trait in ('From', 'Into') and m in ('from', 'into'):
        t, d = c.argtys[0], c.dty
        if t is not None and d is not None:
            if t == d:
                return c.ret(c.args[0])
            kt, kd = I.tk(t)['k'], I.tk(d)['k']
            if kt in ('int', 'uint') and kd in ('int', 'uint'):
                return c.ret(c.args[0])
            if kt == 'float' and kd == 'float':
                return c.ret(mk('f2f', c.args[0]) if c.args[0].op != 'fl' else c.args[0])
            if kt in ('int', 'uint') and kd == 'float':
                return c.ret(mk('i2f', c.args[0]))
    if n.endswith(('hint::black_box', 'convert::identity')):
        return c.ret(c.args[0])
    if n.endswith(('array::map',)):
        v = c.args[0]
        if v.op == 'array':
            out = []
            sts = st
            for j, x in enumerate(v.a):
                r = call_fn(c, sts, c.args[1], [x], 'am%d' % j)
                if len(r) != 1:
                    return None
                sts, y = r[0]
                out.append(y)
            return [(sts, mk('array', *out))]
    if re.search(r'fmt::(rt::)?(Argument|Arguments|Formatter)', n):
        return app(c, 'fmt', *[a for a in c.args if isinstance(a, T)])
    if m in ('from_secs', 'from_secs_f64', 'from_secs_f32', 'from_millis', 'as_secs_f64', 'as_secs_f32', 'as_micros', 'as_millis', 'as_secs', 'from_micros', 'from_nanos', 'as_nanos') and 'Duration' in n:
        a = c.args[0]
        if c.argtys[0] is not None and I.tk(c.argtys[0])['k'] == 'ref':
            a = load(c, a, c.arg_pointee(0))
        return app(c, m, a)
    return None


def Lin_holds(I, st, g):
    return Lin(st.pc, is_signed).holds(g)


def default_value(c, ty):
    I = c.I
    t = I.tk(ty) if ty is not None else None
    if t is None:
        return mk('app', 'default')
    if t['k'] in ('int', 'uint'):
        return ZERO
    if t['k'] == 'float':
        return mk('fl', '0.0')
    if t['s'] == 'bool':
        return FALSE
    if t['k'] == 'tuple' and not t['es']:
        return UNIT
    if t['k'] == 'adt':
        if t['path'].endswith('Option'):
            return mk('adt', ty, 0)
        if t['path'].endswith('vec::Vec'):
            return mk('empty', 'vec')
        if t['path'].endswith('HashMap'):
            return mk('empty', 'map')
        if t['path'].endswith('atomic::Atomic') and re.search(r'<[iu](\d+|size)>$', t['s']):
            return mk('atomic', ZERO)
        if t['path'].endswith(('::AtomicF64', '::AtomicF32')):
            return mk('atomic', mk('fl', '0.0'))
    return mk('app', 'default', ty)


def intrinsic(c):
    I = c.I
    m = c.meth
    a = c.args
    if m in ('min_align_of', 'size_of', 'needs_drop', 'type_id', 'align_of'):
        return app(c, m, c.callee.get('args') and mk('str', str(c.callee['args'])) or UNIT)
    if m in ('likely', 'unlikely', 'black_box'):
        return c.ret(a[0])
    if m in ('wrapping_add', 'unchecked_add', 'saturating_add'):
        return c.ret(add(a[0], a[1]))
    if m in ('wrapping_sub', 'unchecked_sub'):
        return c.ret(sub(a[0], a[1]))
    if m in ('wrapping_mul', 'unchecked_mul'):
        return c.ret(mul(a[0], a[1]))
    if m == 'saturating_sub':
        return c.ret(mk('ssub', a[0], a[1]))
    if m in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        f = {'a': add, 's': sub, 'm': mul}[m[0]]
        return c.ret(mk('tuple', f(a[0], a[1]), FALSE))
    if m in ('three_way_compare',):
        return c.ret(ordering(c, a[0], a[1], c.dty))
    if m in ('assume',):
        I.assume(c.st, a[0], False)
        return c.ret(UNIT)
    if m in ('assert_inhabited', 'cold_path', 'assert_zero_valid', 'assert_mem_uninitialized_valid'):
        return c.ret(UNIT)
    if m in ('ub_checks', 'contract_checks', 'is_val_statically_known'):
        return c.ret(FALSE)
    if m == 'discriminant_value':
        v = load(c, a[0], c.arg_pointee(0))
        return c.ret(I.discr(v, c.arg_pointee(0)))
    if m in ('read_via_copy', 'volatile_load'):
        return c.ret(load(c, a[0], c.arg_pointee(0)))
    if m in ('write_via_move',):
        store_to(c, a[0], a[1], c.arg_pointee(0))
        return c.ret(UNIT)
    if m == 'transmute' or m == 'transmute_unchecked':
        return c.ret(a[0])
    return app(c, 'intr_' + m, *a)


INLINE_STD = re.compile(r'^(core|std|alloc)::(option|result|cmp|bool|ops::(range|control_flow|function|try_trait)|mem|convert|'
                        r'clone|default|slice::index|array|char|num|iter::adapters|task|pin)::')
INLINE_NAMES = re.compile(r'^<?(std|core)::(option::Option|result::Result|ops::ControlFlow|cmp::Ordering|cmp::Reverse|ops::Bound|mem::ManuallyDrop)\b')


def channels(c):
    """channel and atomic operations: events with a known shape"""
    I = c.I
    n = c.name
    b = c.base
    m = c.meth
    if re.search(r'(crossbeam(_channel)?|mpsc)(::\w+)*::(Sender|SyncSender|Receiver)::\w+$', b) or re.search(r'^<crossbeam.*(Sender|Receiver)', n):
        if m in ('clone',):
            return c.ret(load(c, c.args[0], c.arg_pointee(0)))
        if m in ('send', 'try_send', 'recv', 'try_recv', 'send_timeout', 'recv_timeout'):
            return opaque(c, 'channel::' + m, havoc=False, kind='chan')
        if m == 'try_iter':
            return c.ret(mk('rxiter', c.args[0]))
        return opaque(c, 'channel::' + m, havoc=False, kind='chanq')
    if re.search(r'(crossbeam(_channel)?|mpsc)(::\w+)*::(bounded|unbounded|channel|sync_channel)$', b):
        return opaque(c, 'channel::new', havoc=False, kind='channew')
    if re.search(r'atomic::Atomic\w*(::\w+)?$|atomic::Atomic(\w*)::', b) or 'AtomicF64::' in b or re.search(r'sync::atomic::\w+::\w+$', b):
        if m == 'new':
            return c.ret(mk('atomic', c.args[0]))
        return opaque(c, 'atomic::' + m, havoc=False, kind='atomic')
    return None


def dispatch(c):
    I = c.I
    callee = c.callee
    k = callee['k']
    # the bound rule may stop here
    r = I.boundary(c)
    if r is not None:
        return r
    st = c.st
    n = c.base
    full = c.name
    m = c.meth
    if k == 'intrinsic' or k == 'llvm':
        return intrinsic(c)
    if k == 'ptr':
        f = I.operand(c.fr, st, callee['op']) if callee.get('op') else None
        if f is not None and f.op in ('fndef', 'closure', 'ref', 'box'):
            return call_fn(c, st, f, c.args, 'ptr')
        return opaque(c, '<indirect>')
    # closures: rust-call ABI
    if c.trait in ('Fn', 'FnMut', 'FnOnce') and m in ('call', 'call_mut', 'call_once'):
        f = c.args[0]
        a = c.args[1]
        args = list(a.a) if a.op == 'tuple' else [a]
        g = f
        if g.op in ('ref', 'box') and k != 'virtual':
            return call_fn(c, st, g, args, 'fn')
        if g.op in ('closure', 'fndef', 'ite', 'zst', 'ref', 'box'):
            return call_fn(c, st, g, args, 'fn')
        return opaque(c, '<indirect>')
    if k == 'virtual' or k == 'unresolved':
        t = devirtualise(c)
        if t is not None and t.blocks:
            c.tgt = t
            c.name = t.npath
            c.callee = dict(callee, k='item', inst=t.key)
            r = I.boundary(c)
            if r is not None:
                return r
            return inline(c, st, t, c.args)
        return trait_event(c)
    local = c.tgt is not None and c.tgt.krate == 'rawdio'
    if not local or c.trait in ITER_TRAITS and (c.tgt is None or c.tgt.krate != 'rawdio'):
        r = None
        if c.trait in ITER_TRAITS or re.search(r'iter::(zip|repeat|once)', n):
            if n.endswith('iter::zip'):
                a, _ = seq_arg(c, 0)
                b, _ = seq_arg(c, 1)
                if a is not None and b is not None:
                    r = c.ret(mk('seq', mk('d_zip', a.a[0] if a.a[1] is ZERO else mk('d_skip', *a.a), b.a[0] if b.a[1] is ZERO else mk('d_skip', *b.a)), ZERO))
            elif n.endswith('iter::repeat'):
                r = c.ret(mk('seq', mk('d_repeat', c.args[0]), ZERO))
            elif n.endswith('iter::repeat_with'):
                r = c.ret(mk('seq', mk('d_with', c.args[0]), ZERO))
            elif n.endswith('iter::repeat_n'):
                r = c.ret(mk('seq', mk('d_take', mk('d_repeat', c.args[0]), c.args[1]), ZERO))
            else:
                r = iterator(c)
            if r is not None:
                return r
        r = channels(c)
        if r is not None:
            return r
        if c.trait == 'Extend' and m == 'extend' and c.args[1].op == 'rxiter':
            r = vec_call(c)
            if r is not None:
                return r
        if c.trait in ('Index', 'IndexMut'):
            r = do_index(c, m == 'index_mut')
            if r is not None:
                return r
        if re.search(r'collections::(\w+::)*HashMap::\w+$', n):
            r = hash_call(c)
            if r is not None:
                return r
        if re.search(r'vec::(Vec::\w+|from_elem)$', n) or re.search(r'^<(std|alloc)::vec::Vec as .*(Deref|DerefMut|AsRef|AsMut|Borrow|BorrowMut)>::', full):
            r = vec_call(c)
            if r is not None:
                return r
        if re.search(r'(^|::)slice::\w+$', n) or re.search(r'(core|std|alloc)::slice::\w+$', full):
            r = slice_call(c)
            if r is not None:
                return r
        if 'fixed' in full or 'fixed' in n:
            r = fixed_call(c)
            if r is not None:
                return r
        r = simple(c)
        if r is not None:
            return r
    # a value iterated by a local Iterator implementation, adapters of std over it
    if c.tgt is not None and c.tgt.blocks:
        t = c.tgt
        if t.krate == 'rawdio' or t.kind == 'shim' and t.blocks:
            if c.trait in ('Fn', 'FnMut', 'FnOnce'):
                a = c.args[1]
                return inline(c, st, t, [c.args[0]] + (list(a.a) if a.op == 'tuple' else [a]))
            return inline(c, st, t, c.args)
        if INLINE_STD.match(full) or INLINE_NAMES.match(full) or INLINE_NAMES.match(n):
            return inline(c, st, t, c.args)
        if c.trait in ('PartialEq', 'Clone', 'Default', 'PartialOrd', 'Ord', 'Into', 'From', 'AsRef', 'AsMut', 'Not', 'Try', 'FromResidual') and t.krate in ('core', 'std', 'alloc'):
            return inline(c, st, t, c.args)
    if c.trait in ITER_TRAITS or c.base.endswith('iter::zip'):
        return opaque_iter(c)
    return opaque(c)


def opaque_iter(c):
    return opaque(c, 'iter::' + c.meth)


def trait_event(c):
    """a call through a trait whose implementation is not known: an event; shape getters of audio buffers are
    functions of the buffer they are asked of"""
    I = c.I
    m = c.meth
    if c.trait == 'AudioBuffer' and m in SHAPE:
        v = root_value(load(c, c.args[0], c.arg_pointee(0)))
        t = mk('app', m, v)
        UNSIGNED.add(t)
        return c.ret(t)
    if c.trait == 'DspProcessor':
        return opaque(c)
    # a method of a supertrait or a type parameter of the crate: default bodies are not assumed
    return opaque(c)
