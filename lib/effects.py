"""Effect analysis over the monomorphic call graph: which blocking and heap primitives are reachable
from a set of entry points (normal control flow only: unwinding and always-panicking blocks are cut)."""
import re
from prog import strip_generics

PANIC = re.compile(r'(^|::)(panicking|begin_panic|handle_alloc_error|capacity_overflow|unwrap_failed|expect_failed|'
                   r'panic_fmt|panic_nounwind|len_mismatch_fail|slice_index_fail|panic_bounds_check|rust_panic_without_hook|abort)(::|$)')

# crossbeam channel API, decided at the API boundary
XB = re.compile(r'crossbeam(_channel)?::')


class Site:
    __slots__ = ('fn', 'line', 'callee', 'inst', 'args', 'kind', 'path')


def const_return(prog, key, depth=0):
    """the constant a function always returns (a straight-line body that ends in `_0 = const`), or None"""
    f = prog.fns.get(key)
    if f is None or not f.blocks or depth > 3:
        return None
    v = None
    b = 0
    for _ in range(16):
        stm, t, line = f.blocks[b]
        for s in stm:
            if s[0] == '=' and s[1] == [0, []]:
                if s[2][0] == 'use' and s[2][1][0] == 'k' and 'v' in s[2][1][1]:
                    v = s[2][1][1]['v']
                else:
                    return None
        if t[0] == 'ret':
            return v
        if t[0] != 'goto':
            return None
        b = t[1]
    return None


def live_blocks(fn, prog=None):
    """blocks on some normal path entry -> return, or on a cycle; a switch on a value that a called
    function returns as a constant is followed along its one feasible edge"""
    from interp import succs
    n = len(fn.blocks)
    consts = {}
    if prog is not None:
        ndef = {}
        for stm, t, line in fn.blocks:
            for s in stm:
                if s[0] == '=' and not s[1][1]:
                    ndef[s[1][0]] = ndef.get(s[1][0], 0) + 1
            if t[0] == 'call' and not t[3][1]:
                ndef[t[3][0]] = ndef.get(t[3][0], 0) + 1
        for stm, t, line in fn.blocks:
            if t[0] == 'call' and t[1]['k'] == 'item' and not t[3][1] and ndef.get(t[3][0]) == 1:
                v = const_return(prog, t[1].get('inst'))
                if v is not None:
                    consts[t[3][0]] = v
        for stm, t, line in fn.blocks:
            for s in stm:
                if s[0] == '=' and not s[1][1] and ndef.get(s[1][0]) == 1 and s[2][0] == 'un' and s[2][1] == 'Not' \
                        and s[2][2][0] in 'cm' and s[2][2][1][0] in consts and not s[2][2][1][1]:
                    v = consts[s[2][2][1][0]]
                    if str(v) in ('0', '1', 'True', 'False', 'true', 'false'):
                        consts[s[1][0]] = 0 if str(v) in ('1', 'True', 'true') else 1

    def nexts(t):
        if t[0] == 'switch' and t[1][0] in ('c', 'm') and not t[1][1][1] and t[1][1][0] in consts:
            v = int(consts[t[1][1][0]])
            for val, b in t[2]:
                if int(val) == v:
                    return [b]
            return [t[3]]
        return succs(t)
    seen = {0}
    st = [0]
    succ = {}
    while st:
        b = st.pop()
        succ[b] = list(dict.fromkeys(nexts(fn.blocks[b][1])))
        for s in succ[b]:
            if s not in seen:
                seen.add(s)
                st.append(s)
    pred = {}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    good = {b for b in seen if fn.blocks[b][1][0] == 'ret'}
    # cycles
    for b in seen:
        st = list(succ[b])
        vis = set()
        while st:
            x = st.pop()
            if x == b:
                good.add(b)
                break
            if x in vis:
                continue
            vis.add(x)
            st.extend(succ[x])
    st = list(good)
    while st:
        b = st.pop()
        for q in pred.get(b, []):
            if q not in good:
                good.add(q)
                st.append(q)
    return good


class Graph:
    def __init__(self, prog):
        self.p = prog
        self._out = {}
        self.vt = {}
        for v in prog.vtables:
            for nm, key in v['methods']:
                self.vt.setdefault((v['trait'], nm), []).append(key)
        self.chan = {}      # message type -> {(flavour, where)}
        for f in prog.local():
            if not f.blocks:
                continue
            for stm, t, line in f.blocks:
                if t[0] == 'call' and t[1]['k'] == 'item':
                    n = strip_generics(t[1]['path'])
                    m = re.search(r'(?:crossbeam|crossbeam_channel|mpsc)(?:::\w+)*::(bounded|unbounded|channel|sync_channel)$', n)
                    if m:
                        fl = {'bounded': 'bounded', 'sync_channel': 'bounded', 'unbounded': 'unbounded', 'channel': 'unbounded'}[m.group(1)]
                        cap = None
                        if t[2] and t[2][0][0] == 'k':
                            cap = t[2][0][1].get('v')
                        ty = prog.tystr(t[1]['args'][0])
                        self.chan.setdefault(ty, set()).add((fl, cap, f.npath))

    def flavour(self, ty):
        """'bounded' when any construction site of a channel of this message type is bounded or there is none"""
        fs = {x[0] for x in self.chan.get(ty, ())}
        if fs == {'unbounded'}:
            return 'unbounded'
        return 'bounded'

    def virt(self, callee):
        """possible targets of a dynamic call"""
        tr = callee.get('trait') or ''
        nm = strip_generics(callee['path']).rsplit('::', 1)[-1]
        keys = []
        for v in self.p.vtables:
            if v['trait'] == tr:
                for m, k in v['methods']:
                    if m == nm:
                        keys.append(k)
        if not keys:
            # supertrait methods live in the vtables of sub-traits
            for v in self.p.vtables:
                for m, k in v['methods']:
                    if m == nm and tr.rsplit('::', 1)[-1] in (v['trait'].rsplit('::', 1)[-1],):
                        keys.append(k)
        return keys

    def out(self, fn):
        r = self._out.get(fn.key)
        if r is not None:
            return r
        r = []
        if fn.blocks:
            live = live_blocks(fn, self.p)
            for b in sorted(live):
                stm, t, line = fn.blocks[b]
                if t[0] == 'call' and t[4] is not None:
                    r.append((t[1], line, t))
                elif t[0] == 'drop' and t[4]:
                    r.append(({'k': 'drop', 'inst': t[4], 'path': 'drop_in_place', 'ty': t[3]}, line, t))
        elif fn.calls:
            for c in fn.calls:
                r.append((c, fn.line, None))
        self._out[fn.key] = r
        return r


def classify_leaf(g, callee, npath, argtys):
    """(effect, detail) for a call that is decided here and not followed, or None to follow it;
    effect 'ok' means decided harmless"""
    p = g.p
    # crossbeam channels -------------------------------------------------------------
    m = re.search(r'(?:crossbeam_channel|crossbeam::channel|crossbeam)(?:::\w+)*::(Sender|Receiver)::(\w+)$', npath)
    if m:
        side, meth = m.groups()
        ty = p.tystr(callee['args'][0]) if callee.get('args') else '?'
        if side == 'Sender':
            if meth in ('send', 'send_timeout', 'send_deadline'):
                fl = g.flavour(ty)
                if meth == 'send' and fl == 'unbounded':
                    return ('chan-alloc', 'send on an unbounded channel of %s' % ty)
                return ('block', 'blocking %s on a bounded channel of %s' % (meth, ty))
            if meth == 'try_send':
                fl = g.flavour(ty)
                return ('chan-alloc' if fl == 'unbounded' else 'ok', 'try_send of %s' % ty)
            return ('ok', meth)
        if meth in ('try_recv', 'len', 'is_empty', 'is_full', 'capacity', 'try_iter', 'clone'):
            return ('ok', meth)
        return ('block', 'blocking %s on a channel of %s' % (meth, ty))
    if re.search(r'crossbeam(_channel)?(::\w+)*::(Select|select|after|tick|never)', npath):
        return ('block', npath)
    if re.search(r'<crossbeam.*::(Iter|IntoIter|TryIter)\b.* as .*Iterator>::next$', npath):
        return ('ok' if 'TryIter' in npath else 'block', npath)
    if re.search(r'crossbeam(_channel)?(::\w+)*::(bounded|unbounded)$', npath):
        return ('alloc', 'creates a channel')
    # std::sync::mpsc
    m = re.search(r'std::sync::(mpsc|mpmc)::(\w+)::(\w+)$', npath)
    if m:
        side, meth = m.group(2), m.group(3)
        if meth in ('try_recv', 'try_send', 'try_iter'):
            return ('ok', meth)
        if side == 'Sender' and meth == 'send':
            return ('chan-alloc', 'mpsc send')
        return ('block', 'mpsc %s::%s' % (side, meth))
    # locks, threads, io -------------------------------------------------------------
    if re.search(r'(^|::)sync::(poison::)?(mutex::)?(Mutex|rwlock::RwLock|RwLock|Condvar|condvar::Condvar|Barrier|barrier::Barrier|Once|once::Once|OnceLock|once_lock::OnceLock|LazyLock|lazy_lock::LazyLock|ReentrantLock)::(\w+)$', npath) \
            or re.search(r'sync::.*(Mutex|RwLock|Condvar|Barrier|Once|OnceLock|LazyLock)', npath) and not npath.startswith('<'):
        meth = npath.rsplit('::', 1)[-1]
        if meth in ('try_lock', 'try_read', 'try_write', 'get_mut', 'new', 'into_inner', 'is_completed', 'get', 'is_poisoned'):
            return ('ok', npath)
        return ('block', npath)
    if re.search(r'<std::sync::.*(LazyLock|Lazy).* as .*Deref>::deref$', npath):
        return ('block', npath)
    if re.search(r'^std::thread::(\w+::)*(sleep|sleep_until|park|park_timeout|yield_now|scope|spawn|spawn_unchecked|JoinHandle::join|ScopedJoinHandle::join|Builder::spawn)$', npath):
        return ('block', npath)
    if re.match(r'^(std::(io|fs|net|process|env|os)::)', npath) or re.match(r'^<std::(io|fs|net|process)::', npath):
        return ('block', 'I/O: ' + npath)
    if re.match(r'^core::hint::spin_loop|^std::hint::spin_loop', npath):
        return ('block', 'busy-waiting: ' + npath)
    if re.match(r'^std::sys::.*(futex|thread|sync|fs|net|stdio|process)', npath):
        return ('block', npath)
    # rustfft ------------------------------------------------------------------------
    m = re.search(r'rustfft(::\w+)*::Fft::(\w+)$', npath)
    if m or re.match(r'^<rustfft.* as rustfft.*::Fft>::(\w+)$', npath):
        meth = npath.rsplit('::', 1)[-1]
        if meth in ('process_with_scratch', 'process_outofplace_with_scratch', 'process_immutable_with_scratch',
                    'get_inplace_scratch_len', 'get_outofplace_scratch_len', 'get_immutable_scratch_len', 'len', 'fft_direction'):
            return ('ok', 'documented allocation-free: ' + meth)
        return ('alloc', 'rustfft %s allocates its scratch space' % meth)
    if re.match(r'^rustfft::|^<rustfft::', npath):
        meth = npath.rsplit('::', 1)[-1]
        if re.search(r'num_complex|num_traits', npath):
            return None
        return ('alloc', 'rustfft planning: ' + npath)
    # containers that may grow --------------------------------------------------------
    m = re.match(r'^(?:std|alloc)::(?:vec::Vec|collections::(?:\w+::)*(?:HashMap|HashSet|VecDeque|BTreeMap|BTreeSet|BinaryHeap|LinkedList)|string::String)::(\w+)$', npath)
    if m:
        meth = m.group(1)
        if meth in ('push', 'insert', 'extend_from_slice', 'extend_from_within', 'resize', 'resize_with', 'reserve', 'append',
                    'push_back', 'push_front', 'entry', 'push_mut', 'try_insert'):
            cont = re.search(r'::(\w+)::\w+$', npath).group(1)
            if cont in ('BTreeMap', 'BTreeSet', 'LinkedList') or cont == 'String':
                return ('alloc', npath)
            return ('grow', npath)
        if meth in ('shrink_to_fit', 'shrink_to', 'into_boxed_slice', 'split_off', 'with_capacity', 'from_elem', 'reserve_exact', 'into_bytes'):
            return ('alloc', npath)
        if meth in ('new', 'len', 'clear', 'truncate', 'pop', 'remove', 'swap_remove', 'retain', 'drain', 'get', 'get_mut',
                    'contains_key', 'iter', 'iter_mut', 'as_slice', 'as_mut_slice', 'capacity', 'is_empty', 'keys', 'values',
                    'values_mut', 'contains', 'pop_front', 'pop_back', 'front', 'back', 'first', 'last', 'as_ptr', 'as_mut_ptr',
                    'dedup', 'swap', 'retain_mut', 'front_mut', 'back_mut', 'remove_entry', 'get_key_value', 'get_or_insert_with'):
            # element destructors run here are followed through the drop glue of the element type
            return ('container', meth)
    if re.match(r'^<(std|alloc)::(vec::Vec|collections::.*(HashMap|VecDeque|HashSet)) as std::iter::Extend>::', npath):
        return ('grow', npath)
    if re.match(r'^<std::collections::.*HashMap as std::ops::Index>::index$', npath):
        return ('container', 'get')
    # raw heap -----------------------------------------------------------------------
    if re.search(r'(^|::)(__rust_alloc|__rust_alloc_zeroed|__rust_realloc|exchange_malloc|alloc_impl|alloc::alloc::alloc|alloc_zeroed|Global::alloc_impl_runtime|alloc_impl_runtime|box_new_uninit)$', npath) \
            or npath in ('alloc::alloc::alloc', 'std::alloc::alloc', 'std::alloc::alloc_zeroed', 'std::alloc::realloc'):
        return ('alloc', npath)
    if re.search(r'(^|::)(__rust_dealloc|dealloc|deallocate|dealloc_impl_runtime|deallocate_impl|box_free|drop_slow)$', npath):
        return ('free', npath)
    if re.search(r'^<alloc::alloc::Global as .*Allocator>::(allocate|allocate_zeroed|grow|shrink)', npath) or \
       re.search(r'^<std::alloc::Global as .*Allocator>::(allocate|allocate_zeroed|grow|shrink)', npath):
        return ('alloc', npath)
    return None


def analyse(g, roots, follow_drop=True, skip=lambda fn: False):
    """breadth-first reachability; returns (findings, stats). finding = dict(effect, detail, fn (local), line, chain)"""
    from collections import deque
    p = g.p
    par = {}
    q = deque()
    for r in roots:
        if r.key not in par:
            par[r.key] = None
            q.append(r.key)
    finds = []
    nfn = 0
    nsites = 0
    local = set()
    unknown = []
    exempt = []
    grows = []

    def chain(key):
        out = []
        while key is not None:
            f = p.fns.get(key)
            out.append(f.npath if f else key)
            nxt = par[key]
            key = nxt[0] if nxt else None
        return out[::-1]

    def blame(key, line):
        """nearest rawdio frame, and the line in it"""
        k, l = key, line
        while k is not None:
            f = p.fns.get(k)
            if f is not None and f.krate == 'rawdio' and f.kind != 'shim':
                return f, l
            nxt = par[k]
            if nxt is None:
                return f, l
            k, l = nxt
        return None, l

    while q:
        key = q.popleft()
        fn = p.fns.get(key)
        if fn is None:
            continue
        if skip(fn):
            continue
        nfn += 1
        if fn.krate == 'rawdio':
            local.add(fn.npath)
        for c, line, term in g.out(fn):
            nsites += 1
            k = c['k']
            np_ = strip_generics(c.get('path', '') or '')
            if k == 'drop' or k == 'shim':
                inst = c.get('inst')
                tgt = p.fns.get(inst)
                nn = tgt.npath if tgt else np_
                # dropping a value: decided by the drop glue
                lf = classify_drop(g, tgt, c) if (k == 'drop' or 'drop' in nn) else None
                if lf and k == 'drop' and term is not None:
                    why = drop_exempt(g, fn, term)
                    if why:
                        exempt.append((fn.npath, line, lf[1], why))
                        continue
                if lf:
                    f, l = blame(key, line)
                    finds.append(dict(effect=lf[0], detail=lf[1], fn=f, line=l, chain=chain(key) + [lf[1]]))
                    continue
                if inst and inst not in par:
                    par[inst] = (key, line)
                    q.append(inst)
                continue
            tgts = []
            if k == 'item':
                tgts = [c.get('inst')]
            elif k == 'virtual':
                tgts = g.virt(c)
            elif k == 'intrinsic' or k == 'llvm':
                continue
            if PANIC.search(np_):
                continue
            names = {np_}
            for t in tgts:
                if t in p.fns:
                    names.add(p.fns[t].npath)
            lf = None
            for nm in names:
                lf = lf or classify_leaf(g, c, nm, None)
            if lf:
                if lf[0] not in ('ok', 'container'):
                    f, l = blame(key, line)
                    finds.append(dict(effect=lf[0], detail=lf[1], fn=f, line=l, chain=chain(key) + [lf[1]]))
                if lf[0] in ('container', 'grow'):
                    for nm in names:
                        ed = elem_destroyed(g, c, nm)
                        if ed:
                            f, l = blame(key, line)
                            finds.append(dict(effect=ed[0], detail=ed[1], fn=f, line=l, chain=chain(key) + [ed[1]]))
                            break
                if lf[0] == 'grow' and fn.krate == 'rawdio':
                    grows.append((fn, line, term, lf[1]))
                continue
            if k == 'virtual' and not tgts:
                unknown.append((fn.npath, np_, line))
            if k in ('unresolved', 'ptr') and not re.match(r'^<?(core|std::slice|alloc)::', fn.npath):
                unknown.append((fn.npath, np_ or 'a function pointer', line))
            for t in tgts:
                if t and t not in par:
                    par[t] = (key, line)
                    q.append(t)
                if t and t not in p.fns:
                    if not re.match(r'^<?core::', np_):
                        unknown.append((fn.npath, np_, line))
    return finds, dict(functions=nfn, call_sites=nsites, local=sorted(local), unknown=unknown, par=par,
                       exempt=exempt, grows=grows)


DESTROYS = {'clear', 'truncate', 'retain', 'retain_mut', 'drain', 'dedup', 'resize', 'resize_with', 'fill', 'fill_with'}


def elem_destroyed(g, c, npath):
    """(effect, detail) when a container method destroys heap-owning elements in place"""
    meth = npath.rsplit('::', 1)[-1]
    if meth not in DESTROYS:
        return None
    for a in c.get('args') or []:
        if not isinstance(a, int):
            continue
        t = g.p.types.get(a)
        if t is None or 'alloc::Global' in t['s'] and t['s'].endswith('alloc::Global'):
            continue
        if t['k'] in ('closure', 'fndef'):
            continue
        o = type_owns_heap(g.p, a)
        if o:
            return ('free', '%s destroys elements of type %s' % (npath, t['s']))
    return None


def local_defs(fn):
    d = {}
    for b, (stm, t, line) in enumerate(fn.blocks):
        for s in stm:
            if s[0] == '=' and not s[1][1]:
                d.setdefault(s[1][0], []).append(('rv', s[2], b))
        if t[0] == 'call' and not t[3][1]:
            d.setdefault(t[3][0], []).append(('call', t, b))
    return d


def heapless_value(g, fn, op, defs, depth=0):
    """every definition of the operand is an enum variant or struct without heap-owning components"""
    if depth > 6:
        return False
    if op[0] == 'k':
        return True
    loc, proj = op[1]
    if proj:
        return False
    if loc <= (fn.argc or 0):
        return False
    ds = defs.get(loc)
    if not ds:
        return False
    for k, v, b in ds:
        if k == 'call':
            return False
        if v[0] == 'use':
            if not heapless_value(g, fn, v[1], defs, depth + 1):
                return False
        elif v[0] == 'agg':
            for o in v[2]:
                if not heapless_value(g, fn, o, defs, depth + 1):
                    t = op_type(g, fn, o)
                    if t is None or type_owns_heap(g.p, t):
                        return False
        else:
            return False
    return True


def op_type(g, fn, o):
    if o[0] == 'k':
        return o[1].get('ty')
    if o[1][1]:
        for e in reversed(o[1][1]):
            if e[0] == 'f':
                return e[2]
        return None
    return fn.locals[o[1][0]][0]


def successors(t):
    """(block, value of the switch or None) that control goes to after a terminator, unless it unwinds"""
    from interp import succs
    if t[0] == 'switch':
        return [(b, v) for v, b in t[2]] + [(t[3], None)]
    return [(b, None) for b in succs(t)]


def variants_at(p, fn, loc, n):
    """per block, the variants that a local of an enum type may have at its end, as tests of it tell; a drop flag is not followed"""
    every = frozenset(range(n))
    at = {0: every}
    todo = [0]
    rounds = 0
    while todo and rounds < 4000:
        rounds += 1
        b = todo.pop()
        cur = at[b]
        stm, t, line = fn.blocks[b]
        tests = {}
        for s in stm:
            if s[0] != '=':
                continue
            if s[1][0] == loc:
                cur = every
            if s[2][0] in ('ref', 'addr') and s[2][1][0] == loc:
                # a place that is written through later; a shared reference changes nothing
                t_ = p.types[fn.locals[s[1][0]][0]] if not s[1][1] else {}
                if t_.get('k') != 'ref' or t_.get('mut'):
                    return {}
            if s[2][0] == 'discr' and s[2][1] == [loc, []]:
                tests[s[1][0]] = True
        if t[0] == 'call' and t[3][0] == loc:
            cur = every
        sw = t[0] == 'switch' and t[1][0] in 'cm' and not t[1][1][1] and t[1][1][0] in tests
        vals = [v for v, _ in t[2]] if sw else []
        for nb, v in successors(t):
            nxt = cur
            if sw:
                nxt = cur & frozenset([v]) if v is not None else cur - frozenset(vals)
                if not nxt:
                    continue
            old = at.get(nb)
            new = nxt if old is None else old | nxt
            if new != old:
                at[nb] = new
                todo.append(nb)
    return at


def empty_variant(g, fn, term):
    """the variants the value can have where it is destroyed own nothing"""
    loc, proj = term[1][0], term[1][1]
    if proj or len(term) < 4:
        return False
    t = g.p.types[fn.locals[loc][0]]
    fields = t.get('fields', []) if t['k'] == 'adt' else []
    if len(fields) < 2:
        return False
    b = next((i for i, (stm, t_, line) in enumerate(fn.blocks) if t_ is term), None)
    if b is None:
        return False
    vs = variants_at(g.p, fn, loc, len(fields)).get(b)
    return bool(vs) and len(vs) < len(fields) and all(type_owns_heap(g.p, f) is None for v in vs for f in fields[v])


def drop_exempt(g, fn, term):
    """reason why this drop cannot free anything, or None"""
    place = term[1]
    loc = place[0]
    if empty_variant(g, fn, term):
        return 'the variants it can have there own no heap memory'
    if loc <= (fn.argc or 0):
        return None
    defs = local_defs(fn)
    ds = defs.get(loc)
    if not ds:
        return None
    why = None
    for k, v, b in ds:
        if k == 'rv':
            if v[0] == 'use' and heapless_value(g, fn, v[1], defs):
                continue
            if v[0] == 'agg' and all(heapless_value(g, fn, o, defs) or not type_owns_heap(g.p, op_type(g, fn, o)) for o in v[2]):
                why = why or 'a variant that owns no heap memory'
                continue
            if v[0] == 'use' and v[1][0] in 'cm' and not v[1][1][1]:
                # a moved temporary
                if drop_exempt(g, fn, ('drop', [v[1][1][0], []])):
                    why = 'moved'
                    continue
            return None
        c = v[1]
        np_ = strip_generics(c.get('path', ''))
        m = re.search(r'Sender::(try_send|send)$', np_)
        if m and len(v[2]) == 2 and heapless_value(g, fn, v[2][1], defs):
            why = 'the message handed back by a failed send owns no heap memory'
            continue
        if re.search(r'(HashMap|BTreeMap)::insert$', np_):
            why = 'the value displaced by a map insert (none: every key is unique or was removed before)'
            continue
        if re.search(r'(Sender|SendError|TrySendError)::into_inner$', np_):
            return None
        return None
    return why


HEAPY = re.compile(r'^(std|alloc)::(boxed::Box|vec::Vec|string::String|rc::Rc|sync::Arc|collections::(\w+::)*(HashMap|HashSet|VecDeque|BTreeMap|BTreeSet|BinaryHeap|LinkedList)|vec::IntoIter)')
CHANNEL = re.compile(r'^crossbeam.*::(Sender|Receiver)<|^crossbeam.*::(Sender|Receiver)$')


def type_owns_heap(p, ty, seen=None):
    """name of a heap-owning component of the type, or None (structural, through fields and enum payloads)"""
    if seen is None:
        seen = set()
    if ty is None or ty in seen:
        return None
    seen.add(ty)
    t = p.types[ty]
    k = t['k']
    if k == 'adt':
        path = t['path']
        s = t['s']
        if HEAPY.match(path) or HEAPY.match(s):
            return s
        if CHANNEL.match(s) or CHANNEL.match(path) or re.match(r'^crossbeam.*(Sender|Receiver)', path):
            return s
        if path.endswith('ManuallyDrop') or path.endswith('MaybeUninit') or path.endswith('PhantomData'):
            return None
        for v in t.get('fields', []):
            for f in v:
                r = type_owns_heap(p, f, seen)
                if r:
                    return r
        return None
    if k == 'tuple':
        for f in t['es']:
            r = type_owns_heap(p, f, seen)
            if r:
                return r
    if k == 'closure':
        return type_owns_heap(p, t['up'], seen)
    if k in ('array', 'slice'):
        return type_owns_heap(p, t['e'], seen)
    if k == 'dyn':
        return t['s']
    return None


def classify_drop(g, tgt, c):
    ty = c.get('ty')
    if ty is None:
        return None
    r = type_owns_heap(g.p, ty)
    if r:
        return ('free', 'destroys a value of type %s%s' % (g.p.tystr(ty), '' if r == g.p.tystr(ty) else ' (which owns %s)' % r))
    return None


# -- growth of persistent containers ------------------------------------------------------------------
CONTAINER = re.compile(r'^(std|alloc)::(vec::Vec|collections::(\w+::)*(HashMap|HashSet|VecDeque|BinaryHeap)|string::String)\b')
EMPTY = re.compile(r'(Vec|HashMap|HashSet|VecDeque|BinaryHeap|String)::new$|<.* as (std|core)::default::Default>::default$'
                   r'|^(std|core)::default::Default::default$'
                   r'|(std|core)::mem::take$')
PASS = re.compile(r'(::|^)(deref|deref_mut|as_mut|as_ref|borrow_mut|borrow|get_mut|unwrap|expect|entry|iter_mut|next|into_iter|'
                  r'last_mut|first_mut|index_mut|by_ref|from|into|or_default|or_insert|or_insert_with|get_unchecked_mut|values_mut)$')


def place_field(g, fn, place):
    """innermost (adt type path, variant, field index) named by a place, or None when it names no field"""
    p = g.p
    ty = fn.locals[place[0]][0]
    var = 0
    got = None
    for e in place[1]:
        t = p.types.get(ty, {})
        if e[0] == '*':
            ty = t.get('e', ty)
            if t.get('k') == 'adt':
                # a box
                fl = t.get('args') or []
                ty = fl[0] if fl else ty
            var = 0
        elif e[0] == 'd':
            var = e[1]
        elif e[0] == 'f':
            if t.get('k') == 'adt':
                got = (t['path'], var, e[1])
            ty = e[2]
            var = 0
        elif e[0] in ('i', 'ci', 'ss'):
            ty = t.get('e', ty)
    return got


def origins(g, fn, op, par_calls, depth=0, seen=None):
    """where the container a call receives lives: ('field', adt, variant, i) | ('local', fn, name) | ('unknown', why)"""
    if seen is None:
        seen = set()
    if op[0] == 'k':
        return {('unknown', 'constant', '')}
    loc, proj = op[1]
    key = (fn.key, loc, str(proj))
    if key in seen or depth > 25:
        return set()
    seen.add(key)
    pf = place_field(g, fn, op[1])
    if pf is not None and not pf[0].startswith(('std::', 'core::', 'alloc::')) and pf[0].split('::')[0] == 'rawdio':
        return {('field',) + pf}
    ty = fn.locals[loc][0]
    t = g.p.types[ty]
    out = set()
    if 0 < loc <= (fn.argc or 0):
        for caller, ops in par_calls(fn):
            if fn.parent is not None and '{closure' in fn.npath:
                out |= {('unknown', fn.npath, 'closure argument')}
                continue
            if loc - 1 < len(ops):
                out |= origins(g, caller, ops[loc - 1], par_calls, depth + 1, seen)
        return out or {('unknown', fn.npath, 'argument')}
    ds = local_defs(fn).get(loc, [])
    if t['k'] not in ('ref', 'ptr') and not proj:
        # the container itself is a local
        if CONTAINER.match(t['s']):
            moved = set()
            for k, v, b in ds:
                if k == 'rv' and v[0] == 'use' and v[1][0] in 'cm':
                    moved |= origins(g, fn, v[1], par_calls, depth + 1, seen)
                else:
                    moved |= {('local', fn.npath, t['s'])}
            return moved
    for k, v, b in ds:
        if k == 'rv':
            if v[0] in ('ref', 'addr'):
                out |= origins(g, fn, ['c', v[1]], par_calls, depth + 1, seen)
            elif v[0] in ('use', 'cast'):
                o = v[1] if v[0] == 'use' else v[2] if isinstance(v[2], list) else v[1]
                out |= origins(g, fn, o, par_calls, depth + 1, seen)
            elif v[0] == 'agg':
                for o in v[2]:
                    if o[0] in 'cm':
                        out |= origins(g, fn, o, par_calls, depth + 1, seen)
            else:
                out |= {('unknown', fn.npath, v[0])}
        else:
            n = strip_generics(v[1].get('path', ''))
            if v[2] and PASS.search(n):
                out |= origins(g, fn, v[2][0], par_calls, depth + 1, seen)
            else:
                tg = g.p.fns.get(v[1].get('inst'))
                if tg is not None and tg.krate == 'rawdio' and tg.blocks:
                    out |= origins(g, tg, ['c', [0, []]], par_calls, depth + 1, seen)
                else:
                    out |= {('local', fn.npath, n)}
    return out or {('unknown', fn.npath, 'no definition')}


def reserved(g, fn, op, depth=0):
    """None when the operand's container is built with room; else a reason"""
    if op[0] == 'k' or depth > 8:
        return None
    loc, proj = op[1]
    if proj or 0 < loc <= (fn.argc or 0):
        return None
    # filled or reserved in place before it is stored
    for stm, t, line in fn.blocks:
        if t[0] == 'call' and t[2]:
            n = strip_generics(t[1].get('path', ''))
            if re.search(r'::(reserve|reserve_exact|resize|resize_with|extend|push|insert|append)$', n):
                for o in origins_local(fn, t[2][0]):
                    if o == loc:
                        return None
    for k, v, b in local_defs(fn).get(loc, []):
        if k == 'rv':
            if v[0] == 'use':
                r = reserved(g, fn, v[1], depth + 1)
                if r:
                    return r
            continue
        n = strip_generics(v[1].get('path', ''))
        if n.endswith('::with_capacity') and v[2][0][0] == 'k' and str(v[2][0][1].get('v')) == '0':
            return 'with_capacity(0)'
        if EMPTY.search(n) and CONTAINER.match(fn.locals[loc][0] and g.p.types[fn.locals[loc][0]]['s'] or ''):
            return n
        tg = g.p.fns.get(v[1].get('inst'))
        if tg is not None and tg.krate == 'rawdio' and tg.blocks:
            if n.endswith('::default'):
                return None
            r = reserved(g, tg, ['c', [0, []]], depth + 1)
            if r:
                return r
    return None


def origins_local(fn, op):
    """locals whose address the operand holds (this function only)"""
    if op[0] == 'k':
        return set()
    out = set()
    st = [op[1][0]]
    seen = set()
    d = local_defs(fn)
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, v, b in d.get(l, []):
            if k == 'rv' and v[0] in ('ref', 'addr'):
                out.add(v[1][0])
                st.append(v[1][0])
            elif k == 'rv' and v[0] == 'use' and v[1][0] in 'cm':
                st.append(v[1][1][0])
    return out


def growth(g, stats, allfns):
    """findings for containers that grow on the audio thread and are not built with room for it"""
    callers = {}
    par = stats['par']
    for k in par:
        f = g.p.fns.get(k)
        if f is None or not f.blocks:
            continue
        for c, line, term in g.out(f):
            if c['k'] in ('item', 'virtual') and term is not None and term[0] == 'call':
                tg = [c.get('inst')] if c['k'] == 'item' else g.virt(c)
                for t in tg:
                    callers.setdefault(t, []).append((f, term[2]))

    def par_calls(fn):
        return callers.get(fn.key, [])
    finds = []
    fields = {}
    for fn, line, term, detail in stats['grows']:
        if term is None or not term[2]:
            continue
        for o in sorted(origins(g, fn, term[2][0], par_calls), key=str):
            if o[0] == 'field':
                fields.setdefault(o[1:], []).append((fn, line, detail))
            elif o[0] == 'local':
                finds.append(dict(effect='alloc', detail='%s on a container created during rendering (%s)' % (detail, o[2]),
                                  fn=fn, line=line, chain=[fn.npath, detail]))
            else:
                finds.append(dict(effect='alloc', detail='%s on a container of unknown origin' % detail,
                                  fn=fn, line=line, chain=[fn.npath, detail]))
    nctor = 0
    for (adt, var, fi), uses in sorted(fields.items(), key=str):
        info = g.p.adts.get(adt)
        fname = info['variants'][var]['f'][fi] if info else str(fi)
        for f in allfns:
            if not f.blocks:
                continue
            for b, (stm, t, l) in enumerate(f.blocks):
                for s in stm:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt':
                        ty = g.p.types[s[2][1][1]]
                        if ty['path'] == adt and s[2][1][2] == var and fi < len(s[2][2]):
                            nctor += 1
                            why = reserved(g, f, s[2][2][fi])
                            if why:
                                fn, line, detail = uses[0]
                                finds.append(dict(effect='alloc', detail='grows %s.%s, which %s builds without capacity (%s)'
                                                  % (adt.rsplit('::', 1)[-1], fname, f.npath, why), fn=fn, line=line,
                                                  chain=[fn.npath, detail]))
                    # a container replaced on the audio thread by one without room
        for k in par:
            f = g.p.fns.get(k)
            if f is None or not f.blocks or f.krate != 'rawdio':
                continue
            for stm, t, l in f.blocks:
                for s in stm:
                    if s[0] == '=' and s[1][1] and place_field(g, f, s[1]) == (adt, var, fi) and s[1][1][-1][0] == 'f':
                        why = reserved(g, f, s[2][1]) if s[2][0] == 'use' else None
                        if why:
                            finds.append(dict(effect='alloc', detail='replaces %s.%s by a container without capacity' % (adt.rsplit('::', 1)[-1], fname),
                                              fn=f, line=l, chain=[f.npath]))
    return finds, fields, nctor


# -- busy waiting -----------------------------------------------------------------------------------
RETRY = re.compile(r'::(try_send|try_recv|compare_exchange|compare_exchange_weak|try_lock|try_read|try_write)$')
POLL = re.compile(r'::(load|is_empty|is_full|len|spin_loop|is_finished|is_disconnected|elapsed|now|capacity|fence|yield_now)$')


def busy_waits(g, keys, loads_too=True):
    """loops that repeat a non-blocking attempt until it succeeds, or poll shared state without doing work"""
    from interp import cfg, succs
    finds = []
    nloops = 0
    for k in sorted(keys):
        f = g.p.fns.get(k)
        if f is None or not f.blocks or f.krate != 'rawdio':
            continue
        live = live_blocks(f, g.p)
        succ = {b: [s for s in succs(f.blocks[b][1]) if s in live] for b in live}

        def reach(start, goal):
            seen = set()
            st = [start]
            while st:
                x = st.pop()
                if x == goal:
                    return True
                if x in seen or x not in succ:
                    continue
                seen.add(x)
                st.extend(succ[x])
            return False
        for b in sorted(live):
            stm, t, line = f.blocks[b]
            if t[0] != 'call':
                continue
            n = strip_generics(t[1].get('path', ''))
            if not RETRY.search(n) or not any(reach(s, b) for s in succ[b]):
                continue
            nloops += 1
            # the edge on which the attempt failed
            derived = {t[3][0]}
            changed = True
            bools = {}
            while changed:
                changed = False
                for bb in live:
                    st2, t2, l2 = f.blocks[bb]
                    for s in st2:
                        if s[0] == '=' and not s[1][1]:
                            rv = s[2]
                            src = None
                            if rv[0] in ('use', 'ref') and (rv[1][1] if rv[0] == 'use' and rv[1][0] in 'cm' else rv[1] if rv[0] == 'ref' else None):
                                pl = rv[1][1] if rv[0] == 'use' else rv[1]
                                src = pl[0]
                                if src in derived and s[1][0] not in derived and not [e for e in pl[1] if e[0] == 'f']:
                                    derived.add(s[1][0])
                                    changed = True
                                if src in bools and s[1][0] not in bools:
                                    bools[s[1][0]] = bools[src]
                                    changed = True
                            if rv[0] == 'discr' and rv[1][0] in derived and s[1][0] not in bools:
                                bools[s[1][0]] = 1      # Err has discriminant 1
                                changed = True
                            if rv[0] == 'un' and rv[1] == 'Not' and rv[2][0] in 'cm' and rv[2][1][0] in bools and s[1][0] not in bools:
                                bools[s[1][0]] = 1 - bools[rv[2][1][0]]
                                changed = True
                    if t2[0] == 'call' and t2[2] and t2[2][0][0] in 'cm' and t2[2][0][1][0] in derived:
                        n2 = strip_generics(t2[1].get('path', ''))
                        d = t2[3][0]
                        if re.search(r'::is_(err|none)$', n2) and d not in bools:
                            bools[d] = 1 if n2.endswith('is_err') else 1
                            changed = True
                        elif re.search(r'::is_(ok|some)$', n2) and d not in bools:
                            bools[d] = 0
                            changed = True
                        elif re.search(r'Result::ok$', n2) and d not in bools:
                            pass
                        elif re.search(r'Result::(map|map_err|as_ref|copied|cloned)$', n2) and d not in derived:
                            derived.add(d)
                            changed = True
            bad = None
            for bb in live:
                st2, t2, l2 = f.blocks[bb]
                if t2[0] != 'switch' or t2[1][0] not in 'cm' or t2[1][1][1]:
                    continue
                l = t2[1][1][0]
                if l not in bools:
                    continue
                failv = bools[l]
                tgt = t2[3]
                for val, to in t2[2]:
                    if int(val) == failv:
                        tgt = to
                if reach(tgt, b):
                    bad = l2
            if bad is not None:
                finds.append(dict(effect='block', detail='busy-waits: repeats %s while it fails' % n, fn=f, line=line, chain=[f.npath, n]))
        # polling loops: every call in the cycle only observes shared state
        done = set()
        for b in sorted(live):
            if b in done or not any(reach(s, b) for s in succ[b]):
                continue
            scc = {x for x in live if reach_in(succ, b, x) and reach_in(succ, x, b)}
            done |= scc
            nloops += 1
            calls = []
            writes = False
            for x in scc:
                t = f.blocks[x][1]
                if t[0] == 'call':
                    calls.append(strip_generics(t[1].get('path', '')))
                for s in f.blocks[x][0]:
                    if s[0] == '=' and any(e[0] == '*' for e in s[1][1]):
                        writes = True
            if calls and all(POLL.search(c) for c in calls) and any(re.search(r'atomic|channel|hint|thread|time', c) for c in calls) and not writes:
                cnt = loop_counts(f, scc)
                if not cnt:
                    finds.append(dict(effect='block', detail='busy-waits on %s' % ', '.join(sorted(set(calls))), fn=f,
                                      line=f.blocks[min(scc)][2], chain=[f.npath]))
    return finds, nloops


def reach_in(succ, a, z):
    seen = set()
    st = list(succ.get(a, []))
    while st:
        x = st.pop()
        if x == z:
            return True
        if x in seen or x not in succ:
            continue
        seen.add(x)
        st.extend(succ[x])
    return False


def loop_counts(f, scc):
    """the loop advances a local counter"""
    for x in scc:
        for s in f.blocks[x][0]:
            if s[0] == '=' and s[2][0] in ('bin', 'cbin') and s[2][1].startswith('Add') and not s[1][1]:
                return True
    return False
