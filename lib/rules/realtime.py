"""R01-R03: what the audio thread and the control thread may reach."""
import effects


def audio_roots(prog, res):
    roots = prog.trait_method('AudioProcess', 'process')
    res.need('implementations of the audio callback', len(roots))
    return roots


def analysed(prog, res, roots, skip=lambda f: False):
    g = effects.Graph(prog)
    finds, st = effects.analyse(g, roots, skip=skip)
    res.cov.update(functions=st['functions'], call_sites=st['call_sites'], crate_functions=len(st['local']),
                   roots=[r.npath for r in roots][:200])
    return g, finds, st


def name(f):
    return f.npath if f is not None else '?'


def owner(f):
    """the type whose method the function is (a helper keeps the identity of its type)"""
    n = name(f)
    if f is not None and f.selfty:
        return f.selfty
    while '::{closure' in n:
        n = n.rsplit('::{closure', 1)[0]
    return n.rsplit('::', 1)[0]


def report(res, rule, finds, effs, who=name):
    for x in finds:
        if x['effect'] in effs:
            f = x['fn']
            res.bad(rule, who(f), x['detail'], '%s:%s' % (f.file if f else '?', x['line']), x['chain'])


def r01(prog, res, tier):
    """the audio callback reaches no blocking primitive and no retry loop"""
    roots = audio_roots(prog, res)
    g, finds, st = analysed(prog, res, roots)
    report(res, 'blocking-call', finds, ('block',))
    bw, n = effects.busy_waits(g, st['par'])
    report(res, 'busy-wait', bw, ('block',))
    for fn, callee, line in st['unknown']:
        res.bad('unknown-callee', fn, 'calls %s, whose body is not available' % callee)
    for f in st['local']:
        res.ok('blocking-call', f, 'no blocking primitive is called in or below it')
    res.cov['loops_checked_for_busy_waiting'] = n
    res.need('crate functions the audio callback reaches', len(st['local']), 150)
    res.notes.append('Reachability over the monomorphic call graph (dynamic calls resolved through every vtable) from the audio '
                     'callback; each reached call site is classified against the blocking primitives of std and crossbeam, '
                     'bounded-channel sends by the construction sites of their channel, and each loop for retry-until-success.')
    res.assumptions += ['crossbeam\'s non-blocking operations (try_send, try_recv, unbounded send) do not block',
                        'panicking and unwinding paths are outside the property']


def r02(prog, res, tier):
    roots = audio_roots(prog, res)
    g, finds, st = analysed(prog, res, roots)
    report(res, 'heap-allocation', finds, ('alloc', 'chan-alloc'))
    report(res, 'heap-release', finds, ('free',))
    gf, fields, nctor = effects.growth(g, st, prog.local())
    report(res, 'growth-without-capacity', gf, ('alloc',))
    for fn, callee, line in st['unknown']:
        res.bad('unknown-callee', fn, 'calls %s, whose body is not available' % callee)
    for f in st['local']:
        res.ok('heap-allocation', f, 'no allocation or release in or below it')
    for (adt, var, fi), uses in sorted(fields.items(), key=str):
        res.ok('growth-without-capacity', '%s field %d' % (adt, fi), 'built with capacity wherever it is built')
    res.cov['constructor_sites'] = nctor
    res.cov['exempted_drops'] = ['%s: %s (%s)' % (a, c, w) for a, b, c, w in st['exempt']]
    res.need('crate functions the audio callback reaches', len(st['local']), 150)
    res.need('growing containers traced to their constructors', len(fields), 5)
    res.notes.append('Same call graph; every reached call and drop is classified as allocating, releasing or neither from the type it '
                     'destroys or the allocator entry it is. Containers that live in the engine may only grow when every construction '
                     'of the struct that holds them reserves room.')
    res.assumptions += ['the reserved capacities are not exceeded (they are documented maxima)',
                        'the block list inside crossbeam\'s unbounded channel is outside the property',
                        'panicking and unwinding paths are outside the property']


def r03(prog, res, tier):
    audio = audio_roots(prog, res)
    g = effects.Graph(prog)
    _, sa = effects.analyse(g, audio)
    ak = {a.key for a in audio}
    reach = {r['npath'] for r in prog.local_fns if r['reach']}
    roots = [f for f in prog.local() if f.npath in reach and f.key not in sa['par']]
    finds, st = effects.analyse(g, roots, skip=lambda fn: fn.key in ak)
    finds = [x for x in finds if not (x['effect'] == 'block' and 'thread::' in x['detail'] and 'spawn' in x['detail'])]
    # what only the spawned collector thread runs is not the control thread's time
    report(res, 'blocking-call', finds, ('block',), owner)
    bw, n = effects.busy_waits(g, st['par'])
    report(res, 'busy-wait', bw, ('block',))
    for r in roots:
        res.ok('blocking-call', r.npath, 'reaches no blocking primitive')
    res.cov.update(functions=st['functions'], call_sites=st['call_sites'], public_functions=len(roots), loops_checked_for_busy_waiting=n)
    res.need('public control functions', len(roots), 60)
    res.notes.append('Reachability from every externally reachable function that the audio callback does not itself run, with the '
                     'same classification of blocking primitives as R01.')
    res.assumptions += ['starting the collector thread is not counted as blocking', 'panicking paths are outside the property']


RULES = {'R01': r01, 'R02': r02, 'R03': r03}
