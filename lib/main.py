import hashlib, json, os, subprocess, sys, time, traceback
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
from core import Result, NoAnswer

REPO = os.environ.get('RAWDIO_REPO', '/repo')


def content_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, 'src'), os.path.join(here, 'driver', 'src')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock'), os.path.join(here, 'lib', 'extract.sh'),
              os.path.join(here, 'driver', 'Cargo.toml'), os.path.join(here, 'driver', 'rust-toolchain.toml')]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            h.update(b'<missing>')
        h.update(b'\0')
    return h.hexdigest()[:24]


def dump():
    """the typed program of /repo's current source; reuses a dump of byte-identical sources"""
    b = os.path.join(here, 'build')
    os.makedirs(b, exist_ok=True)
    hsh = content_hash()
    out = os.path.join(b, 'mir-%s.jsonl' % hsh)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([os.path.join(here, 'lib', 'extract.sh'), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(tmp):
            sys.stdout.write(r.stdout.decode('utf8', 'replace')[-4000:])
            raise NoAnswer('the sources could not be type-checked and dumped (rc %d)' % r.returncode)
        if content_hash() != hsh:
            os.unlink(tmp)
            raise NoAnswer('the sources changed while they were read')
        os.rename(tmp, out)
        olds = sorted((os.path.join(b, f) for f in os.listdir(b) if f.startswith('mir-') and f.endswith('.jsonl')),
                      key=os.path.getmtime)
        for f in olds[:-40]:
            os.unlink(f)
    return out, hsh


def known():
    out = set()
    p = os.path.join(here, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = l[len('known: '):]
                pid, key = d.split(' ', 1)
                out.add((pid.split('=', 1)[1], key.split('key=', 1)[1]))
    return out


def main():
    if len(sys.argv) < 2:
        print('usage: check ID [quick|thorough]')
        return 2
    pid = sys.argv[1]
    if pid == '--build':
        print(dump()[0])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    res = None
    try:
        import rules
        if pid not in rules.RULES:
            print('no rule for property %s' % pid)
            return 2
        res = Result()
        path, hsh = dump()
        from prog import Prog
        prog = Prog(path)
        rules.RULES[pid](prog, res, tier)
        for what, got, least in res.floors:
            if got < least:
                raise NoAnswer('%s: found %d, need at least %d' % (what, got, least))
    except NoAnswer as e:
        print('NO-ANSWER property=%s %s' % (pid, e))
        kn = known() if res is not None else set()
        if res is None or all((pid, f.key) in kn for f in res.findings):
            return 2
        # what was found until then is a violation all the same
    kn = known()
    viol = []
    seen = set()
    for f in res.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        if (pid, f.key) in kn:
            print('KNOWN-FINDING: property=%s %s: %s [%s] (%s)' % (pid, f.construct, f.detail, f.rule, f.where))
        else:
            viol.append(f)
    rdir = os.path.join(here, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in viol:
        n = hashlib.sha1(f.key.encode()).hexdigest()[:12]
        rp = os.path.join(rdir, '%s-%s.json' % (pid, n))
        with open(rp, 'w') as o:
            json.dump(dict(property=pid, rule=f.rule, construct=f.construct, detail=f.detail, where=f.where, path=f.path,
                           key=f.key, sources=hsh), o, indent=1)
        print('%s: %s at %s' % (f.rule, f.construct, f.where))
        print('    %s' % f.detail)
        for s in f.path[:30]:
            print('      %s' % s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    by = {}
    for r, c, w in res.obligations:
        by.setdefault(r, []).append('%s: %s' % (c, w))
    cov = dict(res.cov)
    cov.setdefault('explanation', '; '.join(res.notes) or 'see obligations')
    cov['sources_sha256'] = hsh
    cov['obligations_total'] = len(res.obligations) + len(res.findings)
    cov['obligations_established'] = len(res.obligations)
    cov['obligations_by_rule'] = {r: dict(count=len(v), examples=v[:40]) for r, v in by.items()}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              wall_s=round(time.time() - t0, 3), violations=len(viol), assumptions=res.assumptions)
    with open(os.path.join(here, 'evidence', '%s.json' % pid), 'w') as o:
        json.dump(ev, o, indent=1)
    print('property=%s %s: %d obligations established, %d violations, %d known (%.1f s)' %
          (pid, 'VIOLATED' if viol else 'held', len(res.obligations), len(viol), len(seen) - len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)
