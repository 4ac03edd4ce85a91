"""Loads the driver's dump: types, ADTs, monomorphic function instances, vtables."""
import json, re


def strip_generics(p):
    """drop every ::<...> and <'a> style generic list that is not a leading <X as T>"""
    out = []
    i = 0
    n = len(p)
    # keep the leading <X as Y> qualifier but strip inside it
    if p.startswith('<'):
        d = 0
        for j, ch in enumerate(p):
            if ch == '<':
                d += 1
            elif ch == '>' and p[j - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner = p[1:j]
        # split at top-level ' as '
        d = 0
        k = None
        for q in range(len(inner)):
            ch = inner[q]
            if ch in '<([':
                d += 1
            elif ch in '>)]':
                d -= 1
            elif d == 0 and inner.startswith(' as ', q):
                k = q
                break
        rest = strip_generics(p[j + 1:]) if j + 1 < n else ''
        if k is None:
            return '<' + _strip(inner) + '>' + rest
        return '<' + _strip(inner[:k]) + ' as ' + _strip(inner[k + 4:]) + '>' + rest
    return _strip(p)


def _strip(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<':
            if d == 0 and out[-2:] == [':', ':']:
                out = out[:-2]
            d += 1
        elif ch == '>' and i > 0 and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


class Fn:
    __slots__ = ('key', 'path', 'npath', 'krate', 'kind', 'file', 'line', 'args', 'argc', 'locals',
                 'blocks', 'spread', 'parent', 'calls', 'trait', 'selfty', 'name', '_cfg')

    def __init__(self, r):
        self.key = r.get('key') or ('generic:' + r['path'])
        self.path = r['path']
        self.npath = strip_generics(r['path'])
        self.krate = r['krate']
        self.kind = r.get('kind', 'generic')
        self.file = r.get('file', '')
        self.line = r.get('line', 0)
        self.args = r.get('args', [])
        self.argc = r.get('argc')
        self.locals = r.get('locals')
        self.blocks = r.get('blocks')
        self.spread = r.get('spread')
        self.parent = r.get('parent', '')
        self.calls = r.get('calls')
        self.name = self.npath.rsplit('::', 1)[-1]
        self.trait = None
        self.selfty = None
        self._cfg = None
        if self.npath.startswith('<') and ' as ' in self.npath:
            m = re.match(r'^<(.*) as (.*)>::[^>]*$', self.npath)
            if m:
                self.selfty, self.trait = m.group(1), m.group(2)

    @property
    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        return 'Fn(%s)' % self.npath


class Prog:
    def __init__(self, path):
        self.types = {}
        self.adts = {}
        self.fns = {}
        self.generic = {}
        self.local_fns = []
        self.vtables = []
        self.impls = []
        self.roots = []
        self.consts = []
        end = False
        with open(path) as f:
            for l in f:
                r = json.loads(l)
                k = r['r']
                if k == 'inst':
                    self.fns[r['key']] = Fn(r)
                elif k == 'ty':
                    self.types[r['id']] = r
                elif k == 'adt':
                    self.adts[r['path']] = r
                elif k == 'generic':
                    f_ = Fn(r)
                    self.generic[f_.npath] = f_
                elif k == 'fn':
                    r['npath'] = strip_generics(r['path'])
                    self.local_fns.append(r)
                elif k == 'vtable':
                    self.vtables.append(r)
                elif k == 'impl':
                    self.impls.append(r)
                elif k == 'root':
                    self.roots.append(r['inst'])
                elif k == 'const':
                    self.consts.append(r)
                elif k == 'end':
                    end = True
        if not end:
            raise RuntimeError('truncated dump')
        self.by_npath = {}
        for f in self.fns.values():
            self.by_npath.setdefault(f.npath, []).append(f)
        self.vt = {}
        for v in self.vtables:
            self.vt.setdefault(v['trait'], []).append(v)

    # -- queries -------------------------------------------------------
    def local(self):
        return [f for f in self.fns.values() if f.krate == 'rawdio']

    def trait_method(self, trait, method, selfty=None):
        """instances of <X as trait>::method in the local crate; names are last path segments"""
        out = []
        for f in self.fns.values():
            if f.trait and f.krate == 'rawdio' and f.name == method and f.trait.rsplit('::', 1)[-1] == trait:
                if selfty is None or f.selfty.rsplit('::', 1)[-1] == selfty:
                    out.append(f)
        return sorted(out, key=lambda f: f.npath)

    def method(self, ty, name):
        """inherent method of a local type"""
        out = []
        for f in self.fns.values():
            if f.krate == 'rawdio' and f.trait is None and f.npath.endswith('::%s::%s' % (ty, name)) and f.kind == 'item':
                out.append(f)
        return sorted(out, key=lambda f: f.npath)

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]['s']

    def adt_name(self, i):
        t = self.types[i]
        return t['path'].rsplit('::', 1)[-1] if t['k'] == 'adt' else None

    def field_index(self, adt_path_suffix, field, variant=None):
        for p, a in self.adts.items():
            if p == adt_path_suffix or p.endswith('::' + adt_path_suffix):
                for vi, v in enumerate(a['variants']):
                    if variant is None or v['n'] == variant:
                        if field in v['f']:
                            return vi, v['f'].index(field)
        return None
