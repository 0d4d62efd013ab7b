"""Resolved-program model of /repo: extracts facts with the clang-based tool
(tool/hfacts.cc) from the CURRENT source of /repo and indexes them."""
import os, sys, json, hashlib, subprocess, pickle, re, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
HF = os.path.join(CACHE, 'hfacts')

LIB = 'libhfst/src/'
IMPL = LIB + 'implementations/'
OL = IMPL + 'optimized-lookup/'
PARS = LIB + 'parsers/'
TOOLS = 'tools/src/'


class AnalysisBroken(Exception):
    pass


def ensure_tool():
    subprocess.check_call(['bash', os.path.join(VERIF, 'tool', 'build.sh')])


GEN = os.path.join(CACHE, 'gen')


def _regen_grammars():
    """bison headers needed by a few translation units; always generated from the
    current .yy files (never from the git-ignored products in the tree)."""
    pdir = os.path.join(REPO, PARS)
    os.makedirs(GEN, exist_ok=True)
    for base, pref in (('xfst-parser', 'hxfst'), ('xre_parse', 'xre'), ('pmatch_parse', 'pmatch'),
                       ('lexc-parser', 'hlexc')):
        src = os.path.join(pdir, base + '.yy')
        if not os.path.exists(src):
            continue
        out = os.path.join(GEN, base + '.cc')
        h = hashlib.sha1(open(src, 'rb').read()).hexdigest()
        stamp = out + '.stamp'
        if os.path.exists(stamp) and open(stamp).read() == h:
            continue
        am = open(os.path.join(pdir, 'Makefile.am')).read()
        subprocess.run(['bison', '-d', '-p', pref, '-o', out, src], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        open(stamp, 'w').write(h)


def _includes_fst(path):
    try:
        t = open(path, errors='replace').read()
    except OSError:
        return False
    return re.search(r'#\s*include\s*<fst/', t) is not None or 'TropicalWeightTransducer.cc' in path


def flags_for(rel):
    p = os.path.join(REPO, rel)
    std = '-std=c++17'
    f = [std, '-DHAVE_CONFIG_H', '-I' + REPO, '-I' + REPO + '/libhfst/src',
         '-I' + REPO + '/libhfst/src/parsers', '-I' + REPO + '/back-ends']
    if rel.startswith('tools/'):
        f += ['-I' + REPO + '/tools/src', '-I' + REPO + '/tools/src/parsers', '-I' + REPO + '/tools/src/hfst-proc',
              '-I' + REPO + '/tools/src/hfst-twolc/src', '-I' + REPO + '/tools/src/hfst-tagger/src']
    f += ['-I' + os.path.join(VERIF, 'tool', 'fallback'), '-I' + GEN]
    return f


_HDR = None


def _hdr_hash():
    global _HDR
    if _HDR is None:
        h = hashlib.sha1()
        for top in ('libhfst/src', 'tools/src', 'back-ends'):
            for d, dn, fs in os.walk(os.path.join(REPO, top)):
                dn.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.hh', '.hpp')):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        for f in ('tool/hfacts.cc',):
            h.update(open(os.path.join(VERIF, f), 'rb').read())
        h.update(REPO.encode())
        _HDR = h.hexdigest()
    return _HDR


def extract(rel, extra=()):
    path = os.path.join(REPO, rel)
    if not os.path.exists(path):
        raise AnalysisBroken('source file %s does not exist' % rel)
    # .cc files textually included by other sources (e.g. convert.cc) are covered by header hash + own content
    key = hashlib.sha1((_hdr_hash() + rel + ' '.join(extra)).encode() + open(path, 'rb').read()).hexdigest()
    cp = os.path.join(CACHE, 'tu', key)
    if os.path.exists(cp):
        with open(cp, 'rb') as fh:
            return pickle.load(fh)
    cmd = [HF, '--root=' + REPO + '/', '--excl=' + REPO + '/back-ends', path, '--'] + flags_for(rel) + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=CACHE)
    if r.returncode != 0:                # the build's compiler falls back to C++20 in the same way
        cmd20 = [x.replace('-std=c++17', '-std=c++20') for x in cmd]
        r20 = subprocess.run(cmd20, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=CACHE)
        if r20.returncode == 0:
            r = r20
    if r.returncode != 0 or not r.stdout.strip():
        raise AnalysisBroken('cannot parse %s: %s' % (rel, r.stderr.decode(errors='replace')[-1500:]))
    recs = json.loads(r.stdout)
    os.makedirs(os.path.join(CACHE, 'tu'), exist_ok=True)
    tmp = cp + '.%d' % os.getpid()
    with open(tmp, 'wb') as fh:
        pickle.dump(recs, fh, protocol=4)
    os.replace(tmp, cp)
    return recs


def extract_all(rels, optional=False, extra=()):
    """(files that parse, [(file, error)]); extracts in parallel and fills the cache"""
    ensure_tool()
    _regen_grammars()
    _hdr_hash()

    def one(r):
        try:
            extract(r, extra)
            return None
        except AnalysisBroken as e:
            if not optional:
                raise
            return str(e)
    with ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(one, rels))
    return [r for r, e in zip(rels, errs) if e is None], [(r, e) for r, e in zip(rels, errs) if e is not None]


_UNBUILT = ('HfstXeroxRulesTest.cc', 'MyTransducerLibraryTransducer.cc', 'XfsmTransducer.cc', 'FunctionalTransducer.cc', 'hfst-binary-tool.cc',
       'hfst-preprocess-for-optimized-lookup-format.cc', 'hfst-unary-tool.cc', 'test.cc', 'init_help.cc')


def sources():
    """every hand-written source file of the library and the tools"""
    R0 = REPO + '/'
    L = []
    for pat in ('libhfst/src/*.cc', 'libhfst/src/implementations/*.cc', 'libhfst/src/implementations/optimized-lookup/*.cc', 'libhfst/src/parsers/*.cc',
                'libhfst/src/parsers/*/*.cc', 'libhfst/src/c/*.cpp', 'tools/src/*.cc', 'tools/src/*/*.cc', 'tools/src/*/*/*.cc', 'tools/src/*/*/*/*.cc'):
        L += sorted(f[len(R0):] for f in glob.glob(R0 + pat))
    gen = re.compile(r'(_lex|-lexer|_parse|-parser|-scanner|-compiler)\.cc$')
    out = []
    for f in L:
        base = f.rsplit('.', 1)[0]
        if os.path.basename(f) in _UNBUILT or any(os.path.exists(R0 + base + x) for x in ('.yy', '.ll', '.y', '.l')):
            continue
        out.append(f)
    return out


def walk(n):
    """all dict nodes under n (expressions and statements), pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


class Fn:
    __slots__ = ('q', 'u', 'file', 'l', 'el', 'ret', 'name', 'cls', 'const', 'st', 'virt', 'acc', 'ovr', 'kind',
                 'noexcept', 'tmpl', 'params', 'inits', 'body', 'tu', 'size', 'sc', 'variadic', '_lids')

    def __init__(self, d, tu):
        for s in self.__slots__:
            setattr(self, s, d.get(s))
        self._lids = None
        self.tu = tu
        self.size = sum(1 for _ in walk(self.body))

    @property
    def loc(self):
        return '%s:%s' % (os.path.relpath(self.file, REPO), self.l)

    def __repr__(self):
        return '<Fn %s %s>' % (self.q, self.loc)


class Program:
    def __init__(self, rels, extra=()):
        ensure_tool()
        _regen_grammars()
        self.rels = list(rels)
        self.fns = {}        # mangled -> Fn
        self.byq = {}        # qualified -> [Fn]
        self.recs = {}
        self.enums = {}
        self.enumc = {}
        self.globs = {}
        self.lambdas = {}    # mangled op() -> lambda node
        self._nid = 0
        self._vid = {}
        with ThreadPoolExecutor(8) as ex:
            data = list(ex.map(lambda r: extract(r, extra), self.rels))
        for tu, recs in enumerate(data):
            self._load(tu, recs)
        for f in self.fns.values():
            f.ovr = f.ovr or []
        self.overriders = {}
        for f in self.fns.values():
            for o in f.ovr:
                self.overriders.setdefault(o, []).append(f)

    def _load(self, tu, recs):
        ts = recs[-1]['ts']
        gids = {}
        for r in recs:
            if r['D'] == 'glob':
                gids[r['id']] = r['q']

        def fix(n):
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    self._nid += 1
                    x['nid'] = self._nid
                    for k in ('t', 'nt', 'ret', 'base', 'st'):
                        v = x.get(k)
                        if type(v) is int and not (k == 'st' and x.get('k') != 'sizeof') and k != 'base':
                            x[k] = ts[v]
                    v = x.get('v')
                    if type(v) is str and x.get('k') != 'str':
                        x['v'] = int(v)
                    if 'id' in x and type(x['id']) is int:
                        if x.get('dk') == 'glob':
                            x['id'] = 'g:' + x['n']
                        else:
                            x['id'] = (tu, x['id'])
                    for k, v in x.items():
                        if isinstance(v, (dict, list)):
                            st.append(v)
                elif isinstance(x, list):
                    st.extend(v for v in x if isinstance(v, (dict, list)))
        for r in recs:
            d = r['D']
            if d == 'fn':
                if r['u'] in self.fns:
                    continue
                r['ret'] = ts[r['ret']]
                for p in r.get('params', []):
                    p['t'] = ts[p['t']]
                    p['id'] = (tu, p['id'])
                for i in r.get('inits', []) or []:
                    if 'base' in i:
                        i['base'] = ts[i['base']]
                    fix(i['e'])
                fix(r['body'])
                f = Fn(r, tu)
                f.st = bool(r.get('st'))
                self.fns[f.u] = f
                self.byq.setdefault(f.q, []).append(f)
                for n in walk(f.body):
                    if n.get('k') == 'lambda':
                        self.lambdas[n['u']] = (n, f)
            elif d == 'rec':
                if r['q'] in self.recs:
                    continue
                r['bases'] = [ts[b] for b in r['bases']]
                r['t'] = ts[r['t']]
                for fl in r['fields']:
                    fl['t'] = ts[fl['t']]
                    if 'init' in fl:
                        fix(fl['init'])
                self.recs[r['q']] = r
            elif d == 'enum':
                self.enums[r['q']] = {c['n']: c['v'] for c in r['c']}
                for c in r['c']:
                    self.enumc[c['n']] = c['v']
            elif d == 'glob':
                old = self.globs.get(r['q'])
                if old is None or ('init' in r and 'init' not in old):
                    r['t'] = ts[r['t']]
                    if 'init' in r:
                        fix(r['init'])
                    self.globs[r['q']] = r

    # ---- lookup -----
    def fn(self, q, nparams=None, pred=None):
        c = self.byq.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c

    def one(self, q, **kw):
        c = self.fn(q, **kw)
        if not c:
            raise AnalysisBroken('anchor function %s not found' % q)
        return c[0]

    def methods(self, cls):
        return [f for f in self.fns.values() if f.cls == cls]

    def calls(self, fn_or_node):
        n = fn_or_node.body if isinstance(fn_or_node, Fn) else fn_or_node
        roots = [n]
        if isinstance(fn_or_node, Fn) and fn_or_node.inits:
            roots += [i['e'] for i in fn_or_node.inits]
        for r in roots:
            for x in walk(r):
                if x.get('k') in ('call', 'ctor'):
                    yield x

    def callees(self, u, virt=False):
        f = self.fns.get(u)
        out = []
        if f:
            out.append(f)
        if virt:
            out += self.overriders.get(u, [])
        return out

    def is_a(self, t, base):
        """record type t derives from base (qualified names)"""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.recs.get(x)
            if r:
                st += r['bases']
        return False
